// LD_PRELOAD: hash keys of an unmodified program are drawn from HASH_SEED.
#include <stdint.h>
#include <stdlib.h>
#include <sys/types.h>
ssize_t getrandom(void *buf, size_t len, unsigned flags) {
  static uint64_t s; static int init;
  (void)flags;
  if (!init) { const char *e = getenv("HASH_SEED"); s = e ? strtoull(e, 0, 10) : 0; init = 1; }
  unsigned char *p = buf;
  for (size_t i = 0; i < len; i++) {
    if (i % 8 == 0) s += 0x9E3779B97F4A7C15ull;
    uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; z ^= z >> 31;
    p[i] = z >> (8 * (i % 8));
  }
  return (ssize_t)len;
}
