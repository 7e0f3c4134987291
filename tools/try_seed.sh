#!/bin/bash
# try_seed.sh <id>...: in /repo: builds and tests with the patch, demo on both, the property's check. Undoes the patch.
cd /repo || exit 2
git diff --quiet || { echo "/repo is dirty"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
for id in "$@"; do
  d=/verif/seeded/$id; [ -d $d ] || d=/verif/extra/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  res="$id $p"
  if [ -z "$SKIPDEMO" ]; then timeout 300 bash $d/demo.sh >/tmp/demo0.log 2>&1; res="$res demo0=$?"; fi
  git apply $d/patch.diff || { echo "$res APPLY-FAILED"; continue; }
  if [ -z "$SKIPDEMO" ]; then
    bash /opt/vp/build.sh >/tmp/b.log 2>&1 || res="$res BUILD-FAILED"
    bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1
    res="$res $(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
names=b.get('stable') or b.get('passed') or b.get('tests') or b
names=[n if isinstance(n,str) else n.get('id') or n.get('name') for n in names]
ok=set(t.get('passed',[])) if isinstance(t.get('passed'),list) else set(k for k,v in t.items() if v=='pass')
miss=[n for n in names if n not in ok]
print('tests=ok' if not miss else 'tests=MISSING:%s'%miss[:3])
P
)"
    timeout 300 bash $d/demo.sh >/tmp/demo1.log 2>&1; res="$res demo1=$?"
  fi
  git checkout -q -- . ; git apply $d/patch.diff
  s=$(date +%s)
  out=$(cd /verif && timeout 900 bash check.sh $p quick 2>&1); rc=$?
  res="$res check=$rc $(( $(date +%s)-s ))s"
  echo "$res"; echo "$out" | grep -E 'VIOLATION|error' | head -2 | cut -c1-260
  git checkout -q -- .
done
