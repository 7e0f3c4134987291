"""Makes /verif/seeded/<id>/ from definitions and, on request, tries them in scratch copies of /repo."""
import json, os, subprocess, sys, tempfile, shutil
REPO = "/repo"
DEMO = r'''#!/bin/bash
# run with cwd = the repository; exit 0: behaves as stated
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true
unset RUSTFLAGS RUSTC_WRAPPER
w="$(mktemp -d)"; trap 'rm -rf "$w"' EXIT
mkdir "$w/src"; cp "$here"/*.rs "$w/src/"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
syntaxis = { path = "$repo" }
regex = "1"
tera = { version = "1", default-features = false }
serde_json = "1"
T
cd "$w" || exit 3
CARGO_TARGET_DIR="$w/target" cargo build --offline -q || exit 3
cd "$repo" || exit 3
SCRATCH="$w" timeout 60 "$w/target/debug/demo"
'''
def write(bug):
    d = f"/verif/seeded/{bug['id']}"
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="seed-")
    try:
        subprocess.run(["git", "-C", REPO, "worktree", "list"], check=True, stdout=subprocess.DEVNULL)
        for f, edits in bug["edits"].items():
            src = open(f"{REPO}/{f}").read()
            new = src
            for e in edits:
                old, rep = e[0], e[1]
                n = e[2] if len(e) > 2 else 1
                assert new.count(old) >= 1, (bug["id"], f, old)
                if n == "all": new = new.replace(old, rep)
                else:
                    assert new.count(old) == 1 or n > 1 or len(e) > 2, (bug["id"], f, old, new.count(old))
                    i = -1
                    for _ in range(n): i = new.index(old, i + 1)
                    new = new[:i] + rep + new[i + len(old):]
            for side, text in (("a", src), ("b", new)):
                p = f"{w}/{side}/{f}"; os.makedirs(os.path.dirname(p), exist_ok=True); open(p, "w").write(text)
        r = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a", "b"], cwd=w, capture_output=True, text=True)
        open(f"{d}/patch.diff", "w").write(r.stdout)
    finally:
        shutil.rmtree(w)
    # plain a/ b/ prefixes come from the directory names
    open(f"{d}/main.rs", "w").write(bug["demo"])
    open(f"{d}/demo.sh", "w").write(DEMO)
    os.chmod(f"{d}/demo.sh", 0o755)
    json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, open(f"{d}/meta.json", "w"), indent=1, ensure_ascii=False)
