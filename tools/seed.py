#!/usr/bin/env python3
"""seed.py FILE.py [id..]: makes /verif/seeded/<id> from a list BUGS; each is confirmed in a scratch copy (/tmp/s/repo) first.
Development tool; no check reads it."""
import sys, os, subprocess, json, re, shutil
REPO = "/tmp/s/repo"
DEMO = '''#!/bin/bash
# run with cwd = the repository; exit 0 when the behaviour is right
set -e
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src"; cp "$D/main.rs" "$T/src/main.rs"; cp "$R/Cargo.lock" "$T/Cargo.lock"
F=$(sed -n 's,^// feature: ,,p' "$D/main.rs")
cat > "$T/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
dash7 = { path = "$R/dash7", default-features = false, features = ["std", "$F"] }
deku = { version = "*", default-features = false, features = ["std"] }
X
cd "$T" && CARGO_TARGET_DIR="$T/target" cargo run --offline -q
'''
def sh(c, cwd=REPO, **k): return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def tests():
    fails = set(); n = 0
    for v in ("spec", "subiot", "wizzilab"):
        o = sh(f"cargo test --workspace --no-fail-fast --locked --offline --no-default-features -F std,{v} -- --test-threads 8").stdout
        for m in re.finditer(r"^test (\S+)(?: - .*)? \.\.\. (\w+)", o, re.M):
            n += 1
            if m.group(2) == "FAILED": fails.add(v + " " + m.group(1))
        if "could not compile" in o: fails.add(v + " COMPILE " + "\n".join(l for l in o.split("\n") if l.startswith("error"))[:400])
    return fails, n
ns = {}
exec(open(sys.argv[1]).read(), ns)
want = set(sys.argv[2:])
sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD")
base, n0 = tests()
for b in ns["BUGS"]:
    if want and b["id"] not in want: continue
    sh("git checkout -q -- .")
    bad = None
    for f, old, new in b["edits"]:
        p = f"{REPO}/dash7/src/{f}"; s = open(p).read()
        if s.count(old) != 1: bad = f"{f}: {s.count(old)} matches of {old!r}"; break
        open(p, "w").write(s.replace(old, new))
    if bad: print(b["id"], "BAD EDIT", bad); continue
    diff = sh("git diff").stdout
    f, n = tests()
    if f - base or n != n0: print(b["id"], "TESTS FAIL", sorted(f - base)[:6], n, n0); continue
    d = f"/verif/seeded/{b['id']}"
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/main.rs", "w").write(f"// feature: {b.get('feature', 'spec')}\n" + b["demo"].strip() + "\n")
    open(d + "/demo.sh", "w").write(DEMO)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    bad_ = sh(f"bash {d}/demo.sh")
    sh("git checkout -q -- .")
    good = sh(f"bash {d}/demo.sh")
    ok = good.returncode == 0 and bad_.returncode != 0 and "could not compile" not in bad_.stdout
    print(b["id"], "kept" if ok else "DEMO WRONG", good.returncode, bad_.returncode, "" if ok else (good.stdout + bad_.stdout)[-1500:])
    if not ok: shutil.rmtree(d)
