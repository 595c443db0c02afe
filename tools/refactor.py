#!/usr/bin/env python3
"""refactor.py [id..]: applies each behaviour-preserving edit to a scratch copy (/tmp/s/repo) and runs the checks on it. Development tool."""
import os, sys, re, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from refactors import R
REPO = os.environ.get("SCRATCH", "/tmp/s/repo")
def sh(c, **k): return subprocess.run(c, shell=True, cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD")
for i, checks, edits in R:
    if sys.argv[1:] and i not in sys.argv[1:]: continue
    bad = None
    for f, old, new in edits:
        p = f"{REPO}/dash7/src/{f}"; s = open(p).read()
        if s.count(old) != 1: bad = f"{f}: {s.count(old)} matches of {old[:60]!r}"; break
        open(p, "w").write(s.replace(old, new))
    if bad: print(i, "BAD EDIT", bad, flush=True)
    else:
        for v in ("spec",) if "--notest" not in sys.argv else ():
            o = sh(f"cargo test --workspace --no-fail-fast --locked --offline --no-default-features -F std,{v} 2>&1 | grep -E '^error|FAILED|panicked' | head -5").stdout
            if o.strip(): print(i, "TESTS", o, flush=True)
        for c in checks:
            o = sh(f"DASH7_REPO={REPO} DASH7_TARGET={os.path.dirname(REPO)}/tgt python3 /verif/lib/check.py {c} quick", timeout=1000)
            L = o.stdout.strip().split("\n")
            print(i, c, "rc", o.returncode, L[-1][:200], flush=True)
            if o.returncode or "bounded" in L[-1]:
                for l in L:
                    if re.search("FAILED|not proved|taken out|input:|expected|got:|panic|cannot", l): print("    ", l[:260], flush=True)
    sh("git checkout -q -- .")
