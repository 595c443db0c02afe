#!/usr/bin/env python3
"""catch.py [id..]: runs the check of each planted bug's property on a scratch copy with the bug applied. Development tool."""
import os, sys, re, json, subprocess
REPO = "/tmp/s/repo"; S = "/verif/seeded"
def sh(c, **k): return subprocess.run(c, shell=True, cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD")
for i in sorted(os.listdir(S)):
    if sys.argv[1:] and i not in sys.argv[1:]: continue
    p = json.load(open(f"{S}/{i}/meta.json"))["property"]
    sh("git checkout -q -- .")
    if sh(f"git apply {S}/{i}/patch.diff").returncode: print(i, "does not apply"); continue
    o = sh(f"DASH7_REPO={REPO} DASH7_TARGET=/tmp/s/tgt python3 /verif/lib/check.py {p} quick", timeout=1000)
    L = o.stdout.strip().split("\n")
    print(i, p, "rc", o.returncode, "NFIF" if "no-failing" in L[-1] else "", L[-1][:70], re.findall(r"\[ *([\d.]+)\]", o.stdout)[-1:], flush=True)
    if o.returncode != 1 or "no-failing" in L[-1]: print("    ", *[l[:200] for l in L if re.search("FAILED|not proved|note", l)], sep="\n     ", flush=True)
    sh("git checkout -q -- .")
