#!/usr/bin/env python3
"""flaky.py VARIANT SEED..: verifies everything of one variant under other solver seeds. Development tool."""
import sys; sys.path[:0] = ["/verif/lib", "/verif/spec"]
from props import P
P["ALL"] = dict(roots=["*"], deep=True, kinds="RWCIUH")
import check, pipe, shutil
check.VARIANTS = [sys.argv[1]]
for seed in sys.argv[2:]:
    c = check.Check("ALL", "thorough", 1)
    c.setup()
    x = c.vs[sys.argv[1]]
    c.prove(x, ["--smt-option", f"smt.random_seed={seed}"])
    r = c.res[x.v]
    print(x.v, "seed", seed, r["verified"], r["errors"], round(r["wall"]), [f[:3] for f in c.fail], [(a, b, m[:100]) for a, b, m in c.lost], flush=True)
    shutil.rmtree(c.wd, ignore_errors=True)
