#!/usr/bin/env python3
"""shapes.py: rewrites spec/shapes.json, the loop shapes of the functions under contract on the current /repo. Development tool."""
import sys, os, json, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
import check, pipe
o = {}
c = check.Check("P01", "quick", 1)
try:
    pipe.prepare(c.wd)
    for v in check.VARIANTS:
        x = check.Variant(c.wd, v, c.prop)
        x.first()
        o[v] = {f["key"]: f["shape"] for f in x.ix0["fns"] if f["kind"] == "contract" and f["shape"]}
finally: shutil.rmtree(c.wd, True)
json.dump(o, open(os.path.join(pipe.VERIF, "spec/shapes.json"), "w"), indent=0, sort_keys=True)
print({v: (len(x), {k: s for k, s in x.items() if s} if v == "spec" else 0) for v, x in o.items()})
