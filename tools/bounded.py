#!/usr/bin/env python3
"""bounded.py PROP VARIANT SECONDS: only the bounded search, on the unchanged tree. Development tool: whatever it reports is a false alarm or a defect."""
import sys; sys.path[:0] = ["/verif/lib", "/verif/spec"]
import check, shutil
c = check.Check(sys.argv[1], "thorough", int(sys.argv[4]) if len(sys.argv) > 4 else 1)
check.VARIANTS = [sys.argv[2]]
c.setup()
h = c.search({sys.argv[2]: None}, int(sys.argv[3]))
print(sys.argv[1:3], c.bounded["evaluations"], "HIT " + str(h)[:1500] if h else "quiet", c.notes)
shutil.rmtree(c.wd, ignore_errors=True)
