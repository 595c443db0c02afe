#!/usr/bin/env python3
"""replay.py FILE: runs the input of a replay file through the real code again"""
import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pipe, gen, driver
j, _ = json.JSONDecoder().raw_decode(open(sys.argv[1]).read())
if "input" not in j: print("no input in this file"); sys.exit(2)
exe, _ = driver.build(gen.Gen(j["variant"]))
r = driver.Runner(exe)
out = r.batch([j["input"]], 30)[0]
r.close()
print("input:   ", j["input"]); print("field:   ", j["field"]); print("expected:", j["expected"]); print("answer:  ", out)
import oracle
sys.exit(1 if oracle.judge((j["input"], {j["field"]: j["expected"]}, j["type"]), out, "RWCUIH") else 0)
