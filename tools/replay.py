#!/usr/bin/env python3
"""replay.py FILE: run a replay file's case through its driver and its trace specification."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import core
d = json.load(open(sys.argv[1]))
c = core.Checker(d["property"], "quick", 1)
core.build(d["driver"])
for k in range(3):
    ev = core._drive(d["driver"], [d["case"]], os.path.join(c.tmp, "r"))
    ok, pos, _, tail = c._validate(ev, d["module"], d["cfg"], "r")
    print("accepted" if ok else "rejected at %d: %s" % (pos, json.dumps(ev[pos][1])[:1500]))
    if tail: print(tail[-600:])
