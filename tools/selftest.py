#!/usr/bin/env python3
"""Checks the explorer against the outcomes x86-TSO (and sequential consistency) allows."""
import json, os, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import run
vm = run.build_vm()
t = tempfile.mkdtemp()
so, err = run.compile_cfg(dict(name="litmus", src="litmus.cpp", mode="conc"), t)
assert so, err
names = ["SB", "SB+mfence", "SB+lock", "SB+seq_cst", "SB+rel/acq", "MP", "LB", "n6", "IRIW", "CoRR"]
relaxed = {"SB": "0000 x1", "SB+rel/acq": "0000 x0", "n6": "1000 x1"}
forbidden = {"SB+mfence": ["0000 x1"], "SB+lock": ["0000 x1"], "SB+seq_cst": ["0000 x0"], "MP": ["1000 x1"], "LB": ["1100 x1"], "IRIW": ["1010 x1"], "CoRR": ["2210 x2"]}
bad = 0
for i, n in enumerate(names):
    res = []
    for tso in (False, True):
        subprocess.run([vm, so, "--out", t + "/o.json", "test=%d" % i] + (["--tso"] if tso else []), stdout=subprocess.DEVNULL)
        d = json.load(open(t + "/o.json"))
        res.append((set(d["outcome_list"]), d["states"], d["exhaustive"], len(d["violations"])))
    (sc, s0, e0, v0), (ts, s1, e1, v1) = res
    ok = e0 and e1 and not v0 and not v1 and sc <= ts
    want = {relaxed[n]} if n in relaxed else set()
    ok &= ts - sc == want and not any(f in ts for f in forbidden.get(n, []))
    bad |= not ok
    print("%-11s %s  SC %d outcomes (%d states), TSO %d outcomes (%d states), only under TSO: %s" % (n, "ok " if ok else "BAD", len(sc), s0, len(ts), s1, sorted(ts - sc)))
sys.exit(bad)
