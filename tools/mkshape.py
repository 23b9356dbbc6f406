#!/usr/bin/env python3
"""Records, per unit, how many loops and closures each function under contract has (contracts/shape.json).

An obligation that fails in a function with another number of them is reported as undecided: the invariants of the
contract were written for other loops. Run after the contracts are changed, on the unchanged tree."""
import glob, json, os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = {}
for f in sorted(glob.glob(V + "/contracts/u_*.vc")):
    u = os.path.basename(f)[2:-3]
    with tempfile.TemporaryDirectory() as d:
        subprocess.run([V + "/target/extract/debug/rv-extract", f, os.environ.get("RV_REPO", "/repo"), d + "/x.rs", d + "/x.json"], check=True)
        out[u] = json.load(open(d + "/x.json"))["shapes"]
with open(V + "/contracts/shape.json", "w") as f:
    f.write("{\n" + ",\n".join(f'"{u}": ' + json.dumps(s, sort_keys=True) for u, s in out.items()) + "\n}\n")
