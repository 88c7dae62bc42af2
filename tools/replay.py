#!/usr/bin/env python3
"""replay.py <file>: run the script of a reported violation again and show what the specification says."""
import json
import os
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib                                                                 # noqa: E402

r = json.load(open(sys.argv[1]))
os.makedirs(vlib.BUILD, exist_ok=True)
with tempfile.TemporaryDirectory(dir=vlib.BUILD) as scratch:
    b = vlib.build_driver(r["driver"])
    ev = vlib.run_script(b, r["script"], scratch)
    mm, _ = vlib.validate(ev, scratch, module=r["module"])
    for line in r["script"]:
        print(line if len(line) < 300 else line[:300] + "...")
    for m in mm:
        print("MISMATCH", m["op"], m["kinds"], m["props"])
        print(json.dumps(ev[m["line"] - 1])[:3000])
    print("reproduced" if any(r["property"] in m["props"] for m in mm) else "not reproduced")
