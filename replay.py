#!/opt/venv/bin/python
"""replay FILE: run a recorded counterexample on the current tree, without instrumentation or solver"""
import json
import os
import subprocess
import sys

d = json.load(open(sys.argv[1]))
v = os.path.dirname(os.path.abspath(__file__))
p = subprocess.run(
    ["/opt/venv/bin/python", "-m", "pyvc.replay"], cwd=v, text=True, capture_output=True,
    input=json.dumps({"contract": d["contract"], "values": d["values"]}) + "\n",
)
r = json.loads(p.stdout)
print(json.dumps(r, indent=1))
sys.exit(1 if r["status"] == "failed" else 0)
