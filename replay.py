#!/opt/venv/bin/python
"""replay.py CASE.json: run a recorded counterexample on the real code."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from sx.runner import Replayer  # noqa: E402

case = json.load(open(sys.argv[1]))
r = Replayer(case["property"], case.get("tier", "quick"))
res = r.run(case, 60)
r.close()
print(json.dumps({"inputs": case["inputs"], "result": res}, indent=1))
sys.exit(1 if res.get("failed") else 0)
