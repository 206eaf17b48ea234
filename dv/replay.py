"""Replays a recorded failing input on the real code."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dv.runner import Oracle  # noqa: E402

d = json.load(open(sys.argv[1]))
if d["kind"] != "input":
    print(json.dumps(d, indent=1))
    sys.exit(0)
r = Oracle(d["property"].lower(), "replay", 1, 60, 1, "r", replay=os.path.abspath(sys.argv[1])).result()
for f in r["failures"]:
    print("fails:", f["failure"])
if r.get("error"):
    print(r["error"])
print("reproduced" if r["failures"] else "not reproduced")
sys.exit(1 if r["failures"] else 0)
