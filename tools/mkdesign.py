"""Writes section 2 of DESIGN.md (between its markers) from the contract modules."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from dv import api
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
out = []
for p in props:
    api.HARNESSES.clear()
    m = importlib.import_module("contracts." + p["id"].lower())
    hs = list(api.HARNESSES)
    fns = sorted({f for h in hs for f in h.functions})
    out += [f"### {p['id']} {p['title']}", ""]
    if getattr(m, "NOTE", None):
        out += [m.NOTE, ""]
    out += ["Functions under contract: " + ", ".join(f"`{f}`" for f in fns) + ".", ""]
    out += ["Obligations (one line per harness):", ""]
    seen = set()
    for h in hs:
        n = h.name.split(" [")[0]
        if n in seen:
            continue
        seen.add(n)
        b = h.bounded
        out.append(f"* {n}" + (f" — **bounded**: {b}" if b else ""))
    a = getattr(m, "ASSUMPTIONS", [])
    if a:
        out += ["", "Assumed: " + "; ".join(a) + "."]
    out.append("")
s = open(V + "/DESIGN.md").read()
A, B = "<!-- generated by tools/mkdesign.py -->", "<!-- end -->"
i, j = s.index(A), s.index(B)
open(V + "/DESIGN.md", "w").write(s[:i] + A + "\n\n" + "\n".join(out) + "\n" + s[j:])
