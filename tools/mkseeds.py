"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and the log of `seed.py check`."""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | property | what it breaks | needs |", "|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
s = open(V + "/DESIGN.md").read()
a, b = s.index("<!-- seeds -->"), s.index("<!-- end seeds -->")
s = s[:a] + "<!-- seeds -->\n" + "\n".join(rows) + "\n" + s[b:]
open(V + "/DESIGN.md", "w").write(s)
