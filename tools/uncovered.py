"""Functions of the package that no harness names."""
import ast, glob, os, re, sys
sys.path.insert(0, "/verif")
R = "/repo/src/synthpix/"
fns = set()
for f in glob.glob(R + "**/*.py", recursive=True):
    m = f[len(R):-3].replace("/", ".")
    def walk(n, pre):
        for x in n.body:
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fns.add(f"{pre}.{x.name}")
            elif isinstance(x, ast.ClassDef):
                walk(x, f"{pre}.{x.name}")
    walk(ast.parse(open(f).read()), m)
import json
named = {}
for f in glob.glob("/verif/evidence/C*.json"):
    e = json.load(open(f))
    s = json.dumps(e)
    for n in fns:
        if n in s:
            named.setdefault(n, []).append(e.get("property_id") or os.path.basename(f)[:3])
for n in sorted(fns):
    print(n, ",".join(sorted(named.get(n, []))) or "-")
