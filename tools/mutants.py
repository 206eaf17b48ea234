"""Trial bugs: mutants.py FILE.json [ID...]; each {"id","prop","file","old","new"}; runs the property's check on a scratch copy."""
import json, os, re, subprocess, sys, tempfile, time
V = "/verif"
ms = json.load(open(sys.argv[1]))
want = sys.argv[2:]
d = tempfile.mkdtemp(prefix="mut_")
r = d + "/repo"
subprocess.run(["cp", "-a", "/repo", r], check=True)
for m in ms:
    if want and m["id"] not in want:
        continue
    f = f"{r}/src/synthpix/{m['file']}"
    s = open(f).read()
    eds = m["edits"] if "edits" in m else [[m["old"], m["new"]]]
    bad, t = None, s
    for o, n in eds:
        if t.count(o) != 1:
            bad = f"{t.count(o)} occurrences of {o[:60]!r}"
        t = t.replace(o, n)
    if bad:
        print(m["id"], "EDIT", bad, flush=True)
        continue
    open(f, "w").write(t)
    for prop in m["prop"].split(","):
        t0 = time.time()
        try:
            p = subprocess.run([V + "/check", prop], env=dict(os.environ, DV_REPO=r, VERIF_SEED="1"), capture_output=True, text=True, timeout=900, cwd=V)
            out = p.stdout + p.stderr
            v = [l for l in out.split("\n") if l.startswith("VIOLATION")]
            kind = "CAUGHT" if v and p.returncode == 1 else "quiet" if p.returncode == 0 else f"rc{p.returncode}"
            if v and all("no-failing-input" in l for l in v):
                kind = "CAUGHT(no input)"
            nd = [l for l in out.split("\n") if "not discharged" in l]
            print(f"{m['id']:28s} {prop} {kind:16s} {time.time() - t0:5.0f}s {nd[0][:150] if nd and kind == 'quiet' else ''}", flush=True)
        except subprocess.TimeoutExpired:
            print(m["id"], prop, "TIMEOUT", flush=True)
    open(f, "w").write(s)
subprocess.run(["rm", "-rf", d])
