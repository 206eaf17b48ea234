"""Runs the harnesses of a contract module whose name contains a string, in-process, and prints what happened.
usage: dbg.py <module> [substring] [debug]"""
import importlib, os, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from dv import api, core, rewrite, shims
if len(sys.argv) > 3:
    from dv import canon
    canon.DEBUG = True
importlib.import_module("contracts." + sys.argv[1])
sub = sys.argv[2] if len(sys.argv) > 2 else ""
for h in api.HARNESSES:
    if sub not in h.name:
        continue
    t0 = time.time()
    s = core.Session(h.name, seconds=h.seconds, prove_ms=h.opts.get("prove_ms", 8000), branch_ms=h.opts.get("branch_ms", 1500),
                     max_paths=h.opts.get("max_paths", 3000))
    s.jax_division = h.opts.get("jax_division", False)
    try:
        h.fn(rewrite.Loader(shims.base_shims()), s)
    except core.Stop as e:
        s.errors.append(("unsupported", core.where(e)))
    print(f"== {h.name}: paths {s.paths} completed {s.completed} {time.time() - t0:.1f}s")
    n = {}
    for r in s.results:
        n[r.status] = n.get(r.status, 0) + 1
        if r.status != "ok":
            print("  ", r.status, r.name, f"{r.secs:.1f}s", r.path, str(r.info)[:1200])
    print("  ", n, "slowest", [(r.name, round(r.secs, 1)) for r in sorted(s.results, key=lambda r: -r.secs)[:3]])
    for e in s.errors:
        print("   ERROR", *[str(x)[:1500] for x in e])
