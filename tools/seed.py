"""Planted bugs.
  seed.py new ID PROPERTY FILE NEEDS BREAKS   with OLD/NEW texts in $OLD, $NEW and the demo on stdin
  seed.py verify ID...                        in scratch copies: applies, builds, stable tests pass, the demo tells the difference
  seed.py check ID... [--tier T]              runs the property's check on a scratch copy with the bug
"""
import concurrent.futures as cf
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = """#!/bin/bash
export JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 XLA_FLAGS=--xla_force_host_platform_device_count=4
export GOGGLES_PORT=$((20000 + RANDOM % 20000))
exec timeout 280 /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def new(id, prop, file, needs, breaks):
    d = f"{V}/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    s = open(f"/repo/{file}").read()
    old, nw = os.environ["OLD"], os.environ["NEW"]
    assert s.count(old) == 1, f"{s.count(old)} occurrences"
    t = tempfile.mkdtemp()
    for n, x in (("a", s), ("b", s.replace(old, nw))):
        os.makedirs(os.path.dirname(f"{t}/{n}/{file}"))
        open(f"{t}/{n}/{file}", "w").write(x)
    p = subprocess.run(["diff", "-u", f"a/{file}", f"b/{file}"], cwd=t, capture_output=True, text=True).stdout
    shutil.rmtree(t)
    p = "\n".join(l.split("\t")[0] if l.startswith(("--- ", "+++ ")) else l for l in p.split("\n"))
    open(d + "/patch.diff", "w").write(p)
    open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.py", "w").write(sys.stdin.read())
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)


def scratch(id, patch=True):
    d = tempfile.mkdtemp(prefix=f"seed_{id}_")
    r = f"{d}/repo"
    subprocess.run(["cp", "-a", "/repo", r], check=True)
    if patch:
        subprocess.run(["git", "apply", f"{V}/seeded/{id}/patch.diff"], cwd=r, check=True)
    return d, r


def demo(id, r):
    d = tempfile.mkdtemp()
    for f in os.listdir(f"{V}/seeded/{id}"):
        if not f.endswith((".diff", ".json")):
            shutil.copy(f"{V}/seeded/{id}/{f}", d)
    env = dict(os.environ, PYTHONPATH=f"{r}/src")
    p = subprocess.run(["bash", f"{d}/demo.sh"], cwd=r, env=env, capture_output=True, text=True)
    shutil.rmtree(d)
    return p.returncode, (p.stdout + p.stderr)[-400:]


def tests(d, r):
    t = open("/opt/vp/test.sh").read().replace("cd /repo", f"cd {r}").replace("REPORTS=/opt/vp/reports", f"REPORTS={d}/reports")
    t = t.replace("PYTHONPATH=/opt/vp ", f"PYTHONPATH=/opt/vp:{r}/src ")
    open(d + "/test.sh", "w").write(t)
    subprocess.run(["bash", d + "/test.sh", d + "/out.json"], capture_output=True)
    res = json.load(open(d + "/out.json"))
    return [x for x in json.load(open("/opt/vp/BASELINE.json"))["stable"] if x not in set(res["passed"])]


def verify(id):
    d, r = scratch(id)
    try:
        a = demo(id, "/repo")
        b = demo(id, r)
        if a[0] != 0 or b[0] == 0:
            return f"{id}: DEMO unchanged {a} patched {b}"
        miss = tests(d, r)
        if miss and len(miss) < 6:
            miss = [m for m in tests(d, r) if m in miss]
        return f"{id}: " + (f"TESTS fail: {miss[:4]} ({len(miss)})" if miss else "ok") + f" | {b[1][-200:].strip()}"
    finally:
        subprocess.run(["rm", "-rf", d])


def check(id, tier="quick"):
    prop = json.load(open(f"{V}/seeded/{id}/meta.json"))["property"]
    d, r = scratch(id)
    try:
        ev = f"{d}/verif"
        subprocess.run(["cp", "-a", V, ev])
        p = subprocess.run([f"{ev}/check", prop, "--tier", tier], cwd=ev, env=dict(os.environ, DV_REPO=r, VERIF_SEED="1"), capture_output=True, text=True)
        out = (p.stdout + p.stderr).strip().split("\n")
        return f"{id} [{prop}]: exit {p.returncode} " + " / ".join(l for l in out if "VIOLATION" in l or l.startswith(prop))[:600]
    finally:
        subprocess.run(["rm", "-rf", d])


if __name__ == "__main__":
    cmd, a = sys.argv[1], sys.argv[2:]
    if cmd == "new":
        new(*a)
    else:
        f = dict(verify=verify, check=check)[cmd]
        ids = a or sorted(os.listdir(V + "/seeded"))
        with cf.ThreadPoolExecutor(1 if cmd == "verify" else 2) as ex:
            for x in ex.map(f, ids):
                print(x, flush=True)
