"""check <PROPERTY> [--tier quick|thorough]

Discharges every obligation of the property's contracts on /repo's current
source, replays on the real code, writes the evidence file, and reports.
"""
import argparse
import importlib
import json
import linecache
import multiprocessing as mp
import os
import random
import resource
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
REPO = os.environ.get("DV_REPO", "/repo")
PY = "/opt/venv/bin/python"
CPUS = os.cpu_count() or 4


# ---------------------------------------------------------------- proofs
def proof_worker(conn, mod, k, tier):
    """Runs harness k of module mod; sends a plain-data summary."""
    t0 = time.time()
    out = {"results": [], "errors": [], "paths": 0, "completed": 0, "sources": []}
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        sys.setrecursionlimit(20000)
        from dv import api, core, rewrite, shims
        m = importlib.import_module("contracts." + mod)
        h = api.HARNESSES[k]
        s = core.Session(h.name, seconds=h.seconds * (4 if tier == "thorough" else 1),
                         prove_ms=h.opts.get("prove_ms", 8000) * (4 if tier == "thorough" else 1),
                         branch_ms=h.opts.get("branch_ms", 1500),
                         max_paths=h.opts.get("max_paths", 3000), keep_smt=tier == "thorough")
        s.jax_division = h.opts.get("jax_division", False)
        L = rewrite.Loader(shims.base_shims())
        try:
            h.fn(L, s)
        except core.Stop as e:
            s.errors.append(("unsupported", core.where(e)))
        for r in s.results:
            st = r.status
            if st == "refuted" and (r.approx or uses_opaque(r) or r.name == "lemma"):
                st = "unknown"
            d = {"name": r.name, "status": st, "secs": round(r.secs, 4), "path": r.path,
                 "backend": r.backend, "info": r.info}
            if r.smt2 and st == "ok":
                d["smt2"] = r.smt2
            out["results"].append(d)
        out["errors"] = s.errors
        out["paths"], out["completed"] = s.paths, s.completed
        out["sources"] = sorted(L.sources)
        if not s.completed and not s.errors and not h.opts.get("cut"):
            out["errors"].append(("vacuous", "no path reached the end of the harness"))
        if not s.results and not s.errors:
            out["errors"].append(("vacuous", "no obligation was generated"))
    except BaseException as e:
        out["errors"].append(("engine", "".join(traceback.format_exception(e))[-1500:]))
    out["secs"] = time.time() - t0
    conn.send(out)
    conn.close()
    os._exit(0)


OPAQUE = ("exp", "sqrt", "sin", "cos", "pow")


def uses_opaque(r):
    """Refutations that hinge on library functions known only by axioms are not definite."""
    i = r.info.split("| goal:")[-1]
    return any(o + "(" in i for o in OPAQUE)


def run_proofs(mod, tier):
    from dv import api
    importlib.import_module("contracts." + mod)
    ctxm = mp.get_context("fork")
    todo = list(range(len(api.HARNESSES)))
    todo.sort(key=lambda k: -api.HARNESSES[k].opts.get("cost", 1))
    live, done = {}, {}
    while todo or live:
        while todo and len(live) < max(2, CPUS - 1):
            k = todo.pop(0)
            a, b = ctxm.Pipe(False)
            p = ctxm.Process(target=proof_worker, args=(b, mod, k, tier))
            p.start()
            b.close()
            live[k] = (p, a, time.time())
        for k, (p, a, t0) in list(live.items()):
            h = api.HARNESSES[k]
            lim = h.seconds * (4 if tier == "thorough" else 1) + 60
            if a.poll(0.01):
                try:
                    done[k] = a.recv()
                except EOFError:
                    done[k] = {"results": [], "errors": [("engine", "worker died")], "paths": 0,
                               "completed": 0, "secs": time.time() - t0, "sources": []}
                p.join()
                del live[k]
            elif not p.is_alive() and not a.poll(0.2):
                done[k] = {"results": [], "errors": [("engine", "worker died")], "paths": 0,
                           "completed": 0, "secs": time.time() - t0, "sources": []}
                del live[k]
            elif time.time() - t0 > lim:
                p.kill()
                p.join()
                done[k] = {"results": [], "errors": [("limit", "time")], "paths": 0,
                           "completed": 0, "secs": time.time() - t0, "sources": []}
                del live[k]
        time.sleep(0.01)
    return [(api.HARNESSES[k], done[k]) for k in sorted(done)]


# ---------------------------------------------------------------- replay on the real code
class Oracle:
    def __init__(self, mod, tier, seed, budget, mincases, tag, replay=None, hints=None):
        self.dir = tempfile.mkdtemp(prefix="dvo")
        self.out = os.path.join(self.dir, "out.json")
        env = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "JAX", "XLA"))}
        env.update(JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=os.path.join(REPO, "src"),
                   PYTHONHASHSEED="0", DV_REPO=REPO, VERIF_SEED=str(seed), TMPDIR=self.dir, HOME=self.dir,
                   XLA_FLAGS="--xla_force_host_platform_device_count=4 --xla_cpu_multi_thread_eigen=false")
        args = [PY, os.path.join(HERE, "oracle", "run.py"), mod, "--seed", str(seed), "--budget", str(budget),
                "--min", str(mincases), "--out", self.out, "--tier", tier]
        if replay:
            args += ["--replay", replay]
        self.hard = budget * 2 + 150
        self.t0 = time.time()
        self.log = open(os.path.join(self.dir, "log"), "wb")
        self.p = subprocess.Popen(args, cwd=self.dir, env=env, stdout=self.log, stderr=self.log,
                                  start_new_session=True)

    def result(self):
        try:
            self.p.wait(max(1, self.hard - (time.time() - self.t0)))
            hung = False
        except subprocess.TimeoutExpired:
            hung = True
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()
        self.log.close()
        try:
            r = json.load(open(self.out))
        except Exception:
            tail = open(os.path.join(self.dir, "log"), errors="replace").read()[-2000:]
            r = {"evaluations": 0, "distinct": 0, "samples": [], "failures": [], "error": tail}
        if hung:
            r["error"] = "did not finish: " + str(r.get("current"))
        subprocess.run(["rm", "-rf", self.dir])
        return r


# ---------------------------------------------------------------- second back end
def redischarge(results, limit=60.0):
    """Re-checks exported obligations with cvc5; returns (checked, confirmed, disagreements)."""
    t0, n, okc, bad = time.time(), 0, 0, []
    for r in results:
        s = r.pop("smt2", None)
        if s is None or time.time() - t0 > limit:
            continue
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write("(set-logic ALL)\n" + s)
        try:
            p = subprocess.run(["cvc5", "--tlimit=4000", f.name], capture_output=True, text=True, timeout=20)
            n += 1
            a = p.stdout.strip().split("\n")[0]
            if a == "unsat":
                okc += 1
                r["backend"] += "+cvc5"
            elif a == "sat":
                bad.append(r["name"])
        except subprocess.TimeoutExpired:
            n += 1
        finally:
            os.unlink(f.name)
    return n, okc, bad


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--no-oracle", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    pid, tier = a.property, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = pid.lower()
    t0 = time.time()
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    import z3  # loaded before forking
    quick = tier != "thorough"
    m = importlib.import_module("contracts." + mod)
    known = known_findings(pid)
    oracles = []
    if not a.no_oracle:
        n0 = 1 if quick else 3
        for j in range(n0):
            oracles.append(Oracle(mod, tier, seed + 1000 * j, getattr(m, "BUDGET", 8) if quick else 150,
                                  getattr(m, "MINCASES", 12), f"o{j}"))
    proofs = run_proofs(mod, tier)
    res = [dict(r, harness=h.name, bounded=h.bounded) for h, o in proofs for r in o["results"]]
    errs = [(h, k, t) for h, o in proofs for k, t in o["errors"]]
    refuted = [r for r in res if r["status"] == "refuted"]
    for h, k, t in errs:
        if k == "exception" and definite(t):
            refuted.append({"name": f"no exception escapes ({h.name})", "info": t, "harness": h.name,
                            "status": "refuted", "secs": 0, "backend": "z3", "bounded": h.bounded, "path": 0})
    unknown = [r for r in res if r["status"] == "unknown"]
    ores = [o.result() for o in oracles]
    fails = [f for o in ores for f in o["failures"]]
    if (refuted or unknown or errs) and not fails and not a.no_oracle and not all_known(refuted, known):
        # an obligation is not discharged: look for a failing input in earnest
        more = [Oracle(mod, "deep", seed + 77 + 13 * j, 60 if quick else 200, 30, f"d{j}")
                for j in range(max(2, min(5, CPUS - 2)))]
        for o in more:
            r = o.result()
            ores.append(r)
            fails += r["failures"]
    rd = (0, 0, [])
    if not quick:
        rd = redischarge(res)
    for r in res:
        r.pop("smt2", None)

    rc = 0
    lines = []
    nviol = 0
    kf = set()
    new = []
    for f in fails:
        hit = [k for k in known if k["match"] in f["failure"]]
        if hit:
            kf.update(k["what"] for k in hit)
        else:
            new.append(f)
    refn = []
    for r in refuted:
        hit = [k for k in known if k["match"] in r["name"]]
        if hit:
            kf.update(k["what"] for k in hit)
        else:
            refn.append(r)
    for w in sorted(kf):
        lines.append(f"KNOWN-FINDING: property={pid} {w}")
    if new:
        f = new[0]
        rp = write_replay(pid, {"property": pid, "kind": "input", "case": f["case"], "failure": f["failure"],
                                "failed_obligations": brief(refn + unknown),
                                "how": f"python3-vt {HERE}/dv/runner.py is the check; to replay: "
                                       f"{HERE}/check --replay <this file>"})
        lines.append(f"violated: {f['failure'][:600]}")
        lines += [f"obligation failed: {r['harness']}: {r['name']}" for r in refn[:5]]
        lines.append(f"VIOLATION property={pid} replay={rp}")
        rc, nviol = 1, len(new)
    elif refn:
        rp = write_replay(pid, {"property": pid, "kind": "obligation", "failed_obligations": brief(refn),
                                "note": "the verifier refuted these obligations; no failing input was found by replaying"})
        for r in refn[:5]:
            lines.append(f"obligation failed: {r['harness']}: {r['name']}: {r['info'][:400]}")
        lines.append(f"VIOLATION property={pid} replay={rp} no-failing-input-found")
        rc, nviol = 1, len(refn)
    for h, k, t in errs:
        lines.append(f"not discharged: {h.name}: {k}: {t[-400:]}")
    for r in unknown[:10]:
        lines.append(f"not discharged: {r['harness']}: {r['name']}: unknown {r['info'][:300]}")
    for o in ores:
        if o.get("error"):
            lines.append("replay harness: " + str(o["error"])[-800:])
    if a.v:
        for h, o in proofs:
            print(f"[{h.name}] paths={o['paths']} completed={o['completed']} secs={o['secs']:.2f}"
                  f" obligations={len(o['results'])}")
            for r in o["results"]:
                if r["status"] != "ok" or r["secs"] > 1:
                    print("   ", r["status"], round(r["secs"], 2), r["name"], r["info"][:700])
        for o in ores:
            print("oracle:", {k: v for k, v in o.items() if k != "samples"})
    evidence(pid, tier, seed, m, proofs, res, refuted, unknown, errs, ores, rd, nviol, time.time() - t0)
    full = [r for r in res if not r["bounded"]]
    lines.insert(0, f"{pid}: {sum(r['status'] == 'ok' for r in full)}/{len(full)} obligations discharged, "
                 f"{sum(r['status'] == 'ok' for r in res if r['bounded'])} bounded, "
                 f"{sum(o['evaluations'] for o in ores)} replay executions, {time.time() - t0:.1f}s")
    print("\n".join(lines))
    sys.stdout.flush()
    os._exit(rc)


def definite(t):
    """The exception was raised by a raise statement of the code under verification."""
    i = t.rfind(" at ")
    try:
        f, rest = t[i + 4:].split(":", 1)
        line = int(rest.split("(")[0])
    except Exception:
        return False
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        if f in fs and linecache.getline(os.path.join(d, f), line).strip().startswith("raise"):
            return True
    return False


def all_known(refuted, known):
    return bool(refuted) and all(any(k["match"] in r["name"] for k in known) for r in refuted)


def known_findings(pid):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == pid]


def brief(rs):
    return [{k: r[k] for k in ("harness", "name", "status", "info", "path")} for r in rs[:20]]


def write_replay(pid, d):
    p = os.path.join(HERE, "evidence", f"{pid}.replay.json")
    json.dump(d, open(p, "w"), indent=1, default=str)
    return p


def evidence(pid, tier, seed, m, proofs, res, refuted, unknown, errs, ores, rd, nviol, wall):
    from dv import shims
    full = [r for r in res if not r["bounded"]]
    bnd = [r for r in res if r["bounded"]]
    by = {}
    for r in full:
        if r["status"] == "ok":
            by[r["backend"]] = by.get(r["backend"], 0) + 1
    fns = sorted({f for h, o in proofs for f in h.functions})
    names = {}
    for r in full:
        e = names.setdefault(f"{r['harness']}: {r['name']}", {"instances": 0, "discharged": 0, "secs": 0.0})
        e["instances"] += 1
        e["discharged"] += r["status"] == "ok"
        e["secs"] = round(e["secs"] + r["secs"], 3)
    cov = {
        "obligations": len(full), "discharged": sum(r["status"] == "ok" for r in full),
        "checker_cmd": f"cd /verif && ./check {pid} --tier {tier}",
        "trusted_base": ["z3 4.x (python3-vt z3-solver)", "dv engine (/verif/dv: path exploration, rewriting, term construction)",
                         "assumed library contracts in /verif/dv/shims.py (jax, numpy, ...)"] + list(getattr(m, "TRUSTED", [])),
        "functions_under_contract": fns,
        "obligations_by_backend": by,
        "solver_secs": round(sum(r["secs"] for r in res), 3),
        "named_obligations": names,
        "paths_explored": sum(o["paths"] for _, o in proofs),
        "harnesses": [{"name": h.name, "paths": o["paths"], "completed_paths": o["completed"],
                       "obligations": len(o["results"]), "secs": round(o["secs"], 2), "bounded": h.bounded}
                      for h, o in proofs],
        "bounded_obligations": len(bnd), "bounded_discharged": sum(r["status"] == "ok" for r in bnd),
        "undischarged": [f"{r['harness']}: {r['name']}" for r in refuted + unknown] + [f"{h.name}: {k}: {t[:300]}" for h, k, t in errs],
        "replay_executions": sum(o["evaluations"] for o in ores),
        "replay_distinct": sum(o.get("distinct", 0) for o in ores),
        "replay_samples": [s for o in ores for s in o.get("samples", [])][:6],
        "replay_failures": len([f for o in ores for f in o["failures"]]),
    }
    if tier == "thorough":
        cov["cvc5_checked"], cov["cvc5_confirmed"], cov["cvc5_disagrees"] = rd
    if len(full) == 0 or cov["discharged"] < len(full) or errs:
        cov["explanation"] = ("Not every obligation was discharged on this tree: the functions listed under "
                              "'undischarged' were covered by the bounded replay only.")
    d = {"property": pid, "tier": "thorough" if tier == "thorough" else "quick", "seed": seed,
         "level": getattr(m, "LEVEL", "proof"), "coverage": cov,
         "assumptions": ["floating point arithmetic is treated as exact real arithmetic",
                         "machine integers are treated as unbounded"] + list(getattr(m, "ASSUMPTIONS", [])),
         "wall_s": round(wall, 2), "violations": nviol}
    if d["level"] == "other" and "explanation" not in cov:
        cov["explanation"] = m.EXPLANATION
    json.dump(d, open(os.path.join(HERE, "evidence", f"{pid}.json"), "w"), indent=1, default=str)


if __name__ == "__main__":
    main()
