"""Runs the replay harness of a property on the real code (real interpreter, real libraries)."""
import argparse
import faulthandler
import importlib
import json
import os
import random
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import socket

s = socket.socket()
s.bind(("127.0.0.1", 0))
os.environ["GOGGLES_PORT"] = str(s.getsockname()[1])
s.close()


def key_of(case):
    return json.dumps(case, sort_keys=True, default=str)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("mod")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--budget", type=float, default=8)
    ap.add_argument("--min", type=int, default=10)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--out")
    ap.add_argument("--replay")
    a = ap.parse_args()
    out = {"evaluations": 0, "distinct": 0, "samples": [], "failures": [], "current": None}

    def save():
        if a.out:
            with open(a.out + ".tmp", "w") as f:
                json.dump(out, f, default=str)
            os.replace(a.out + ".tmp", a.out)
    save()
    rng = random.Random(a.seed)
    t_imp = time.time()
    try:
        m = importlib.import_module(a.mod)
    except BaseException as e:
        # the package itself cannot be imported: that is a failure of everything
        tb = traceback.format_exc()
        if "/src/synthpix" in tb.replace("\\", "/"):
            out["failures"].append({"case": {"import": True}, "failure": "importing synthpix fails: " + tb[-900:]})
        else:
            out["error"] = tb[-1500:]
        save()
        os._exit(0)
    cases = iter([json.load(open(a.replay))["case"]]) if a.replay else m.cases(rng, a.tier)
    seen = set()
    t0 = time.time()
    for case in cases:
        n = out["evaluations"]
        fixed = isinstance(case, dict) and case.pop("fixed", False)
        if time.time() - t0 > a.budget and n >= a.min and not fixed:
            break
        if time.time() - t0 > 2 * a.budget + 60:
            break
        out["current"] = case
        save()
        try:
            fail = m.check(case)
        except MemoryError:
            fail = None
        except BaseException as e:
            if isinstance(e, KeyboardInterrupt):
                raise
            fail = f"unexpected {type(e).__name__}: {e} | " + "".join(traceback.format_exc())[-900:]
        out["evaluations"] += 1
        k = key_of(case)
        if k not in seen:
            seen.add(k)
            out["distinct"] += 1
        if len(out["samples"]) < 3:
            out["samples"].append(json.loads(json.dumps(case, default=str)))
        if fail:
            out["failures"].append({"case": json.loads(json.dumps(case, default=str)), "failure": str(fail)[:2000]})
            if len(out["failures"]) >= 3:
                break
    out["current"] = None
    save()
    sys.stdout.flush()
    os._exit(0)


main()
