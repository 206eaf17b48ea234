import subprocess
import sys

from eplib import *


def cases(rng, tier):
    F = {"fixed": True}
    yield {**F, "dirs": [4, 6], "B": 3, "L": 3, "key": 1, "episodes": 3}
    yield {**F, "dirs": [5, 3, 4], "B": 4, "L": 3, "key": 2, "episodes": 3, "randomize": True}
    yield {**F, "dirs": [5], "B": 16, "L": 2, "key": 3, "episodes": 12, "cover": True}
    yield {**F, "dirs": [3, 4, 3], "B": 24, "L": 2, "key": 9, "episodes": 12, "cover": True, "randomize": True}
    yield {**F, "dirs": [3, 3], "B": 2, "L": 3, "key": 0, "episodes": 4, "cover": True}
    yield {**F, "dirs": [12], "B": 5, "L": 4, "key": 4, "episodes": 3, "naming": 1}
    yield {**F, "dirs": [5, 4, 5], "inner": [1], "B": 4, "L": 3, "key": 5, "episodes": 3}
    yield {**F, "dirs": [5, 4, 5], "links": [1], "B": 24, "L": 3, "key": 5, "episodes": 8, "cover": True}
    yield {**F, "dirs": [4, 2], "B": 4, "L": 3, "key": 5, "episodes": 1, "short": True}
    yield {**F, "dirs": [2, 3], "B": 4, "L": 4, "key": 5, "episodes": 1, "short": True}
    yield {**F, "dirs": [1], "B": 1, "L": 2, "key": 5, "episodes": 1, "short": True}
    yield {**F, "dirs": [5, 4, 5, 4, 6, 4], "B": 8, "L": 3, "key": 7, "episodes": 2, "processes": True}
    yield {**F, "dirs": [4, 5], "B": 6, "L": 3, "key": None, "episodes": 2, "list": "one", "list_order": "reversed"}
    yield {**F, "dirs": [4, 5], "B": 6, "L": 4, "key": 1, "episodes": 2, "loop": True, "cut": 2}
    yield {**F, "dirs": [9, 7, 8], "B": 8, "L": 3, "key": 6, "episodes": 4, "skips": True}
    yield {**F, "dirs": [9, 7], "B": 8, "L": 3, "key": None, "episodes": 3, "skips": True, "randomize": True, "cut": 1}
    while True:
        L = rng.randint(1, 4)
        dirs = [L + rng.randint(0, 4) for _ in range(rng.randint(1, 4))]
        inner = [rng.randrange(len(dirs))] if len(dirs) > 1 and rng.random() < .3 else []
        yield {"dirs": dirs, "inner": inner, "B": rng.randint(1, 6), "L": L, "key": rng.choice([None, 0, 1, 5, 77]), "episodes": rng.randint(1, 4),
               "randomize": rng.random() < .5, "loop": rng.random() < .3, "naming": rng.randrange(4), "list": rng.choice(["all", "one"]),
               "list_order": rng.choice(["", "reversed"]), "cut": rng.choice([0, 0, 1]), "base_key": rng.choice([None, 3])}


def run(case, d):
    B, L = case["B"], case["L"]
    if case.get("short"):
        try:
            episodic(d, case)
        except ValueError:
            return None, None
        return "a directory shorter than an episode is accepted", None
    s, base, table, want = episodic(d, case)
    drawn = []
    for k in range(case.get("skip", 0)):
        (s.next_episode if k % 2 == 0 else s.reset)()
    for ep in range(case["episodes"]):
        what = f"episode {ep}"
        if ep:
            (s.next_episode if ep % 2 else s.reset)()
        n = L if not case.get("cut") or ep == case["episodes"] - 1 else min(L, case["cut"])
        steps = []
        for t in range(n):
            names, bad = served(s.get_batch(B), B)
            if bad:
                return f"{what}, step {t}: {bad}", None
            steps.append(names)
        bad, starts = check_lanes(steps, want, L, table, what)
        if bad:
            return bad, None
        drawn.append(starts)
    if case.get("cover"):
        seen = {x for e in drawn for x in e}
        for dd, fs in want.items():
            for k in range(len(fs) - L + 1):
                if len(seen) and (dd, k) not in seen and case["B"] * case["episodes"] > 60:
                    return f"start {k} of {os.path.basename(dd)} is never drawn in {case['episodes']} episodes of {B} lanes", None
    if case["episodes"] > 2 and B > 2 and sum(len(f) - L + 1 for f in want.values()) > 6 and all(x == drawn[0] for x in drawn):
        return "all episodes are the same", None
    return None, [[(os.path.basename(x), k) for x, k in e] for e in drawn]


def check(case):
    with Tmp() as d:
        bad, a = run(case, d)
    if bad:
        return bad
    with Tmp() as d:
        bad, b = run({**case, "base_key": 11}, d)
    if bad:
        return bad
    if a != b:
        return f"the episodes drawn with one key differ: {a} and {b}"
    if case.get("skips"):
        for k in range(1, case["episodes"]):
            with Tmp() as d:
                bad, c = run({**case, "skip": k, "episodes": 1}, d)
            if bad:
                return bad
            if c[0] != a[k]:
                return f"the episode after {k} others is {a[k]}, or {c[0]} when none of the others was served"
        if any(a[i] == a[j] for i in range(len(a)) for j in range(i)):
            return f"an episode is drawn twice: {a}"
    if case.get("processes"):
        outs = set()
        for seed in ("1", "2", "3"):
            with Tmp() as d:
                r = subprocess.run([sys.executable, os.path.abspath(__file__), d, repr(case)], capture_output=True, text=True,
                                   env={**os.environ, "PYTHONHASHSEED": seed}, timeout=120)
            if r.returncode:
                return f"another process fails: {r.stderr[-300:]}"
            outs.add(next((x for x in r.stdout.splitlines() if x.startswith("RESULT ")), "no result"))
        if len(outs) > 1:
            return f"the episodes drawn depend on the process: {sorted(outs)}"
    return None


if __name__ == "__main__":
    import ast
    print("\nRESULT " + repr(run(ast.literal_eval(sys.argv[2]), sys.argv[1])), flush=True)
