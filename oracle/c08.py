from eplib import *
import jax.numpy as jnp
from synthpix.scheduler.protocol import EpisodeEnd


def cases(rng, tier):
    F = {"fixed": True}
    yield {**F, "dirs": [5, 6], "B": 2, "L": 3, "ops": "bbbbbnbbbbrbbbb"}
    yield {**F, "dirs": [5], "B": 3, "L": 1, "ops": "bbnbbrbbebb"}
    yield {**F, "dirs": [4], "B": 1, "L": 4, "ops": "bnbbnbbbnbbbbbbnbbbbb"}
    yield {**F, "dirs": [4, 4], "B": 2, "L": 2, "ops": "xbxbxbxnxbxbb"}
    yield {**F, "dirs": [6], "B": 2, "L": 3, "ops": "bbbbrbbbbebbbb", "loop": True, "randomize": True}
    yield {**F, "dirs": [6], "B": 2, "L": 3, "ops": "bbbbbbbnnnbbbb", "loop": True}
    yield {**F, "dirs": [30, 20], "B": 8, "L": 2, "ops": "nnbrbbnrebnnb", "key": 2, "fresh": True}
    yield {**F, "dirs": [30], "B": 8, "L": 2, "ops": "nbrrbnbbb", "key": 4, "loop": True, "fresh": True}
    yield {**F, "dirs": [5, 6], "B": 2, "L": 3, "ops": "bbbbbnbbbbrbbbb", "holes": True}
    yield {**F, "dirs": [70, 67], "B": 1, "L": 66, "ops": "b" * 67 + "nbb"}
    while True:
        L = rng.randint(1, 4)
        yield {"dirs": [L + rng.randint(0, 3) for _ in range(rng.randint(1, 3))], "B": rng.randint(1, 4), "L": L, "loop": rng.random() < .5,
               "randomize": rng.random() < .5, "key": rng.choice([None, 0, 3]), "ops": "".join(rng.choice("bbbbbnrex") for _ in range(rng.randint(4, 20)))}


def check(case):
    B, L = case["B"], case["L"]
    with Tmp() as d:
        s, base, table, want = episodic(d, case)
        calls = []
        orig = base.get_batch
        holes = lambda b: b.update(mask=jnp.arange(B) < B - 1) if case.get("holes") else b
        base.get_batch = lambda n: (calls.append(n), holes(orig(n)))[1]
        firsts = []
        if case.get("fresh"):
            # the episodes of a twin that serves every one of them to its end
            with Tmp() as d2:
                twin = episodic(d2, case)[0]
                for _ in case["ops"] + "b":
                    firsts.append([os.path.relpath(x, d2) for x in twin.get_batch(B).files])
                    twin.next_episode()
        if len(s) != L or s.episode_length != L:
            return f"episode length {len(s)}, {s.episode_length}, expected {L}"
        t, steps, ep = 0, [], 0
        for k, op in enumerate(case["ops"]):
            what = f"operation {k} of {case['ops']}"
            if s.steps_remaining() != L - t:
                return f"{what}: {s.steps_remaining()} steps remaining after {t} of {L}"
            n0 = len(calls)
            if op in "bx":
                try:
                    b = s.get_batch(B if op == "b" else B + 1)
                    err = None
                except (ValueError, EpisodeEnd) as e:
                    err = e
                if op == "x":
                    if not isinstance(err, ValueError) or len(calls) != n0:
                        return f"{what}: a request of another batch size gives {err!r}, {len(calls) - n0} batches consumed"
                elif t >= L:
                    if not isinstance(err, EpisodeEnd) or len(calls) != n0:
                        return f"{what}: {err!r} after {t} of {L} steps, {len(calls) - n0} batches consumed"
                else:
                    if err is not None or len(calls) != n0 + 1:
                        return f"{what}: {err!r} at step {t} of {L}, {len(calls) - n0} batches consumed"
                    names, bad = served(b.update(mask=None) if case.get("holes") else b, B)
                    if bad:
                        return f"{what}: {bad}"
                    if firsts and t == 0:
                        first = [os.path.relpath(x, d) for x in names]
                        if first != firsts[ep]:
                            return f"{what}: episode {ep} starts with {first}" + (f", the episode before" if first in firsts[:ep] else "")
                    steps.append(names)
                    t += 1
                    bad, _ = check_lanes(steps, want, L, table, what)
                    if bad:
                        return bad
            else:
                {"n": s.next_episode, "r": s.reset, "e": s.reset_episode}[op]()
                if len(calls) != n0:
                    return f"{what}: data is consumed"
                t, steps, ep = 0, [], ep + 1
        if s.steps_remaining() != L - t:
            return f"at the end: {s.steps_remaining()} steps remaining after {t} of {L}"
    return None
