from prelib import *


def cases(rng, tier):
    F = {"fixed": True}
    yield {**F, "buf": 2, "L": 3, "ops": "bbbbnbbbnbnbbbb", "d": 0}
    yield {**F, "buf": 8, "L": 3, "ops": "bnbbnbbbnbnnbbbbb", "d": 0}
    yield {**F, "buf": 1, "L": 4, "ops": "bnbbnbbbnbbbbbnbb", "d": .003}
    yield {**F, "buf": 5, "L": 1, "ops": "bbnbbnnbb", "d": 0}
    yield {**F, "buf": 3, "L": 2, "ops": "nbbbnb", "d": 0}
    yield {**F, "buf": 2, "L": 5, "ops": "bnbbnbb", "d": .05}
    yield {**F, "buf": 2, "L": 4, "ops": "bbbx", "n": 2, "d": 0}
    yield {**F, "buf": 2, "L": 4, "ops": "bbn", "n": 2, "d": 0}
    yield {**F, "buf": 5, "L": 3, "ops": "bbbnbn", "n": 5, "d": 0}
    yield {**F, "buf": 4, "L": 3, "ops": "bbrbbbnbbrnbb", "d": 0}
    while True:
        yield {"buf": rng.randint(1, 9), "L": rng.randint(1, 5), "d": rng.choice([0, 0, .002]),
               "ops": "".join(rng.choice("bbbbnr" if rng.random() < .2 else "bbbn") for _ in range(rng.randint(3, 18)))}


def check(case):
    B, L = 2, case["L"]
    base = EpBase(B, case.get("n"), case["d"], L)
    s = make(case, base)
    e, t, started, r = 0, 0, False, 0
    try:
        if s.episode_length != L:
            return "episode_length"
        for q, op in enumerate(case["ops"]):
            what = f"operation {q} of {case['ops']}"
            if case.get("wait"):
                time.sleep(case["wait"])
            if s.steps_remaining() != L - t:
                return f"{what}: {s.steps_remaining()} steps remaining after {t} of {L}"
            if op == "b" or op == "x":
                ok, b = timed(lambda: s.get_batch(B), 20)
                if ok is None:
                    return f"{what}: no answer"
                if case.get("n") is not None and e * L + t >= case["n"]:
                    if not isinstance(b, StopIteration):
                        return f"{what}: {b!r} at the end of the stream"
                    continue
                if t >= L:
                    if not isinstance(b, EpisodeEnd):
                        return f"{what}: {number(b) if ok else repr(b)} instead of EpisodeEnd"
                    continue
                if not ok:
                    return f"{what}: {b!r} at step {t} of {L}"
                started = True
                if number(b) != (1000 * e + t, r):
                    return f"{what}: batch {number(b)}, expected episode {e} step {t} after {r} resets"
                t += 1
            elif op == "n":
                ok, x = timed(s.next_episode, 20)
                if not ok:
                    return f"{what}: next_episode gives {x!r}"
                if started:
                    e += 1
                started, t = True, 0
            else:
                ok, x = timed(s.reset, 20)
                if not ok:
                    return f"{what}: reset gives {x!r}"
                e, t, started, r = 0, 0, False, r + 1
        if s.steps_remaining() != L - t:
            return f"at the end: {s.steps_remaining()} steps remaining after {t} of {L}"
        if base.overlap:
            return "two threads use the wrapped scheduler at once"
    finally:
        timed(s.shutdown, 10)
    return None
