from prelib import *


def cases(rng, tier):
    F = {"fixed": True}
    for ep in (False, True):
        yield {**F, "ep": ep, "buf": 1, "ops": "bbwrbbwsrbbs", "d": 0}
        yield {**F, "ep": ep, "buf": 2, "ops": "srsrrbbwss", "d": 0}
        yield {**F, "ep": ep, "buf": 3, "ops": "bwrbwrbwswrb", "d": .01}
        yield {**F, "ep": ep, "buf": 1, "ops": "brbrbrbsrb", "d": .15}
    yield {**F, "ep": False, "buf": 2, "ops": "bbbbbwrbbws", "d": 0, "n": 4}
    yield {**F, "ep": False, "buf": 4, "ops": "bwrbbws", "d": 0, "n": 4}
    yield {**F, "ep": False, "buf": 2, "ops": "bbrbb", "d": 0, "slow_first": 1.5, "steady": .6}
    while True:
        yield {"ep": rng.random() < .5, "buf": rng.randint(1, 5), "d": rng.choice([0, 0, .002, .02]),
               "ops": "".join(rng.choice("bbbwrs") for _ in range(rng.randint(3, 12)))}


def check(case):
    B, L = 2, 50
    base = EpBase(B, None, case["d"], L) if case["ep"] else Base(B, case.get("n"), case["d"])
    if case.get("slow_first"):
        # the first batch of every pass takes long, as reading starts
        g = base.get_batch
        base.get_batch = lambda n: (time.sleep(case["slow_first"] if base.k == 0 else 0), g(n))[1]
    before = workers()
    s = make({"steady": 3.0, **case}, base)
    k, r, down = 0, 0, False
    try:
        for q, op in enumerate(case["ops"]):
            what = f"operation {q} of {case['ops']}"
            if op == "w":
                time.sleep(.05)
            elif op == "b":
                if down:
                    continue
                ok, b = timed(lambda: s.get_batch(B), 20)
                if ok is None:
                    return f"{what}: no answer"
                if case.get("n") is not None and k >= case["n"]:
                    if not isinstance(b, StopIteration):
                        return f"{what}: {b!r} at the end"
                    continue
                if not ok:
                    return f"{what}: {b!r}"
                if number(b) != (k, r):
                    return f"{what}: batch {number(b)}, expected {(k, r)} (number, resets)"
                k += 1
                if not case.get("n") and not s.is_running():
                    return f"{what}: the thread is not running"
            else:
                ok, x = timed(s.reset if op == "r" else s.shutdown, 12)
                if ok is None:
                    return f"{what}: {'reset' if op == 'r' else 'shutdown'} does not return"
                if not ok:
                    return f"{what}: {x!r}"
                if not gone(before, 5):
                    return f"{what}: the background thread still runs"
                if s.is_running():
                    return f"{what}: is_running after the thread has ended"
                if op == "r":
                    k, r, down = 0, r + 1, False
                    if base.resets != r:
                        return f"{what}: the wrapped scheduler was reset {base.resets} times, expected {r}"
                    if case["ep"] and s.steps_remaining() != L:
                        return f"{what}: {s.steps_remaining()} steps remaining after a reset"
                else:
                    down = True
        if base.overlap:
            return "two threads use the wrapped scheduler at once"
    finally:
        timed(s.shutdown, 6)
    return None if gone(before, 3) else "the background thread still runs at the end"
