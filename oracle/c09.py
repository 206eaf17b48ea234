from prelib import *


def cases(rng, tier):
    F = {"fixed": True}
    yield {**F, "buf": 2, "n": 7, "fast": "consumer", "d": 0.005}
    yield {**F, "buf": 3, "n": 8, "fast": "producer", "d": 0.005}
    yield {**F, "buf": 1, "n": 3, "fast": "producer", "d": 0, "nap": 2.6}
    yield {**F, "buf": 4, "n": 4, "fast": "producer", "d": 0, "nap": 2.6}
    yield {**F, "buf": 3, "n": 4, "fast": "producer", "d": 0, "nap": 2.6}
    yield {**F, "buf": 1, "n": 6, "fast": "producer", "d": 0, "nap": 1.6, "steady": .5}
    yield {**F, "buf": 2, "n": 0, "fast": "producer", "d": 0}
    yield {**F, "buf": 5, "n": 2, "fast": "consumer", "d": 0.01}
    yield {**F, "buf": 2, "n": 5, "fast": "consumer", "d": 0.3, "start": 3.0, "steady": 2.5}
    yield {**F, "buf": 1, "n": 40, "fast": "producer", "d": 0}
    yield {**F, "buf": 16, "n": 30, "fast": "producer", "d": 0.005}
    yield {**F, "buf": 12, "n": 20, "fast": "producer", "d": 0, "nap": .3}
    yield {**F, "buf": 64, "n": 90, "fast": "producer", "d": 0, "nap": .5}
    while True:
        yield {"buf": rng.choice([1, 2, 3, 4, 5, 6, 9, 17, 40]), "n": rng.randint(0, 30), "fast": rng.choice(["consumer", "producer"]), "d": rng.choice([0, 0, .001, .004])}


def check(case):
    B, n = 2, case["n"]
    slow = case["d"]
    base = Base(B, n, slow if case["fast"] == "consumer" else 0)
    if case.get("start"):
        g, first = base.get_batch, [1]
        base.get_batch = lambda k: (time.sleep(first.pop() * case["start"]) if first else None, g(k))[1]
    before = workers()
    s = make(case, base)
    if workers() != before:
        return "a thread runs before the first batch is requested"
    try:
        got = []
        for k in range(n + 1):
            try:
                bad = None
                try:
                    s.get_batch(B + 1)
                except ValueError:
                    bad = True
                if not bad:
                    return "a request of another batch size is served"
                if case["fast"] == "producer" and slow:
                    time.sleep(slow)
                if k == 1 and case.get("nap"):
                    time.sleep(case["nap"])
                ok, b = timed(lambda: s.get_batch(B), 20)
                if ok is None:
                    return f"batch {k}: no answer"
                if not ok:
                    raise b
                got.append(number(b))
            except StopIteration:
                break
        want = [(k, 0) for k in range(n)]
        if got != want:
            return f"received {got}, expected {want}"
        if s.steps_remaining() != 1:
            return f"{s.steps_remaining()} steps remaining without episodes"
    finally:
        timed(s.shutdown, 10)
    return None
