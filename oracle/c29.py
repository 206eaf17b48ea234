import dataclasses

import jax
import jax.numpy as jnp
import numpy as np

from synthpix.types import ImageGenerationParameters, SchedulerData, SynthpixBatch

CL = {"params": ImageGenerationParameters, "batch": SynthpixBatch, "data": SchedulerData}


def cases(rng, tier):
    for c in CL:
        n = len(dataclasses.fields(CL[c]))
        yield {"fixed": True, "cls": c, "absent": [], "set": list(range(n)), "none": []}
        for k in range(n):
            yield {"fixed": True, "cls": c, "absent": [k], "set": [k], "none": []}
            yield {"fixed": True, "cls": c, "absent": [], "set": [k], "none": []}
            yield {"fixed": True, "cls": c, "absent": [], "set": [k], "none": [k]}
    while True:
        c = rng.choice(sorted(CL))
        n = len(dataclasses.fields(CL[c]))
        sub = lambda: [k for k in range(n) if rng.random() < 0.5]
        yield {"cls": c, "absent": sub(), "set": sub(), "none": sub()}


def check(case):
    C = CL[case["cls"]]
    names = [f.name for f in dataclasses.fields(C)]
    req = {f.name for f in dataclasses.fields(C) if f.default is dataclasses.MISSING}
    old = {n: (None if k in case["absent"] and (n not in req) else jnp.full((k + 1, 2), float(k))) for k, n in enumerate(names)}
    if case["cls"] == "batch" and old["params"] is not None:
        old["params"] = ImageGenerationParameters(*[jnp.full((2,), 10.0 + k) for k in range(4)])
    o = C(**old)
    if case["cls"] != "data":
        leaves, tree = jax.tree_util.tree_flatten(o)
        r = jax.tree_util.tree_unflatten(tree, leaves)
        for n in names:
            if n == "params":
                a, b = r.params, old["params"]
                if (a is None) != (b is None) or (a is not None and any(
                        getattr(a, f.name) is not getattr(b, f.name) for f in dataclasses.fields(b))):
                    return "params changed by flatten/unflatten"
            elif getattr(r, n) is not old[n]:
                return f"{n} changed by flatten/unflatten"
        m = jax.jit(lambda t: jax.tree_util.tree_map(lambda x: x + 1, t))(o)
        for n in names:
            a, b = getattr(m, n), old[n]
            if n == "params":
                continue
            if (a is None) != (b is None) or (b is not None and not np.array_equal(a, b + 1)):
                return f"{n} is not transformed in place by tree_map: {a} from {b}"
        if case["cls"] == "batch" and old["params"] is not None:
            for f in dataclasses.fields(old["params"]):
                if not np.array_equal(getattr(m.params, f.name), getattr(old["params"], f.name) + 1):
                    return f"params.{f.name} is not transformed by tree_map"
    if case["cls"] != "params":
        kw = {n: (None if k in case["none"] else np.full((3,), -float(k))) for k, n in enumerate(names) if k in case["set"]}
        r = o.update(**kw)
        for n in names:
            want = kw[n] if n in kw else old[n]
            if getattr(r, n) is not want:
                return f"update({sorted(kw)}): {n} is {getattr(r, n)!r}, expected {want!r}"
            if getattr(o, n) is not old[n]:
                return f"update changed {n} of the original"
    return None
