import builtins
import datetime
import io
import contextlib
import math
import os
import sys
import tempfile

import h5py
import jax
import jax.numpy as jnp
import numpy as np

from lib import *
from ruamel.yaml import YAML
from synthpix import sanity
from synthpix.sanity import calculate_min_and_max_speeds, missing_speeds_panel, update_config_file

KEYS = ["max_speed_x", "max_speed_y", "min_speed_x", "min_speed_y"]
# written as YAML text, so that every type of the language occurs
TEXTS = ["1", "-7", "1.5", "-2.5e-3", "1.0", "1e300", "0.1", "true", "false", "null", "~", "''", "'null'", "'true'", "'1'", "'1.0'", "'# no comment'",
         "'a: b'", "'- x'", "'  padded  '", '"line\\nbreak"', '"tab\\tquote\\""', "plain text", "'{}'", "'[1'", "'@at'", "'%x'", "'!tag'", "'&anchor'",
         "'*star'", "'yes'", "'no'", "'on'", "'0x10'", "'1e3'", "'12:30:45'", "'2020-01-02'", "2020-01-02", "2001-12-14 21:59:43", ".inf", "-.inf", ".nan",
         "!!binary aGVsbG8=", "!!set {a, b}", "[]", "{}", "[1, 2.5, null, true, text]", "[[1, 2], [3, [4]]]", "{a: 1, b: [1, {c: null}]}",
         "{1: one, 2: two}", "{1.5: x, true: y, null: z}", "{a b: c, 'd: e': 'f # g'}", "[{a: 1}, {b: 2}]", "123456789012345678901234567890", "0x1F", "0o17",
         '"\\u00e9\\u4e2d"', '"\\U0001F600"', '"\\u2028\\x85"', '"\\0\\x07"', "|\n  block\n  text", ">\n  folded\n  text", "'" + "long " * 60 + "'",
         '"trailing \\n\\n"', "' lead'", "'C:\\path\\new'", '"\\\\ \\""', "\"it's\"", "['2020-01-02', 'null', '']", "{k: 2020-01-02, e: ''}", "[[], {}, '']"]
NAMES = ["speed", "with space", "UPPER", "ünï", "1", "null", "a.b", "'quoted: key'", "'# hash'", "true_", "'yes'"]
LISTS = [None, "[]", "['a.h5', 'b.h5']", "a.h5", "[1, 2.5, null]", "{a: 1}", "null", "['with: colon', '# hash', '', 'é']", "[['nested.h5'], b.h5]"]
UPDATES = [{}, {"max_speed_x": 1.25}, {"max_speed_x": np.float32(1.5), "min_speed_y": np.float64(-0.1)}, {"speed": 3}, {"n": np.int64(7), "arr": np.arange(3)},
           {"j": jnp.arange(4.0).reshape(2, 2), "text": "a: b # c"}, {"file_list": ["c.h5"]}, {"file_list": []}, {"speed": None, "l": [1, "x", None]},
           {"max_speed_x": math.inf}, {"b": True, "d": {"k": [1, {"z": 2.5}]}}]


def cases(rng, tier):
    F = {"fixed": True}
    for i in range(0, len(TEXTS), 6):
        yield {**F, "do": "update", "texts": TEXTS[i:i + 6], "list": i // 6 % len(LISTS), "up": i // 6 % len(UPDATES)}
    for i in range(len(LISTS)):
        yield {**F, "do": "update", "texts": TEXTS[i:i + 2], "list": i, "up": 1, "names": True}
    for i in range(len(UPDATES)):
        yield {**F, "do": "update", "texts": TEXTS[3 * i:3 * i + 3], "list": 2, "up": i, "twice": True}
    for i in range(12):
        yield {**F, "do": "speeds", "seed": i, "files": 1 + i % 4, "sign": (i // 2) % 3, "at": i % 4}
    yield {**F, "do": "speeds", "seed": 50, "files": 12, "sign": 0, "at": 1}
    for bad in ("2D", "3ch", "group"):
        yield {**F, "do": "reject", "kind": bad}
    for v in ("absent", None, "1.0", [1.0], 2, 2.5, -1.5, 0, 0.0, {"a": 1}):
        for k in KEYS:
            yield {**F, "do": "panel", "values": {k: v}, "answers": ["1", "y"]}
    for a in (["1", "n"], ["2"], ["x"], [""], ["1", "Y"]):
        yield {**F, "do": "panel", "values": {KEYS[1]: None, KEYS[2]: "absent"}, "answers": a}
    yield {**F, "do": "panel", "values": {k: "absent" for k in KEYS}, "answers": ["1", "y"]}
    M = {**F, "do": "main"}
    yield {**M, "given": True, "want": "ends normally"}
    yield {**M, "given": False, "answers": ["1", "y"], "want": "ends normally"}
    yield {**M, "given": False, "answers": ["1", "y"], "speed": 40.0, "want": "exits with an error"}
    yield {**M, "given": False, "answers": ["1", "n"], "want": "stops"}
    yield {**M, "given": False, "answers": ["2"], "want": "stops"}
    yield {**M, "given": True, "set": {"dt": "absent"}, "want": "exits with an error"}
    yield {**M, "given": True, "set": {"resolution": -1.0}, "want": "exits with an error"}
    yield {**M, "given": True, "nofile": True, "want": "exits with an error"}
    while True:
        r = rng.random()
        if r < .4:
            yield {"do": "update", "texts": [rng.choice(TEXTS) for _ in range(rng.randint(0, 8))], "list": rng.randrange(len(LISTS)),
                   "up": rng.randrange(len(UPDATES)), "names": rng.random() < .5, "twice": rng.random() < .3, "where": rng.random() < .5}
        elif r < .8:
            yield {"do": "speeds", "seed": rng.randrange(10 ** 6), "files": rng.randint(1, 6), "sign": rng.randrange(3), "at": rng.randrange(6)}
        else:
            yield {"do": "panel", "values": {k: rng.choice(["absent", None, "1", 1.5, -2, 0, []]) for k in KEYS}, "answers": rng.choice([["1", "y"], ["1", "n"], ["2"]])}


def same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return list(map(repr, a)) == list(map(repr, b)) and all(same(x, y) for x, y in zip(a.values(), b.values()))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    return type(a) is type(b) and a == b


def read(p):
    with open(p, encoding="utf-8") as f:
        return YAML(typ="safe", pure=True).load(f)


def plain(v):
    return v.tolist() if isinstance(v, (np.ndarray, np.generic, jax.Array)) else v


def update(case, d):
    p = os.path.join(d, "conf.yaml")
    rows = []
    for i, t in enumerate(case["texts"]):
        name = NAMES[i % len(NAMES)] if case.get("names") and i < len(NAMES) else f"entry_{i}"
        rows.append(f"{name}: {t}")
    fl = LISTS[case["list"]]
    if fl is not None:
        rows.insert(0 if case.get("where") else len(rows), f"file_list: {fl}")
    rows.append("max_speed_x: 9.0")
    with open(p, "w", encoding="utf-8") as f:
        f.write("\n".join(rows) + "\n")
    before = read(p)
    for _ in range(2 if case.get("twice") else 1):
        up = UPDATES[case["up"]]
        update_config_file(p, dict(up))
        got = read(p)
        if not isinstance(got, dict):
            return f"the file no longer holds a mapping: {got!r}"
        want = {**before, **{k: plain(v) for k, v in up.items()}}
        if set(map(repr, got)) != set(map(repr, want)):
            return f"entries {sorted(map(repr, got))} instead of {sorted(map(repr, want))}"
        for k in want:
            if not same(got[k], want[k]):
                return f"entry {k!r} reads {got[k]!r} instead of {want[k]!r}"
        mine = sanity.load_configuration(p)
        if set(map(repr, mine)) != set(map(repr, want)):
            return "the package reads other entries"
    return None


def field(rng, shape, sign):
    a = rng.uniform(-3, 3, shape)
    if sign:
        a = (np.abs(a) + 0.5) * (1 if sign == 1 else -1)
    a[..., 1] = a[..., 1] * 0.25 + (0.125 if sign == 0 else 0)
    return a.astype("f4")


def speeds(case, d):
    rng = np.random.default_rng(case["seed"])
    paths, xs, ys = [], [], []
    for i in range(case["files"]):
        shape = [(3, 4, 5, 2), (4, 6, 2), (1, 3, 2, 2), (2, 4, 3, 3), (2, 2, 2), (1, 1, 1, 2)][(i + case["seed"]) % 6]
        a = field(rng, shape, case["sign"])
        if i == case["at"] % case["files"]:
            # extremes at the corners of one file
            flat = a.reshape(-1, shape[-1])
            flat[0, 0], flat[-1, 1] = (a[..., 0].max() + 2, a[..., 1].min() - 1)
            if len(flat) > 1:
                flat[-1, 0], flat[0, 1] = a[..., 0].min() - 3, a[..., 1].max() + 4
        p = os.path.join(d, f"f{i}.h5")
        with h5py.File(p, "w") as f:
            f["flow"] = a
            if i % 2:
                f["zz_other"] = np.full((2, 2, 2), 1e6, "f4")
        paths.append(p)
        xs.append(a[..., 0].ravel())
        ys.append(a[..., 1].ravel())
    r = calculate_min_and_max_speeds(paths)
    x, y = np.concatenate(xs), np.concatenate(ys)
    want = {"max_speed_x": x.max(), "min_speed_x": x.min(), "max_speed_y": y.max(), "min_speed_y": y.min()}
    if set(r) != set(want):
        return f"bounds {sorted(r)}"
    for k, v in want.items():
        if float(r[k]) != float(v):
            return f"{k} is {r[k]} and should be {float(v)}"
    return None


def reject(case, d):
    p = os.path.join(d, "f.h5")
    with h5py.File(p, "w") as f:
        if case["kind"] == "group":
            f.create_group("flow")["x"] = np.zeros((2, 2, 2, 2))
        else:
            f["flow"] = np.zeros((4, 4) if case["kind"] == "2D" else (4, 4, 3))
    try:
        r = calculate_min_and_max_speeds([p])
    except ValueError:
        return None
    return f"{case['kind']} is accepted: {r}"


def panel(case, d):
    rng = np.random.default_rng(3)
    a = field(rng, (2, 4, 5, 2), 0)
    h5 = os.path.join(d, "f.h5")
    with h5py.File(h5, "w") as f:
        f["flow"] = a
    conf = {"seed": 3, "text": "x", **{k: float(i) + 0.5 for i, k in enumerate(KEYS)}, **case["values"], "file_list": [h5]}
    conf = {k: v for k, v in conf.items() if v != "absent"}
    p = os.path.join(d, "c.yaml")
    with open(p, "w") as f:
        y = YAML(typ="safe", pure=True)
        y.dump(conf, f)
    text = open(p).read()
    missing = [k for k in KEYS if not isinstance(conf.get(k), (int, float))]
    answers, asked, out = list(case["answers"]), [], io.StringIO()

    def ask(prompt=""):
        asked.append(prompt)
        return answers.pop(0)
    old, builtins.input = builtins.input, ask
    try:
        with contextlib.redirect_stdout(out):
            r = missing_speeds_panel(p)
    except RuntimeError as e:
        r = e
    finally:
        builtins.input = old
    calc = {"max_speed_x": float(a[..., 0].max()), "max_speed_y": float(a[..., 1].max()), "min_speed_x": float(a[..., 0].min()), "min_speed_y": float(a[..., 1].min())}
    if not missing:
        if asked:
            return "reports missing speeds when all are numbers"
        if isinstance(r, Exception) or tuple(map(float, r)) != tuple(float(conf[k]) for k in KEYS):
            return f"configured speeds come back as {r!r}"
        return None if open(p).read() == text else "the file changed"
    if not asked:
        return f"{missing} not reported as missing"
    if case["answers"][0] == "1":
        got = read(p)
        want = {**conf, **calc}
        if set(got) != set(want) or any(not same(got[k], want[k]) for k in want):
            return f"file holds {got} instead of {want}"
        if case["answers"][1].lower() == "y":
            if isinstance(r, Exception) or tuple(map(float, r)) != tuple(calc[k] for k in KEYS):
                return f"calculated speeds come back as {r!r}"
        elif not isinstance(r, Exception):
            return "continued although asked to stop"
        return None
    if not isinstance(r, Exception):
        return f"no stop on answer {case['answers'][0]!r}"
    return None if open(p).read() == text else "the file changed without being asked"


CONF = {"seed": 0, "batch_size": 2, "flow_fields_per_batch": 1, "batches_per_flow_batch": 1, "image_shape": [16, 16], "img_offset": [8, 8],
        "seeding_density_range": [0.01, 0.02], "p_hide_img1": 0.0, "p_hide_img2": 0.0, "diameter_ranges": [[1.0, 1.0]], "diameter_var": 0.0,
        "intensity_ranges": [[50, 200]], "intensity_var": 0.0, "rho_ranges": [[0.0, 0.0]], "rho_var": 0.0, "dt": 1.0, "noise_uniform": 0.0,
        "noise_gaussian_mean": 0.0, "noise_gaussian_std": 0.0, "flow_field_size": [64, 64], "resolution": 1.0, "velocities_per_pixel": 1.0,
        "output_units": "pixels", "device_ids": [0]}


def main(case, d):
    h5 = os.path.join(d, "f.h5")
    with h5py.File(h5, "w") as f:
        f["flow"] = np.full((64, 2, 64, 2), case.get("speed", 0.5), np.float32)
    speeds = {k: 0.5 for k in KEYS} if case["given"] else {}
    conf = {**CONF, **speeds, **case.get("set", {}), "file_list": [h5]}
    p = os.path.join(d, "c.yaml")
    with open(p, "w") as f:
        YAML(typ="safe", pure=True).dump({k: v for k, v in conf.items() if v != "absent"}, f)
    answers = list(case.get("answers", []))
    argv, ask = sys.argv, builtins.input
    sys.argv, builtins.input = ["sanity", "--config", os.path.join(d, "none.yaml") if case.get("nofile") else p], lambda *a: answers.pop(0)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            sanity.main()
        end = "ends normally"
    except SystemExit as e:
        end = "ends normally" if e.code in (None, 0) else "exits with an error"
    except RuntimeError:
        end = "stops"
    finally:
        sys.argv, builtins.input = argv, ask
    want = case["want"]
    return None if end == want else f"the tool {end}; {want!r} expected"


def check(case):
    with tempfile.TemporaryDirectory() as d:
        return {"update": update, "speeds": speeds, "reject": reject, "panel": panel, "main": main}[case["do"]](case, d)
