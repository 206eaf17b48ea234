import copy
import itertools
import threading

import h5py
import scipy.io
import yaml

from lib import *
from synthpix.make import make
from synthpix.scheduler.protocol import EpisodeEnd
from synthpix.sampler import RealImageSampler, SyntheticImageSampler
from synthpix.scheduler import (EpisodicFlowFieldScheduler, HDF5FlowFieldScheduler, MATFlowFieldScheduler, NumpyFlowFieldScheduler,
                                PrefetchingFlowFieldScheduler)

BASE = {".h5": HDF5FlowFieldScheduler, ".mat": MATFlowFieldScheduler, ".npy": NumpyFlowFieldScheduler}
BAD = [("scheduler_class", None), ("scheduler_class", ".txt"), ("scheduler_class", "h5"), ("scheduler_class", 5), ("batch_size", None),
       ("batch_size", 0), ("batch_size", -2), ("batch_size", "4"), ("batch_size", 4.0), ("batch_size", [4]), ("include_images", "yes"),
       ("include_images", 1), ("include_images", [True]), ("buffer_size", -1), ("buffer_size", "2"), ("buffer_size", 1.5),
       ("episode_length", -3), ("episode_length", "2"), ("episode_length", 2.0), ("flow_fields_per_batch", None)]
SYN_BAD = [("batches_per_flow_batch", None), ("batches_per_flow_batch", 0), ("batches_per_flow_batch", "3"), ("flow_fields_per_batch", 0),
           ("flow_fields_per_batch", "2"), ("flow_fields_per_batch", 2.0), ("resolution", 0), ("resolution", "1"), ("velocities_per_pixel", -1),
           ("seed", -1), ("seed", None), ("output_units", "px"), ("max_speed_x", "1"), ("flow_field_size", [0, 16]), ("image_shape", None),
           ("image_shape", [8.5, 8]), ("dt", None), ("dt", 0), ("p_hide_img1", None), ("p_hide_img2", 1.5), ("diameter_ranges", None),
           ("diameter_ranges", []), ("min_speed_y", None), ("noise_uniform", -1.0), ("img_offset", None), ("rho_ranges", [[-2, 0]])]


def cases(rng, tier):
    F = {"fixed": True}
    for f, im in ((".h5", False), (".mat", False), (".npy", False), (".mat", True)):
        for e, b in ((0, 0), (2, 0), (0, 2), (2, 3)):
            if e and f != ".mat":  # episodes are made of .mat files only
                continue
            yield {**F, "fmt": f, "images": im, "E": e, "buf": b, "yaml": b == 2, "opt": (e + b) % 2, "run": True, "B": 4, "n": 2, "bpf": 1}
    yield {**F, "fmt": ".mat", "images": True, "E": 0, "buf": 0, "B": 3, "n": 7, "run": True, "minimal": True, "opt": 0}
    yield {**F, "fmt": ".mat", "images": True, "E": 2, "buf": 2, "B": 2, "n": 1, "run": True, "opt": 1, "shape": [6, 10]}
    yield {**F, "fmt": ".mat", "images": True, "E": 2, "buf": 2, "B": 2, "n": 3, "run": True, "opt": 1, "shape": [6, 10]}
    for f in (".h5", ".npy"):
        yield {**F, "fmt": f, "images": True, "reject": True, "B": 2, "n": 2}
    for k, v in BAD:
        yield {**F, "fmt": ".mat", "images": True, "bad": [k, v], "B": 2, "n": 2}
        yield {**F, "fmt": ".npy", "images": False, "bad": [k, v], "B": 2, "n": 2}
    for k, v in SYN_BAD:
        yield {**F, "fmt": ".npy", "images": False, "bad": [k, v], "B": 4, "n": 2}
    for v in (3, None, [], "conf.json", "missing.yaml", "adir.yaml", "list.yaml"):
        yield {**F, "config": v}
    for f in BASE:
        yield {**F, "fmt": f, "images": False, "seeds": True, "B": 4, "n": 2, "E": 0, "buf": 0}
    yield {**F, "fmt": ".mat", "images": False, "seeds": True, "B": 4, "n": 2, "E": 2, "buf": 0}
    yield {**F, "fmt": ".mat", "images": True, "seeds": True, "B": 4, "n": 2, "E": 0, "buf": 0}
    yield {**F, "fmt": ".mat", "images": True, "seeds": True, "B": 4, "n": 2, "E": 2, "buf": 0}
    for hist in (False, True):
        for mask in (False, True):
            yield {**F, "fmt": ".npy", "images": False, "hist": hist, "mask": mask, "E": 0, "buf": 0, "B": 2, "n": 2, "run": True, "opt": 0}
    while True:
        f, im = rng.choice([(".h5", False), (".mat", False), (".npy", False), (".mat", True), (".mat", True)])
        n = rng.randint(1, 3)
        yield {"fmt": f, "images": im, "E": 0 if f != ".mat" else rng.choice([0, 0, 1, 2, 3]), "buf": rng.choice([0, 0, 1, 3]), "yaml": rng.random() < .3,
               "opt": rng.randint(0, 1), "run": im or rng.random() < .1, "B": n * rng.randint(1, 2) if not im else rng.randint(1, 3), "n": n,
               "bpf": rng.randint(1, 2), "shape": [rng.randint(4, 9), rng.randint(4, 9)], "random": rng.random() < .3}


def write(d, fmt, dirs=6, per=5):
    """Every file's flow field is the constant (its number + 1) / 32; images likewise.  Returns the paths."""
    out = []
    if fmt == ".h5":
        for k in range(6):
            p = os.path.join(d, f"f{k}.h5")
            with h5py.File(p, "w") as h:
                h["data"] = np.full((16, 1, 16, 2), (k + 1) / 32, np.float32)
            out.append(p)
        return out
    for a in range(dirs):
        q = os.path.join(d, f"dir{a}")
        os.mkdir(q)
        for b in range(per):
            k = a * per + b
            if fmt == ".mat":
                p = os.path.join(q, f"t_{b}.mat")
                scipy.io.savemat(p, {"V": np.full((16, 16, 2), (k + 1) / 32, np.float32), "I0": np.full((16, 16), k + 1, np.uint8),
                                     "I1": np.full((16, 16), k + 101, np.uint8)})
            else:
                p = os.path.join(q, f"flow_{b + 1}.npy")
                np.save(p, np.full((16, 16, 2), (k + 1) / 32, np.float32))
            out.append(p)
    return out


def config(case, files):
    c = dict(scheduler_class=case["fmt"], batch_size=case["B"], flow_fields_per_batch=case["n"], seed=case.get("seed", 3), file_list=files,
             image_shape=case.get("shape", [8, 8]) if case["images"] else [8, 8])
    if case["images"]:
        c["include_images"] = True
    else:
        c.update(batches_per_flow_batch=case.get("bpf", 1), flow_field_size=[16, 16], resolution=1.0, velocities_per_pixel=1.0, max_speed_x=1.0,
                 max_speed_y=1.0, min_speed_x=-1.0, min_speed_y=-1.0, output_units="pixels", img_offset=[4, 4],
                 seeding_density_range=[0.05, 0.05], p_hide_img1=0.0, p_hide_img2=0.0, diameter_ranges=[[0.8, 1.2]], diameter_var=0.0,
                 intensity_ranges=[[80, 100]], intensity_var=0.0, rho_ranges=[[-0.1, 0.1]], rho_var=0.0, dt=1.0, noise_uniform=0.0,
                 noise_gaussian_mean=0.0, noise_gaussian_std=0.0, device_ids=[0])
        if case.get("opt"):
            c["include_images"] = False
    if case.get("E") or case.get("opt"):
        c["episode_length"] = case.get("E", 0)
    if case.get("buf") or case.get("opt"):
        c["buffer_size"] = case.get("buf", 0)
    if case.get("opt"):
        c["loop"] = False
        c["randomize"] = bool(case.get("random"))
    elif case.get("random"):
        c["randomize"] = True
    if case.get("minimal"):
        for k in ("seed", "image_shape"):
            c.pop(k)
    return c


def chain(x):
    out = [x]
    while hasattr(out[-1], "scheduler"):
        out.append(out[-1].scheduler)
    return out


def bg():
    return [t for t in threading.enumerate() if t is not threading.main_thread() and not t.daemon or "worker" in repr(t).lower()]


def serve(sm, case, n):
    """Samples of the sampler: (files, flow value per sample, images) per batch."""
    out = []
    it = iter(sm)
    for _ in range(n):
        try:
            b = next(it)
        except (StopIteration, EpisodeEnd):
            break
        out.append(b)
    return out


def check(case):
    if "config" in case:
        with Tmp() as d:
            v = case["config"]
            if isinstance(v, str):
                v = os.path.join(d, v)
                if "adir" in v:
                    os.mkdir(v)
                elif "list" in v:
                    open(v, "w").write("- 1\n- 2\n")
                elif v.endswith("json"):
                    open(v, "w").write("{}")
            try:
                make(v)
            except Exception:
                return None
            return f"make accepts {case['config']!r}"
    with Tmp() as d:
        files = write(d, case["fmt"], *((6, 5) if case.get("E") or case.get("run") or case.get("seeds") else (1, 2)))
        c = config(case, files)
        if "bad" in case:
            k, v = case["bad"]
            if v is None:
                c.pop(k, None)
            else:
                c[k] = v
        if "bad" in case or case.get("reject"):
            before = threading.active_count()
            try:
                make(c)
            except Exception:
                if threading.active_count() > before:
                    return "a rejected configuration leaves a thread running"
                return None
            return f"make accepts {case.get('bad', 'images of ' + case['fmt'] + ' files')}"
        if case.get("seeds"):
            orders = {}
            for seed in (0, 1, 2, 3, 4, 1):
                c2 = {**copy.deepcopy(c), "seed": seed, "randomize": True}
                sm = make(c2)
                s = sm.scheduler
                o = tuple(os.path.relpath(f, d) for _ in range(2) for f in (s.get_batch(getattr(s, 'batch_size', 2)).files))
                if orders.setdefault(seed, o) != o:
                    return f"the order of the files differs between two samplers with seed {seed}"
            if len(set(orders.values())) == 1:
                return "the order of the files does not depend on the seed"
            return None
        if case.get("hist"):
            h = np.linspace(0, 2, 256)
            c["histogram"] = os.path.join(d, "hist.npy")
            np.save(c["histogram"], (h * 64 / h.sum()).astype(np.float32))
        if case.get("mask"):
            c["mask"] = os.path.join(d, "mask.npy")
            np.save(c["mask"], (np.arange(64).reshape(8, 8) % 3 > 0).astype(int))
        arg = copy.deepcopy(c)
        if case.get("yaml"):
            arg = os.path.join(d, "conf.yaml")
            yaml.safe_dump(c, open(arg, "w"))
        sm = make(arg)
        if isinstance(arg, dict) and arg != c:
            return f"make changes the configuration it is given: {[k for k in {**c, **arg} if c.get(k) != arg.get(k)]}"
        try:
            return inspect_sampler(case, c, files, sm)
        finally:
            try:
                sm.shutdown()
            except AttributeError:
                pass


def inspect_sampler(case, c, files, sm):
    E, buf, im = case.get("E", 0), case.get("buf", 0), case["images"]
    if type(sm) is not (RealImageSampler if im else SyntheticImageSampler):
        return f"make returns a {type(sm).__name__} with include_images {im}"
    exp = [type(sm)] + [PrefetchingFlowFieldScheduler] * (buf > 0) + [EpisodicFlowFieldScheduler] * (E > 0) + [BASE[case["fmt"]]]
    got = [type(x) for x in chain(sm)]
    if got != exp:
        return f"the sampler is {' over '.join(t.__name__ for t in got)}, expected {' over '.join(t.__name__ for t in exp)}"
    base = chain(sm)[-1]
    for a, v in (("loop", c.get("loop", True)), ("randomize", c.get("randomize", False)), ("include_images", im),
                 ("output_shape", tuple(c.get("image_shape", (256, 256))) if im else None)):
        if hasattr(base, a) and v is not None and getattr(base, a) != v:
            return f"the base scheduler's {a} is {getattr(base, a)}, configured {v}"
    if buf and getattr(chain(sm)[1], "buffer_size", buf) != buf:
        return f"buffer size {chain(sm)[1].buffer_size}, configured {buf}"
    if E and chain(sm)[-2].episode_length != E:
        return f"episode length {chain(sm)[-2].episode_length}, configured {E}"
    if not im:
        for a in ("batch_size", "flow_fields_per_batch", "seed", "resolution", "velocities_per_pixel", "output_units"):
            if hasattr(sm, a) and getattr(sm, a) != c[a]:
                return f"the sampler's {a} is {getattr(sm, a)}, configured {c[a]}"
        for a, k in (("histogram", "histogram"), ("mask_images", "mask")):
            if hasattr(sm, a):
                g, e = getattr(sm, a), np.load(c[k]) if k in c else None
                if (g is None) != (e is None) or e is not None and not np.array_equal(np.asarray(g, np.float32), e.astype(np.float32)):
                    return f"the sampler's {k} is not that of the configured file"
    if not case.get("run"):
        return None
    n = c["batch_size"] if im else c["flow_fields_per_batch"]
    bpf = 1 if im else c["batches_per_flow_batch"]
    out = serve(sm, case, 4)
    if len(out) < (min(4, E) if E else 1 if (-(-len(files) // n)) * bpf < 4 else 4):
        return f"only {len(out)} batches are served"
    sh = tuple(c.get("image_shape", (256, 256)))
    for i, b in enumerate(out):
        if case.get("mask") and not case.get("hist") and (np.asarray(b.images1)[:, np.load(c["mask"]) == 0] != 0).any():
            return f"batch {i} is not masked"
        if b.images1.shape != (c["batch_size"],) + sh:
            return f"batch {i} has images of shape {b.images1.shape}, configured {c['batch_size']} of {sh}"
        if b.files is None or (im and b.files is not None and len(b.files) != n):
            return f"batch {i} names the files {b.files}"
        if im:
            nums = [files.index(f) for f in b.files]
            if any(abs(float(b.images1[j].mean()) - (k + 1)) > .01 or abs(float(b.images2[j].mean()) - (k + 101)) > .01 for j, k in enumerate(nums)):
                return f"batch {i} has other images than its files'"
        if not E and not c.get("randomize") and bpf == 1:
            want = [files[(i * n + j) % len(files)] for j in range(n)]
            if list(b.files) != want:
                return f"batch {i} has the files {[os.path.basename(f) for f in b.files]}, in order {[os.path.basename(f) for f in want]}"
        if not c.get("randomize") and E and i and i < E:
            a = [files.index(f) for f in out[i - 1].files]
            if [files.index(f) for f in b.files] != [k + 1 for k in a]:
                return f"batch {i} does not continue the episodes of batch {i - 1}"
    return None
