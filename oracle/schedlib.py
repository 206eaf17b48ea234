"""Schedulers over files made on the spot, with the stream they must serve computed independently."""
import h5py
import jax
import numpy as np

from lib import *
from synthpix.scheduler import BaseFlowFieldScheduler, HDF5FlowFieldScheduler
from synthpix.scheduler.protocol import FileEndedError
from synthpix.types import SchedulerData

H, W = 3, 4


def value(f, k):
    """Flow field of slice k of file number f."""
    a = np.zeros((H, W, 2), np.float32)
    a[..., 0] = 100 * f + k + 1
    a[..., 1] = np.arange(H * W).reshape(H, W)
    return a


def image(f, k, j, images=True):
    a = np.full((H, W), (7 * f + 3 * k + j) % 250 + 1, np.uint8)
    if images == "mixed" and j == 2:
        # the second image in another numeric type, with values which the first one cannot hold
        return a.astype(np.float32) * 300 + .25
    return np.stack([a, a // 2, a // 3], -1) if images == "rgb" else a


def label(k, path, labels):
    """The file names of slice k: none at all, one, or (labels "some") one for every other slice."""
    return (() if labels == "some" and k % 2 else (path,)) if labels else None


class Fmt(BaseFlowFieldScheduler):
    """A format kept in memory: table maps a base name to (file number, number of slices or None when unreadable)."""

    table = {}
    images = False
    labels = True

    def load_file(self, file_path):
        f, n = self.table[os.path.basename(file_path)]
        if n is None:
            raise (OSError, ValueError, KeyError)[f % 3]("unreadable")
        return SchedulerData(flow_fields=np.full((n,), f, np.float32), files=(file_path,))

    def get_next_slice(self):
        d = self._cached_data
        if d is None or self._cached_file is None:
            raise RuntimeError("nothing cached")
        if self._slice_idx >= d.flow_fields.shape[0]:
            raise FileEndedError("end")
        f, k = self.table[os.path.basename(self._cached_file)][0], self._slice_idx
        return SchedulerData(flow_fields=value(f, k), images1=image(f, k, 1, self.images) if self.images else None,
                             images2=image(f, k, 2, self.images) if self.images else None,
                             files=label(k, self._cached_file, self.labels))

    def get_flow_fields_shape(self):
        return (H, W, 2)

    @classmethod
    def from_config(cls, config):
        raise NotImplementedError


# the attribute that says which files of a directory belong to the format
PATTERN = next((k for k, v in vars(BaseFlowFieldScheduler).items() if isinstance(v, str) and "*" in v and not k.startswith("__")), "_file_pattern")
setattr(Fmt, PATTERN, "*.dat")


def write(d, f, n, fmt):
    """File number f with n slices (None: unreadable); returns its path."""
    p = os.path.join(d, f"s{f:03d}" + (".h5" if fmt == "h5" else ".dat"))
    if fmt == "h5" and n is not None:
        with h5py.File(p, "w") as h:
            h["data"] = np.stack([value(f, k) for k in range(n)], axis=1) if n else np.zeros((H, 0, W, 2), np.float32)
    elif fmt == "h5" and f % 2:
        with h5py.File(p, "w") as h:
            h.create_group("data")
    else:
        with open(p, "wb") as h:
            h.write(b"junk")
    return p


def table_of(slices):
    return {f"s{f:03d}.dat": (f, n) for f, n in enumerate(slices)}


def build(d, case, **k):
    """The scheduler of a case and the files listed, as (number, path)."""
    fmt = case.get("fmt", "mem")
    paths = [write(d, f, n, fmt) for f, n in enumerate(case["slices"])]
    if case.get("twins"):
        # (HDF5) files of one name in several directories
        for f, p in enumerate(paths):
            os.mkdir(os.path.join(d, f"in{f}"))
            paths[f] = os.path.join(d, f"in{f}", "data.h5")
            os.rename(p, paths[f])
    if case.get("links"):
        for f, p in enumerate(paths):
            q = os.path.join(d, "link_" + os.path.basename(p))
            os.symlink(p, q)
            paths[f] = q
    cls = HDF5FlowFieldScheduler if fmt == "h5" else type("F", (Fmt,), {
        "table": table_of(case["slices"]), "images": case.get("images", False), "labels": case.get("labels", True)})
    return cls([paths[f] for f in case["list"]], **k), paths


def stream(case, order):
    """The slices (file, k) of one pass over the given order of files."""
    return [(f, k) for f in order for k in range(case["slices"][f] or 0)]


def number(paths, p):
    return paths.index(p)


def same(item, f, k, path, case, what):
    if not np.array_equal(np.asarray(item.flow_fields), value(f, k)):
        g = np.asarray(item.flow_fields)
        return f"{what}: expected slice {k} of file {f}, got value {g.ravel()[0] if g.size else g} of shape {g.shape}"
    if case.get("labels", True) and tuple(x for x in item.files or () if x) != label(k, path, case.get("labels", True)):
        return f"{what}: labelled {item.files}, expected {path}"
    for j in (1, 2):
        im = getattr(item, f"images{j}")
        if case.get("images", False):
            if im is None or not np.array_equal(np.asarray(im), image(f, k, j, case["images"])):
                return f"{what}: images{j} is not the one of slice {k} of file {f}"
        elif im is not None:
            return f"{what}: an image appears"
    return None


def some_list(rng, repeat=True):
    nf = rng.randint(1, 5)
    slices = [rng.choice([0, 1, 1, 2, 3, 5, None]) for _ in range(nf)]
    lst = list(range(nf))
    if repeat and rng.random() < .6:
        lst = [rng.randrange(nf) for _ in range(rng.randint(1, 7))]
        if rng.random() < .5:
            k = rng.randrange(len(lst))
            lst.insert(k, lst[k])
    return slices, lst
