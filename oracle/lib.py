"""Helpers of the replay harnesses."""
import os
import random
import shutil
import tempfile

import numpy as np

TOL = 2e-3


def close(a, b, tol=TOL):
    a, b = np.asarray(a, dtype=np.float64), np.asarray(b, dtype=np.float64)
    if a.shape != b.shape:
        return False
    if not np.all(np.isfinite(a)):
        return False
    return bool(np.all(np.abs(a - b) <= tol * (1 + np.maximum(np.abs(a), np.abs(b)))))


def worst(a, b):
    a, b = np.asarray(a, dtype=np.float64), np.asarray(b, dtype=np.float64)
    if a.shape != b.shape:
        return f"shape {a.shape}, expected {b.shape}"
    d = np.abs(a - b) / (1 + np.maximum(np.abs(a), np.abs(b)))
    d = np.where(np.isfinite(d), d, np.inf)
    i = np.unravel_index(np.argmax(d), d.shape) if d.size else ()
    return f"at {tuple(int(k) for k in i)}: got {a[i]}, expected {b[i]}"


def expect(a, b, what, tol=TOL):
    return None if close(a, b, tol) else f"{what}: {worst(a, b)}"


def rs(case):
    return np.random.RandomState(case.get("seed", 0) % (2 ** 31))


class Tmp:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="synthpix")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def bil(img, x, y):
    """Clamped bilinear interpolation (reference)."""
    img = np.asarray(img, dtype=np.float64)
    H, W = img.shape
    x = np.clip(np.asarray(x, dtype=np.float64), 0, W - 1)
    y = np.clip(np.asarray(y, dtype=np.float64), 0, H - 1)
    a = np.minimum(np.floor(x).astype(int), max(W - 2, 0))
    b = np.minimum(np.floor(y).astype(int), max(H - 2, 0))
    a1, b1 = np.minimum(a + 1, W - 1), np.minimum(b + 1, H - 1)
    wx, wy = x - a, y - b
    return ((1 - wx) * (1 - wy) * img[b, a] + wx * (1 - wy) * img[b, a1]
            + (1 - wx) * wy * img[b1, a] + wx * wy * img[b1, a1])


def tri(vol, x, y, z):
    vol = np.asarray(vol, dtype=np.float64)
    D = vol.shape[0]
    z = np.clip(np.asarray(z, dtype=np.float64), 0, D - 1)
    c = np.minimum(np.floor(z).astype(int), max(D - 2, 0))
    c1 = np.minimum(c + 1, D - 1)
    wz = z - c
    out = np.zeros(np.shape(x))
    it = np.nditer(np.asarray(x), flags=["multi_index"])
    for _ in it:
        k = it.multi_index
        out[k] = (1 - wz[k]) * bil(vol[c[k]], x[k], y[k]) + wz[k] * bil(vol[c1[k]], x[k], y[k])
    return out


def points(r, n, size, outside=True):
    """Coordinates in [0, n-1]: interior, integer, border, and outside."""
    v = r.uniform(0, max(n - 1, 0), size)
    k = r.randint(0, 6 if outside else 3, size)
    v = np.where(k == 1, np.round(v), v)
    v = np.where(k == 2, np.where(r.rand(*np.shape(v)) < 0.5, 0, n - 1), v)
    if outside:
        v = np.where(k == 3, r.uniform(-6, 0, size), v)
        v = np.where(k == 4, r.uniform(n - 1, n + 6, size), v)
        v = np.where(k == 5, np.where(r.rand(*np.shape(v)) < 0.5, r.uniform(-1, 0, size), r.uniform(n - 1, n, size)), v)
    return v.astype(np.float32)


def listed_directories(build, ext, write, names=("b", "a"), deep=True):
    """build(list) must expand a directory to its files of the format, by name, in its place, and refuse other files."""
    with Tmp() as d:
        at = lambda *p: os.path.join(d, *p)
        os.makedirs(at("in", "sub"))
        first, other = at(f"{names[0]}{ext}"), at("in", "notes.txt")
        inside = [at("in", f"{n}{ext}") for n in names] + ([at("in", "sub", f"{names[0]}{ext}")] if deep else [])
        for p in [first] + inside:
            write(p)
        open(other, "w").write("not data")
        want = sorted(inside)
        for lst, exp in (([at("in")], want), ([first, at("in")], [first] + want), ([at("in"), first, at("in")], want + [first] + want),
                         ([first, other], None), ([other, at("in")], None)):
            try:
                got = list(build(lst).file_list)
            except ValueError as e:
                if exp is not None:
                    return f"{[os.path.relpath(x, d) for x in lst]} (in/ holds {[os.path.relpath(x, d) for x in want]}) is rejected: {e}"
                continue
            if exp is None:
                return f"{[os.path.relpath(x, d) for x in lst]} is accepted"
            if got != exp:
                return f"{[os.path.relpath(x, d) for x in lst]} gives {[os.path.relpath(x, d) for x in got]}, expected {[os.path.relpath(x, d) for x in exp]}"
    return None


def next_item(s):
    """The next item of a scheduler: a batch of one, without its first axis."""
    b = s.get_batch(1)
    x = [None if a is None else a[0] for a in (b.flow_fields, b.images1, b.images2)]
    if b.mask is not None and not np.all(b.mask):
        raise StopIteration
    return type(b)(flow_fields=x[0], images1=x[1], images2=x[2], mask=None, files=b.files)
