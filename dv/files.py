"""Shims of the operating system and file libraries.

A path is a plain string, an SObj of sort Path (an arbitrary file name), or a
SymStr (a string with symbolic parts).  What the file system holds is given by
the harness: ctx().ghost["fs"], an object with the needed operations.
"""
import os as _os
import re as _re

import z3

from . import core
from .core import *
from .core import ctx, unsup
from .shims import mod

PATH = z3.DeclareSort("Path")


def fs(op):
    c = ctx()
    f = c.ghost.get("fs") if c is not None else None
    h = getattr(f, op, None) if f is not None else None
    if h is None:
        unsup(f"file system: {op}")
    return h


def symbolic(x):
    return isinstance(x, (S, SymStr)) or hasattr(x, "__dv_resolve__")


def resolve(x):
    """A path whose form depends on a case: the form of this path."""
    return x.__dv_resolve__() if hasattr(x, "__dv_resolve__") else x


# ---------------------------------------------------------------- strings with symbolic parts
class SymStr:
    """Concatenation of strings, Path objects and decimal numerals of symbolic integers (as S values)."""
    __hash__ = None

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, SymStr):
                out += p.parts
            elif isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif not (isinstance(p, str) and p == ""):
                out.append(p)
        self.parts = [x for k, x in enumerate(merge(out))]

    def __dv_isinstance__(self, k):
        return k is str

    def __dv_subst__(self, pairs):
        from .arrays import subst_obj
        return make([subst_obj(p, pairs) for p in self.parts])

    def __str__(self):
        return "".join(p if isinstance(p, str) else str(p) for p in self.parts)

    __repr__ = __str__

    def __format__(self, spec):
        return str(self)

    def __add__(self, o):
        return make([self, o])

    def __radd__(self, o):
        return make([o, self])

    def __bool__(self):
        return True

    def __eq__(self, o):
        if isinstance(o, SObj):
            return False
        if not isinstance(o, SymStr):
            if isinstance(o, str):
                if any(isinstance(p, SObj) for p in self.parts):
                    unsup("comparison of a symbolic string")
                return self.match_literal(o)
            return False
        a, b = self.parts, o.parts
        if len(a) != len(b):
            unsup("comparison of symbolic strings of different structure")
        cs = []
        for x, y in zip(a, b):
            if isinstance(x, str) != isinstance(y, str):
                unsup("comparison of symbolic strings of different structure")
            if isinstance(x, str):
                if x != y:
                    return False
            else:
                cs.append(x == y)
        return and_(*cs)

    def __ne__(self, o):
        r = self.__eq__(o)
        return not_(r) if isinstance(r, S) else not r

    def match_literal(self, s):
        unsup("comparison of a symbolic string with a literal")

    def endswith(self, suf):
        last = self.parts[-1]
        if isinstance(suf, tuple):
            return or_(*[self.endswith(x) for x in suf])
        if isinstance(last, str) and len(last) >= len(suf):
            return last.endswith(suf)
        unsup("endswith of a symbolic part")

    def startswith(self, pre):
        first = self.parts[0]
        if isinstance(first, str) and len(first) >= len(pre):
            return first.startswith(pre)
        if isinstance(first, str) and not pre.startswith(first):
            return False
        unsup("startswith of a symbolic part")

    def split(self, sep=None, maxsplit=-1):
        if sep is None or not isinstance(sep, str) or sep.isdigit():
            unsup("split of a symbolic string")
        return [make(x) for x in self.pieces(sep, maxsplit)]

    def rsplit(self, sep=None, maxsplit=-1):
        ps = self.split(sep)
        if maxsplit >= 0 and len(ps) > maxsplit + 1:
            k = len(ps) - maxsplit
            head = []
            for p in ps[:k]:
                head += [sep, p] if head else [p]
            return [make(head)] + ps[k:]
        return ps

    def pieces(self, sep, maxsplit=-1):
        out, n = [[]], 0
        for p in self.parts:
            if not isinstance(p, str):
                out[-1].append(p)
                continue
            rest = p
            while sep in rest and (maxsplit < 0 or n < maxsplit):
                a, rest = rest.split(sep, 1)
                out[-1].append(a)
                out.append([])
                n += 1
            out[-1].append(rest)
        return out

    def rpartition(self, sep):
        ps = self.rsplit(sep, 1)
        return (ps[0], sep, ps[1]) if len(ps) == 2 else ("", "", self)

    def partition(self, sep):
        ps = self.split(sep, 1)
        return (ps[0], sep, ps[1]) if len(ps) == 2 else (self, "", "")

    def removesuffix(self, suf):
        if not self.endswith(suf):
            return self
        return make(self.parts[:-1] + [self.parts[-1][:-len(suf)]])

    def removeprefix(self, pre):
        if not self.startswith(pre):
            return self
        return make([self.parts[0][len(pre):]] + self.parts[1:])

    def replace(self, a, b, *k):
        unsup("replace in a symbolic string")

    def isdigit(self):
        return all(isinstance(p, SInt) or (isinstance(p, str) and p.isdigit()) for p in self.parts)

    def __dv_int__(self):
        if len(self.parts) == 1 and isinstance(self.parts[0], SInt):
            return self.parts[0]
        if any(isinstance(p, str) for p in self.parts):
            raise ValueError("invalid literal for int()")
        unsup("int of a symbolic string")

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        unsup(f"str.{k} of a symbolic string")


def merge(out):
    r = []
    for p in out:
        if isinstance(p, str) and r and isinstance(r[-1], str):
            r[-1] += p
        else:
            r.append(p)
    return r


def make(parts):
    s = SymStr(parts)
    if not s.parts:
        return ""
    if len(s.parts) == 1 and isinstance(s.parts[0], (str, SObj)):
        return s.parts[0]
    return s


def fstr(*parts):
    """f-string: parts are strings or (value, conversion, format spec) triples."""
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(p)
            continue
        v, conv, spec = p
        if isinstance(v, (SInt, SymStr)) or isinstance(v, SObj) and v.t.sort().eq(PATH):
            if conv == -1 and spec == "" or (conv == 115 and not isinstance(v, SInt)):
                out.append(v)
                continue
            out.append(Opaque(f"<{v!s}:{spec}>") if conv == -1 else str(v))
            continue
        v = {-1: lambda x: x, 115: str, 114: repr, 97: ascii}[conv](v)
        out.append(format(v, spec))
    if any(isinstance(p, Opaque) for p in out):
        return Opaque("".join(str(p) for p in out))
    return make(out)


class Opaque(str):
    """Text that only messages may use."""


# ---------------------------------------------------------------- os.path
def join(a, *bs):
    a, bs = resolve(a), [resolve(b) for b in bs]
    if not any(symbolic(x) for x in (a, *bs)):
        return _os.path.join(a, *bs)
    out = [a]
    for b in bs:
        if isinstance(b, str) and b.startswith("/") or isinstance(b, SymStr) and isinstance(b.parts[0], str) and b.parts[0].startswith("/"):
            out = [b]
        else:
            if not (isinstance(out[-1], str) and (out[-1] == "" or out[-1].endswith("/"))):
                out.append("/")
            out.append(b)
    return make(out)


def tailsplit(p):
    """(dirname, basename) of a string whose symbolic parts contain no separator, or whose first part is a directory."""
    p = resolve(p)
    if isinstance(p, SObj):
        h = getattr(ctx().ghost.get("fs"), "split", None)
        return h(p) if h else unsup("parts of an arbitrary path")
    last = len(p.parts) - 1
    while last >= 0 and not (isinstance(p.parts[last], str) and "/" in p.parts[last]):
        if isinstance(p.parts[last], SObj) and not getattr(ctx().ghost.get("fs"), "plain_name", lambda q: False)(p.parts[last]):
            unsup("parts of an arbitrary path")
        last -= 1
    if last < 0:
        return "", p
    a, b = p.parts[last].rsplit("/", 1)
    head = p.parts[:last] + [a]
    return make(head), make([b] + p.parts[last + 1:])


def basename(p):
    return tailsplit(p)[1] if symbolic(p) else _os.path.basename(p)


def dirname(p):
    return tailsplit(p)[0] if symbolic(p) else _os.path.dirname(p)


def psplit(p):
    return tailsplit(p) if symbolic(p) else _os.path.split(p)


def splitext(p):
    p = resolve(p)
    if not symbolic(p):
        return _os.path.splitext(p)
    if isinstance(p, SymStr) and isinstance(p.parts[-1], str) and "." in p.parts[-1]:
        i = p.parts[-1].rindex(".")
        return make(p.parts[:-1] + [p.parts[-1][:i]]), p.parts[-1][i:]
    unsup("extension of an arbitrary path")


def normpath(p):
    if not symbolic(p):
        return _os.path.normpath(p)
    h = getattr(ctx().ghost.get("fs"), "normpath", None)
    return h(p) if h else unsup("normpath of a symbolic path")


def fspath(p):
    return p if symbolic(p) else _os.fspath(p)


# ---------------------------------------------------------------- re
SAMPLES = ("7", "42", "007", "1234", "31415", "000000", "2718281828")


class Match:
    def __init__(self, parts, groups):
        self._parts, self._g = parts, groups

    def group(self, *k):
        if not k:
            return self._g[0]
        r = [self._g[x] for x in k]
        return r[0] if len(r) == 1 else tuple(r)

    def __getitem__(self, k):
        return self._g[k]

    def groups(self, default=None):
        return tuple(v for k, v in self._g.items() if isinstance(k, int) and k > 0)

    def __bool__(self):
        return True


def rematch(how, pattern, s, flags=0):
    s = resolve(s)
    if not symbolic(s):
        return getattr(_re, how)(pattern, s, flags)
    if isinstance(s, SObj):
        unsup("regular expression on an arbitrary string")
    if any(isinstance(p, SObj) for p in s.parts):
        unsup("regular expression on an arbitrary string")
    nums = [p for p in s.parts if not isinstance(p, str)]
    # numerals are represented by sample digit strings; the match must be the same for all of them
    res = []
    for smp in SAMPLES:
        text, spans = "", []
        for p in s.parts:
            if isinstance(p, str):
                text += p
            else:
                spans.append((len(text), len(text) + len(smp)))
                text += smp
        m = getattr(_re, how)(pattern, text, flags)
        if m is None:
            res.append(None)
            continue
        gs = {}
        for k in [0] + list(range(1, (m.re.groups or 0) + 1)):
            a, b = m.span(k)
            gs[k] = locate(s.parts, spans, text, a, b) if a >= 0 else None
        for nme, k in m.re.groupindex.items():
            gs[nme] = gs[k]
        res.append(gs)
    key = [None if g is None else tuple(sorted((str(k), shape(v)) for k, v in g.items())) for g in res]
    if len(set(key)) != 1:
        unsup("a regular expression that depends on the number of digits")
    ctx().session.notes.add("regular expressions treat all digit strings alike (sampled)")
    return Match(s.parts, res[0]) if res[0] is not None else None


def shape(v):
    return repr([x if isinstance(x, str) else "#" for x in (v.parts if isinstance(v, SymStr) else [v])]) if v is not None else "None"


def locate(parts, spans, text, a, b):
    """The part of the symbolic string between positions a and b of the sample text."""
    out, pos, k = [], 0, 0
    for p in parts:
        if isinstance(p, str):
            lo, hi = max(a, pos), min(b, pos + len(p))
            if lo < hi:
                out.append(p[lo - pos:hi - pos])
            pos += len(p)
        else:
            s, e = spans[k]
            k += 1
            pos = e
            if a <= s and e <= b:
                out.append(p)
            elif a < e and b > s:
                unsup("a regular expression splits a number")
    return make(out)


class Pattern:
    def __init__(self, p, flags=0):
        self.p, self.flags = p, flags
        self.pattern = p

    def match(self, s): return rematch("match", self.p, s, self.flags)
    def fullmatch(self, s): return rematch("fullmatch", self.p, s, self.flags)
    def search(self, s): return rematch("search", self.p, s, self.flags)


def wrap_fs(name):
    def f(p, *a, **k):
        r = fs(name)(p, *a, **k)
        from . import seqs
        return seqs.SList(r) if name == "glob" and isinstance(r, seqs.SymSeq) else r
    return f


# ---------------------------------------------------------------- file formats
class H5Dataset:
    """A dataset of an HDF5 file: an array read by indexing."""

    def __init__(self, a):
        self.a = a

    def __dv_isinstance__(self, k):
        return k is H5_DATASET

    shape = property(lambda self: self.a.shape)
    ndim = property(lambda self: self.a.ndim)
    dtype = property(lambda self: self.a.dtype)
    size = property(lambda self: self.a.size)

    def __getitem__(self, key):
        return self.a if key == () and isinstance(key, tuple) else self.a[key]

    def __dv_len__(self):
        return self.a.shape[0]

    def __dv_to_array__(self):
        return self.a


class H5Group:
    """A group: names to datasets and groups, in the order of the file.

    Either concrete (a dict), or `n` entries named name(i) with item(name).
    """

    def __init__(self, items=None, n=None, name=None, item=None):
        self.items_, self.n, self.name, self.item = items, n, name, item

    def __dv_isinstance__(self, k):
        return k is H5_GROUP

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def __dv_seq__(self):
        from .seqs import SymSeq
        if self.items_ is not None:
            return list(self.items_)
        return SymSeq(self.n, self.name)

    def keys(self):
        s = self.__dv_seq__()
        return s if isinstance(s, list) else s

    def __iter__(self):
        if self.items_ is not None:
            yield from self.items_
            return
        if bool(self.n <= 0):
            return
        yield self.name(0)
        unsup("iterating over the entries of an arbitrary file")

    def items(self):
        if self.items_ is None:
            unsup("items of an arbitrary file")
        return list(self.items_.items())

    def values(self):
        if self.items_ is None:
            from .seqs import SymSeq
            return SymSeq(self.n, lambda i: self.item(self.name(i)))
        return list(self.items_.values())

    def __dv_len__(self):
        return self.n if self.items_ is None else len(self.items_)

    def __contains__(self, k):
        return self.items_ is not None and k in self.items_ or self.items_ is None and unsup("membership in an arbitrary file")

    def get(self, k, default=None):
        if self.items_ is None:
            unsup("get of an arbitrary file")
        return self.items_.get(k, default)

    def __getitem__(self, k):
        if self.items_ is not None:
            return self.items_[k]
        if not isinstance(k, S):
            unsup("an entry of an arbitrary file")
        return self.item(k)


class H5_DATASET:
    pass


class H5_GROUP:
    pass


def resampled(f, a, H, W):
    """The resampling of an image by a filter, as a pure function of the image and the size."""
    from .arrays import SArr, cast
    if a.dtype.kind == "b":
        unsup("resampling of truth values")
    # an image of integers is resampled to integers, which is not the resampling of the same image in floating point
    whole = a.dtype.kind == "i"
    fn = ctx().ghost["resample"](f"{f}_to_integers" if whole else f, a.ndim)

    def elem(y, x, *c):
        r = fn.value(a, y, x, *c, H, W)
        return cast(r, "int32") if whole else r
    return SArr((H, W) + a.shape[2:], elem, a.dtype)


class PILImage:
    def __init__(self, a, mode="L"):
        self.a, self.mode = a, mode

    def resize(self, size, resample=None, box=None, reducing_gap=None):
        if box is not None or "resample" not in ctx().ghost:
            unsup("resize of an image")
        w, h = size
        f = resample if resample is not None else "BICUBIC"
        ctx().ghost.setdefault("filters", set()).add(f)
        return PILImage(resampled(f, self.a, h, w), self.mode)

    @property
    def size(self):
        return (self.a.shape[1], self.a.shape[0])

    width = property(lambda self: self.a.shape[1])
    height = property(lambda self: self.a.shape[0])

    def copy(self):
        return self

    def load(self):
        pass

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def convert(self, mode=None, **k):
        unsup("conversion of an image made from an array")

    def __dv_to_array__(self):
        return self.a

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        unsup(f"PIL.Image.{k}")


def fromarray(a, mode=None):
    from .arrays import as_array
    if mode is not None:
        unsup("fromarray with a mode")
    return PILImage(as_array(a))


def format_shims():
    filters = {n: n for n in ("NEAREST", "BOX", "BILINEAR", "HAMMING", "BICUBIC", "LANCZOS")}
    h5 = mod("h5py", Dataset=H5_DATASET, Group=H5_GROUP, File=wrap_fs("h5open"), is_hdf5=wrap_fs("is_hdf5"))
    io = mod("scipy.io", loadmat=wrap_fs("loadmat"))
    image = mod("PIL.Image", open=wrap_fs("image_open"), fromarray=fromarray, Resampling=mod("Resampling", **filters), **filters)
    return {"h5py": h5, "scipy": mod("scipy", io=io), "scipy.io": io, "PIL": mod("PIL", Image=image), "PIL.Image": image}


def shims():
    path = mod("os.path", join=join, basename=basename, dirname=dirname, split=psplit, splitext=splitext, normpath=normpath,
               sep="/", **{n: wrap_fs(n) for n in ("isfile", "isdir", "exists", "getsize", "abspath", "realpath", "commonpath")})
    os = mod("os", path=path, fspath=fspath, sep="/", PathLike=_os.PathLike, environ=mod("os.environ"),
             **{n: wrap_fs(n) for n in ("scandir", "listdir", "walk")})
    re = mod("re", match=lambda p, s, f=0: rematch("match", p, s, f), fullmatch=lambda p, s, f=0: rematch("fullmatch", p, s, f),
             search=lambda p, s, f=0: rematch("search", p, s, f), compile=Pattern, escape=_re.escape,
             **{n: getattr(_re, n) for n in ("IGNORECASE", "I", "ASCII", "A")})
    glob = mod("glob", glob=wrap_fs("glob"), iglob=wrap_fs("glob"), escape=lambda p: p)
    return {"os": os, "os.path": path, "re": re, "glob": glob}
