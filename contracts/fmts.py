"""The data formats: shared by C04, C05 and C06."""
from contracts.common import *
from dv import files as F
from dv.files import PATH, SymStr

INT, REAL, BOOL = z3.IntSort(), z3.RealSort(), z3.BoolSort()
FILE = z3.Function("file", INT, PATH)


class FS:
    """The file system: every listed path is an existing file."""

    def isdir(self, p):
        return False

    def isfile(self, p):
        return True

    exists = isfile


def build(L, module, cls, n=None, get=None, fs=None, **k):
    """A scheduler over n files (arbitrary ones by default)."""
    M = L.load(module)
    ctx().ghost["fs"] = fs or FS()
    n = Int("number_of_files", 1) if n is None else n
    e, s = raises(getattr(M, cls), SList(SymSeq(n, get or (lambda i: SObj(FILE(lift(i)))))), **k)
    return M, e, s


def current(s):
    """The path of any one entry of the list, which fresh_state then makes the current one."""
    if not isinstance(getattr(s, "file_list", None), SList):
        unsup("the scheduler's state is kept differently")
    i = Int("current_entry", 0)
    assume(i < s.file_list.n)
    return s.file_list.get(i)


def fresh_state(L, s, path, data):
    """Any state of the scheduler in which the file `path` is cached with `data`."""
    for n in ("index", "_slice_idx", "_cached_file", "_cached_data"):
        if n not in s.__dict__:
            unsup("the scheduler's state is kept differently")
    s.index, s._slice_idx = Int("current_entry", 0), Int("slice", 0)
    s._cached_file, s._cached_data = path, data
    # get_next_slice is called (C01 checks it) with the file of the current entry cached
    files = getattr(s, "file_list", None)
    if isinstance(files, SList):
        assume(s.index < files.n)
        assume(same_value(files.get(s.index), path))
    elif isinstance(files, (list, tuple)) and len(files) == 1:
        s.index = 0
        assume(same_value(files[0], path))
    return dict(s.__dict__)


def frame(s, before, name):
    """The scheduler's state is as it was."""
    for k, v in s.__dict__.items():
        if k in before and v is not before[k]:
            prove(same_value(v, before[k]), f"frame: {k} ({name})")
    prove(set(before) <= set(s.__dict__), f"frame: nothing is deleted ({name})")


def one_label(d, path, name):
    f = d.files
    if not isinstance(f, (tuple, list)) or len(f) != 1:
        prove(False, f"ensures one label ({name})")
        return
    prove(eq(f[0], path) if isinstance(f[0], (S, SymStr)) else False, f"ensures the label is the path of the file ({name})")


def same_array(got, want, name):
    got = A.as_array(got)
    if not isinstance(got, SArr):
        prove(False, f"ensures an array ({name})")
        return
    prove(shape_is(got, *want.shape), f"ensures the shape ({name})")
    if got.ndim != want.ndim:
        return
    ix = fresh_idx(want.shape, "e")
    prove(eq(at(got, *ix), at(want, *ix)), f"ensures every value unchanged ({name})")


def inherited(cls, base, *names):
    for n in names:
        if getattr(cls, n, None) is not getattr(base, n, None):
            unsup(f"{cls.__name__} has its own {n}")
