"""C28: the sanity tool."""
import datetime

from contracts.common import *
from contracts.c27 import MISSING, Conf
from dv import files as F

SPEEDS, UPDATE, PANEL = ["sanity.calculate_min_and_max_speeds"], ["sanity.update_config_file"], ["sanity.missing_speeds_panel"]
BUDGET, MINCASES = 6, 60
NOTE = "Speed bounds for every list of files of every shape and content; detection for every value of every entry; rewriting for configurations holding a value of each YAML type."
ASSUMPTIONS = ["the speeds in the files are numbers (no NaN)", "ruamel.yaml's safe dumper writes a text that reads back as the same data",
               "the maximum and minimum of an array by contract (numpy)"]
KEYS = ("max_speed_x", "max_speed_y", "min_speed_x", "min_speed_y")
I = z3.IntSort()
VEL = z3.Function("velocity", *[I] * 5, z3.RealSort())  # file, entry of the field (up to three indices), component
EXT = {w: z3.Function(f"file_{w}", I, I, z3.RealSort()) for w in ("max", "min")}
RUN = {w: z3.Function(f"running_{w}", I, I, z3.RealSort()) for w in ("max", "min")}


def better(w, a, b):
    return z3.If(a >= b, a, b) if w == "max" else z3.If(a <= b, a, b)


def running():
    """RUN(n, c): the extreme of the first n > 0 files, by recursion."""
    for w in ("max", "min"):
        def ax(t, w=w):
            n, c = t.arg(0), t.arg(1)
            return [z3.Implies(n == 1, t == EXT[w](0, c)),
                    z3.Implies(n > 1, t == better(w, RUN[w](n - 1, c), EXT[w](n - 1, c)))]
        ctx().ghost.setdefault("running", {})[w] = ax


def run_at(w, n, c):
    """The running extreme, with its definition."""
    t = RUN[w](lift(n), lift(c))
    for f in ctx().ghost["running"][w](t):
        ctx().assume(SBool(f))
    return SReal(t)


class File:
    """File k: a dataset of either layout, non-empty, with any number of other entries."""

    def __init__(self, k, kind):
        self.k, self.kind, self.reached = k, kind, {}
        n, h, w, ch = (fresh_int(v, 1) for v in ("n", "h", "w", "channels"))
        if kind == "4D":
            ctx().assume(ch >= 2)
            self.shape, self.at = (n, h, w, ch), lambda a, b, c, d: (a, b, c, d)
        elif kind == "3D":
            self.shape, self.at = (h, w, 2), lambda b, c, d: (0, b, c, d)
        else:
            self.shape, self.at = (h, w), lambda b, c: (0, b, c, 0)
        self.data = SArr(self.shape, lambda *i: wrap(VEL(lift(k), *[lift(x) for x in self.at(*i)])), "f")
        if kind in ("4D", "3D"):
            # the file's extremes: reached, and not exceeded
            for w_ in ("max", "min"):
                for c in (0, 1):
                    e = EXT[w_](lift(k), z3.IntVal(c))
                    at_ = [fresh_int("reached_at", 0, d) for d in self.shape[:-1]]
                    ctx().assume(SBool(e == VEL(lift(k), *[lift(x) for x in self.at(*at_, c)])))
                    self.reached[w_, c] = at_
            ctx().ghost["extreme_of"] = self.instances

    def instances(self, a, what, v, reached):
        """The bounds of an extreme at the other's index (sound instances of the two universal facts, in place of these)."""
        if len(a.shape) != len(self.shape) - 1 or any(isinstance(i, tuple) for i in reached):
            return False
        for c in (0, 1):
            inside = lambda i, shape: and_(*[and_(x >= 0, x < d) for x, d in zip(i, shape)])
            le = lambda x, y: x <= y if what == "max" else x >= y
            there = self.reached[what, c]
            ctx().assume(implies(inside(there, a.shape), le(a.fn(*there), v)))
            ctx().assume(implies(inside(reached, self.shape), le(wrap(VEL(lift(self.k), *[lift(x) for x in self.at(*reached, c)])),
                                                                SReal(EXT[what](lift(self.k), z3.IntVal(c))))))
        return True

    def group(self):
        d = F.H5Group({}) if self.kind == "group" else F.H5Dataset(self.data)
        others = {"b": F.H5Dataset(arr("another_entry", (2, 2, 2), "f"))} if ctx().choose(2, "more entries") else {}
        return F.H5Group({"a": d, **others})


class Step(LoopSpec):
    """Each extreme carried by the loop is the running extreme of one component.  Which one, the first pass finds out."""

    def __init__(self, found, verify):
        self.found, self.verify, self.vars = found, verify, {}

    def entry(self, loop, env):
        pass

    def first(self, loop):
        if not hasattr(self, "at0"):
            self.at0 = ctx().branch(lift(eq(loop.i, 0)))
        return self.at0

    def havoc(self, loop, name, v):
        if not isinstance(v, (float, SReal)):
            from dv.seqs import havoc_value
            return havoc_value(name, v)
        if self.first(loop):
            self.vars[name] = v
            return v
        x = Real(ctx().fresh(name))
        if self.verify:
            if name not in self.found:
                unsup(f"what {name} accumulates is not recognised")
            w, c = self.found[name]
            ctx().assume(eq(x, run_at(w, loop.i, c)))
        self.vars[name] = x
        return x

    def preserved(self, loop, env):
        i = loop.i  # files done
        if not self.verify:
            if self.at0:
                return
            for name, old in self.vars.items():
                new = env.get(name)
                if new is None or lift(new) is None:
                    continue
                for w in ("max", "min"):
                    for c in (0, 1):
                        g = eq(new, SReal(better(w, lift(old), EXT[w](lift(i - 1), z3.IntVal(c)))))
                        if ctx().check(g) is True or g is True:
                            self.found.setdefault(name, set()).add((w, c))
            return
        for name in self.vars:
            if name in self.found:
                w, c = self.found[name]
                prove(eq(env[name], run_at(w, i, c)), f"{name} is the running {w} of component {c}")


@harness("the speed bounds are the extremes of each component", SPEEDS, seconds=200, prove_ms=20000)
def h_speeds(L, s):
    M = L.load("synthpix.sanity")
    found = {}

    def pass_(verify):
        def run():
            running()
            N = Int("files", 1)
            seq = SymSeq(N, lambda i: SObj(z3.Function("file", I, F.PATH)(lift(i))))
            inv = z3.Function("number_of", F.PATH, I)
            fileno = z3.Function("file", I, F.PATH)
            ctx().axiom(fileno, lambda t: [inv(t) == t.arg(0)])
            kind = ("4D", "3D")[ctx().choose(2, "layout")]

            class FS:
                def h5open(self, p, mode="r", **k):
                    if mode != "r":
                        prove(False, "files are only read")
                    return File(SInt(z3.simplify(p.t.arg(0))) if p.t.decl().name() == "file" else unsup("another file"), kind).group()
            ctx().ghost["fs"] = FS()
            ctx().ghost["loop_specs"] = [lambda loop: Step(found, verify) if loop.kind == "for" else None]
            r = M.calculate_min_and_max_speeds(SList(seq))
            if not verify:
                return
            prove(set(r) == set(KEYS), "ensures the four bounds")
            for k in KEYS:
                prove(eq(r[k], run_at(k[:3], N, 0 if k.endswith("x") else 1)), f"ensures {k} is the {k[:3]}imum of component {'xy'.index(k[-1])} over all files")
        return run
    quiet = type(s).__new__(type(s))
    quiet.__dict__.update(s.__dict__)
    quiet.results, quiet.errors = [], []
    quiet.run(pass_(False))
    for k in list(found):
        if len(found[k]) != 1:
            del found[k]
        else:
            found[k] = next(iter(found[k]))
    s.run(pass_(True))


@harness("the running extreme is the extreme of all files", SPEEDS)
def h_lemma(L, s):
    def run():
        running()
        w, c = ("max", "min")[ctx().choose(2, "which")], ctx().choose(2, "component")
        n = Int("n", 1)
        k, reached = Int("k", 0), Int("reached", 0)
        le = (lambda a, b: a <= b) if w == "max" else (lambda a, b: a >= b)
        e = lambda j: SReal(EXT[w](lift(j), z3.IntVal(c)))
        # induction over the number of files
        prove(implies(k < 1, le(e(k), run_at(w, 1, c))), "bounds the first file")
        prove(eq(e(0), run_at(w, 1, c)), "is reached by the first file")
        assume(and_(implies(k < n, le(e(k), run_at(w, n, c))), reached < n, eq(e(reached), run_at(w, n, c))))
        prove(implies(k < n + 1, le(e(k), run_at(w, n + 1, c))), "bounds every file")
        r = if_(eq(run_at(w, n + 1, c), e(n)), n, reached)
        prove(and_(r < n + 1, eq(e(r), run_at(w, n + 1, c))), "is reached by one of them")
    s.run(run)


@harness("files that hold no velocities are rejected", SPEEDS)
def h_reject(L, s):
    M = L.load("synthpix.sanity")

    def run():
        kind = ("2D", "group", "3 channels")[ctx().choose(3, "kind")]

        class FS:
            def h5open(self, p, mode="r", **k):
                f = File(SInt(z3.IntVal(0)), kind if kind != "3 channels" else "2D")
                if kind == "3 channels":
                    f.data = arr("three", (fresh_int("h", 1), fresh_int("w", 1), 3), "f")
                return f.group()
        ctx().ghost["fs"] = FS()
        e, r = raises(M.calculate_min_and_max_speeds, ["a.h5"])
        prove(isinstance(e, ValueError), "requires datasets of velocities")
    s.run(run)


class Out:
    """A file being written."""

    def __init__(self, world, path, mode):
        self.w, self.p = world, path
        if "a" not in mode:
            world.files[path] = ""

    def write(self, x):
        self.w.files[self.p] += x

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def flush(self):
        pass

    close = flush

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class Files:
    def __init__(self, conf):
        self.files, self.conf = {}, conf

    def open(self, p, mode="r", *a, **k):
        if mode.strip("t+") not in ("w", "a"):
            unsup("reading a file")
        return Out(self, p, mode)

    def load(self, p):
        if p != "dir/c.yaml" or p in self.files:
            unsup("another file is loaded")
        return self.conf


VALUES = [lambda: Int("an_int"), lambda: Real("a_float"), lambda: Bool("a_bool"), lambda: None, lambda: "yes: no", lambda: "",
          lambda: [Int("e0"), [Real("e1"), "x"], None], lambda: {"k": Int("nested"), 3: [True]}, lambda: [], lambda: {},
          lambda: datetime.date(2020, 1, 2), lambda: b"bytes", lambda: {1, 2}, lambda: float("inf"), lambda: 10 ** 30]


@harness("writing values changes those entries only", UPDATE, bounded="configurations of at most six entries", parts=5)
def h_update(L, s, part):
    M = L.load("synthpix.sanity")

    def run():
        conf = {f"key {k}": v() for k, v in enumerate(VALUES[3 * part:3 * part + 3])}
        fl = ctx().choose(5, "file_list")
        if fl:
            conf["file_list"] = [None, ["a.h5", "b.h5"], [], "a.h5", [1, None]][fl]
        before = dict(conf)
        up = {}
        if ctx().choose(2, "old entry"):
            up["key 1"] = Real("new_value")
        if ctx().choose(2, "new entries"):
            up["max_speed_x"], up["min_speed_y"] = Real("new_speed"), Real("new_speed2")
        if ctx().choose(2, "new files"):
            up["file_list"] = ["c.h5"]
        w = Files(conf)
        ctx().ghost["open"], ctx().ghost["load_configuration"] = w.open, w.load
        asked = dict(up)
        M.update_config_file("dir/c.yaml", up)
        texts = ctx().ghost.get("yaml_texts", {})
        if set(w.files) != {"dir/c.yaml"} or w.files["dir/c.yaml"] not in texts:
            unsup("the configuration is not written by the YAML library")
        got = texts[w.files["dir/c.yaml"]]
        prove(set(got) == set(before) | set(asked), "ensures the entries are the old and the new ones")
        for k in got:
            e = asked[k] if k in asked else before[k]
            prove(same(got[k], e), f"ensures {'the new value' if k in asked else 'the entry as it was'}")
    s.run(run)


def same(a, b):
    if isinstance(b, (list, dict, set, bytes, datetime.date, str)) or b is None:
        if type(a) is not type(b) and not (isinstance(a, (dict, list)) and isinstance(b, (dict, list)) and isinstance(a, dict) == isinstance(b, dict)):
            return False
        if isinstance(b, list):
            return len(a) == len(b) and and_(*[same(x, y) for x, y in zip(a, b)])
        if isinstance(b, dict):
            return set(a) == set(b) and and_(*[same(a[k], b[k]) for k in b])
        return a == b
    kind = lambda v: bool if isinstance(v, (bool, SBool)) else int if isinstance(v, (int, SInt)) else float
    return kind(a) is kind(b) and (eq(a, b) if isinstance(a, S) or isinstance(b, S) else a == b)


@harness("missing speeds are those absent or not a number", PANEL, seconds=200, parts=4)
def h_panel(L, s, part):
    M = L.load("synthpix.sanity")
    st = {}
    L.replace(M.calculate_min_and_max_speeds, lambda files: st["calc"](files))
    L.replace(M.update_config_file, lambda p, v: st["write"](p, v))

    def run():
        given = {}

        def number(v, k):
            def make():
                given[k] = v(f"configured_{k}")
                return given[k]
            return make
        # one entry takes any kind of value, the others a number, something else, or nothing
        alts = lambda k: [MISSING, number(Real, k)] + ([None, "1.0", lambda: [1.0], number(Int, k)] if k == KEYS[part] else ["fast"])
        files = ["a.h5", "b.h5"]
        conf = Conf({"file_list": [lambda: list(files)], "seed": [0], **{k: alts(k) for k in KEYS}})
        new = {k: Real("calc_" + k) for k in KEYS}
        calc, written, asked = [], [], []

        class FS:
            isfile = exists = lambda self, p: p in files or unsup("another file")
        ctx().ghost["fs"] = FS()
        ctx().ghost["load_configuration"] = lambda p: conf
        answers = []

        def ask(prompt):
            asked.append(prompt)
            c = [("1", "2", "x"), ("y", "n")][len(asked) - 1] if len(asked) <= 2 else unsup("more questions")
            answers.append(c[ctx().choose(len(c), "answer")])
            return answers[-1]
        ctx().ghost["input"] = ask

        def calculate(fs_):
            calc.append(list(fs_))
            return dict(new)
        st["calc"], st["write"] = calculate, lambda p, v: written.append((p, dict(v)))
        e, r = raises(M.missing_speeds_panel, "dir/c.yaml")
        prove(e is None or isinstance(e, RuntimeError), "only stops where the user says so")
        if set(given) == set(KEYS):
            prove(e is None and not asked and not calc and not written, "ensures nothing is missing when every speed is a number")
            if e is None:
                prove(len(r) == 4 and and_(*[eq(x, given[k]) for x, k in zip(r, KEYS)]), "ensures the configured speeds")
            return
        prove(len(asked) >= 1, "ensures missing speeds are reported")
        if answers[:1] == ["1"]:
            prove(calc == [files], "ensures the bounds are those of the configured files")
            prove(len(written) == 1 and written[0][0] == "dir/c.yaml" and set(written[0][1]) == set(KEYS), "ensures the four speeds, and no other entry, are written")
            if written:
                prove(and_(*[eq(written[0][1][k], new[k]) for k in KEYS]), "ensures the calculated speeds are written")
            if answers[1:] == ["y"]:
                prove(e is None and len(r) == 4 and and_(*[eq(x, new[k]) for x, k in zip(r, KEYS)]), "ensures the calculated speeds")
            elif answers[1:]:
                prove(e is not None, "stops when the user does")
        else:
            prove(e is not None and not written, "ensures nothing is written unless asked for")
    s.run(run)


@harness("the tool ends normally exactly if the configuration it leaves can be instantiated", ["sanity.main"], seconds=60)
def h_main(L, s):
    M = L.load("synthpix.sanity")
    st = {}

    class Scheduler:
        def __init__(self, file_list, *a, **k):
            st["files"].append(file_list)
            if st["bad"] == "scheduler":
                raise ValueError("no scheduler")

        @classmethod
        def from_config(cls, config):
            return cls(config["file_list"])

    class Sampler:
        @classmethod
        def from_config(cls, scheduler, config):
            st["sampled"].append((scheduler, dict(config)))
            if st["bad"] == "sampler" or "max_speed_x" not in config:
                raise KeyError("no sampler")
            return cls()
    L.replace(M.HDF5FlowFieldScheduler, Scheduler)
    L.replace(M.SyntheticImageSampler, Sampler)
    L.replace(M.missing_speeds_panel, lambda p: st["panel"](p))

    def run():
        import sys
        exists = bool(ctx().choose(2, "the file exists"))
        complete = bool(ctx().choose(2, "all speeds are given"))
        stops = not complete and bool(ctx().choose(2, "the user stops"))
        st.update(files=[], sampled=[], bad=(None, "scheduler", "sampler")[ctx().choose(3, "what fails")])
        conf = {"seed": Int("seed", 0), "file_list": ["a.h5", "b.h5"]}
        if complete:
            conf["max_speed_x"] = Real("speed")

        class FS:
            isfile = exists_ = lambda self, p: exists if p == "dir/c.yaml" else p in conf["file_list"] or unsup("another file")
        FS.exists = FS.exists_
        ctx().ghost["fs"] = FS()

        def load(p):
            if p != "dir/c.yaml" or not exists:
                unsup("another file is loaded")
            return dict(conf)
        ctx().ghost["load_configuration"] = load

        def panel(p):
            prove(p == "dir/c.yaml", "the speeds of the given file are completed")
            if stops:
                raise RuntimeError("stopped")
            conf.setdefault("max_speed_x", Real("calculated_speed"))
        st["panel"] = panel
        argv, sys.argv = sys.argv, ["sanity", "--config", "dir/c.yaml"]
        try:
            M.main()
            end = "normal"
        except SystemExit as e:
            end = "normal" if e.code in (None, 0) else "exit"
        except RuntimeError:
            end = "stopped"
        finally:
            sys.argv = argv
        fine = exists and not stops and st["bad"] is None
        prove((end == "normal") == fine, "ends normally exactly if the scheduler and the sampler can be built")
        if end == "normal" and fine:
            prove(st["files"] == [conf["file_list"]] and len(st["sampled"]) == 1, "ensures one scheduler of the configured files, and one sampler")
            if len(st["sampled"]) == 1:
                sch, c = st["sampled"][0]
                prove(isinstance(sch, Scheduler) and set(c) == set(conf), "ensures the sampler is that of the configuration left in the file")
                if set(c) == set(conf):
                    prove(and_(*[same(c[k], conf[k]) for k in conf]), "ensures the configuration left in the file is the one that is checked")
    s.run(run)
