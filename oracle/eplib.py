"""Episodic schedulers over directories of frames made on the spot."""
from schedlib import *
from synthpix.scheduler import EpisodicFlowFieldScheduler

NAMES = ["{:03d}", "{}", "b{:02d}", "frame_{:04d}_x"]


def tree(d, case):
    """Directories of frames: case["dirs"] lists the number of frames of each; returns {directory: sorted files}, listed files."""
    table, want, listed, f = {}, {}, [], 0
    for k, n in enumerate(case["dirs"]):
        sub = os.path.join(d, case.get("parent", "root"), f"{'zyxwvu'[k % 6]}{k}")
        os.makedirs(sub)
        for j in range(n):
            nm = NAMES[case.get("naming", 0)].format(j) + f"_{k}.mat"
            table[nm] = (f, case.get("slices", 1))
            open(os.path.join(sub, nm), "wb").close()
            f += 1
        if k in case.get("inner", ()):
            os.makedirs(os.path.join(sub, "deeper"))
        else:
            want[sub] = sorted(os.path.join(sub, x) for x in os.listdir(sub) if x.endswith(".mat"))
        if k in case.get("links", ()):
            # a link is no subdirectory
            os.symlink(d, os.path.join(sub, "a_link"))
        open(os.path.join(sub, "notes.txt"), "w").close()
        fs = sorted(os.path.join(sub, x) for x in os.listdir(sub) if x.endswith(".mat"))
        listed += fs if case.get("list", "all") == "all" else fs[:1]
    if case.get("list_order") == "reversed":
        listed.reverse()
    return table, want, listed


def episodic(d, case):
    table, want, listed = tree(d, case)
    cls = type("F", (Fmt,), {"table": table, PATTERN: "*.mat"})
    k = case.get("base_key")
    base = cls(listed, randomize=case.get("randomize", False), loop=case.get("loop", False),
               **({} if k is None else {"key": jax.random.PRNGKey(k)}))
    key = case.get("key", 0)
    s = EpisodicFlowFieldScheduler(base, case["B"], case["L"], **({} if key is None else {"key": jax.random.PRNGKey(key)}))
    return s, base, table, want


def served(b, B):
    """The file names of a batch, after checking that each flow field is the one of its file."""
    m = np.ones(B, bool) if b.mask is None else np.asarray(b.mask)
    if m.shape != (B,) or not m.all():
        return None, f"mask {m} of a batch of {B} lanes"
    if len(b.files) != B:
        return None, f"{len(b.files)} file names for {B} lanes"
    return list(b.files), None


def check_lanes(steps, want, L, table, what):
    """steps: file names per step and lane.  Every lane is a run of L consecutive frames of one directory."""
    starts = []
    for i in range(len(steps[0])):
        d = os.path.dirname(steps[0][i])
        if d not in want:
            return f"{what}: lane {i} starts in {d}, which is not a leaf directory", None
        s0 = want[d].index(steps[0][i])
        if s0 + L > len(want[d]):
            return f"{what}: lane {i} starts at frame {s0} of {len(want[d])}, no room for {L} steps", None
        for t, row in enumerate(steps):
            if row[i] != want[d][s0 + t]:
                return f"{what}: lane {i} at step {t} is {row[i]}, expected {want[d][s0 + t]}", None
        starts.append((d, s0))
    return None, starts
