"""C14: flow refresh cadence and pairing."""
from contracts.samp import *

NEXT = ["sampler.synthetic.SyntheticImageSampler._get_next", "sampler.synthetic.SyntheticImageSampler.__init__"]
RST = ["sampler.synthetic.SyntheticImageSampler._reset", "sampler.base.Sampler.reset"]
BUDGET, MINCASES = 20, 8
NOTE = ("For every batches_per_flow_batch, flow_fields_per_batch, batch size and configuration, on one device (several devices: C30). "
        "The cadence is an invariant over the number of batches served from the current flow fields.")
ASSUMPTIONS = ["flow_field_adapter by C24: output i and current field j of a shard stem from its fields i mod n and j",
               "generate_images_from_flow by C19: image i shows field i mod n"]


def tokens(y, t, decl):
    """The flow field identities a term depends on through the contract function decl."""
    out, st, seen = [], [lift(t)], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().eq(decl):
            out.append(x)
            continue
        st.extend(x.children())
    return out


def pairing(y, b, src, name):
    """Batch b is generated from the scheduler's batch src, position by position."""
    sp = y.spec
    k = Int("k", 0, y.B)
    yy, xx = Int("y", 0, sp.image_shape[0]), Int("x", 0, sp.image_shape[1])
    j = k % y.ffb
    ident = src.flow.fn(j, 0, 0, 0)
    f = b.flow_fields
    sh = f.shape
    u, v, c = Int("u", 0, sh[1]), Int("v", 0, sh[2]), Int("c", 0, 2)
    prove(eq(size(sh[0]), y.B), f"ensures one flow field per image ({name})")
    prove(eq(at(f, k, u, v, c), wrap(y.OUT(lift(ident), u.t, v.t, c.t))), f"ensures the reported flow field k is field k mod n ({name})")
    for n, im in enumerate((b.images1, b.images2)):
        prove(eq(size(im.shape[0]), y.B), f"ensures one image per position ({name})")
        t = at(im, k, yy, xx)
        a = tokens(y, t, y.IM[n])
        if len(a) != 1:
            unsup("images are not those of the generator")
        prove(eq(wrap(a[0].arg(1)), ident), f"ensures image {n + 1} at k shows the flow field reported at k ({name})")
        prove(eq(t, wrap(a[0])), f"ensures image {n + 1} is the generator's ({name})")
    if src.mask is None:
        prove(b.mask is None, f"ensures no mask where the fetched batch has none ({name})")
    else:
        prove(b.mask is not None and shape_is(b.mask, src.n), f"ensures the mask ({name})")
        m = Int("m", 0, src.n)
        prove(eq(at(b.mask, m), at(src.mask, m)), f"ensures the mask of the fetched batch ({name})")
    prove(same_seq(b.files, src.files), f"ensures the files of the fetched batch ({name})")


def start(L, **k):
    y = synthetic(L, 1, **k)
    e, sm = raises(y.build)
    if e is not None:
        return None, None
    return y, sm


@harness("the first batch fetches one batch of flow fields", NEXT, prove_ms=20000, parts=2)
def h1(L, s, part):
    def run():
        y, sm = start(L, episodic=part == 1)
        if sm is None:
            return
        if part == 1:
            assume(y.stub.rem > 0)
        b = sm.__next__()
        prove(y.stub.log == ["get_batch"], "ensures one fetch")
        prove(eq(y.stub.batches[0].n, y.ffb), "ensures flow_fields_per_batch fields are fetched")
        pairing(y, b, y.stub.batches[0], "first")
    s.run(run)


def state(sm):
    return {k: v for k, v in sm.__dict__.items() if isinstance(v, (int, SInt)) and not isinstance(v, bool)}


def always(g):
    return ctx().check(g) if not isinstance(g, bool) else g


def counters(L, s, episodic):
    """The state that counts the batches served from one fetch: attributes that go up (or down) by one with every batch and
    start over with a fetch; and those that merely change.  Found by running the code with two batches per fetch."""
    found = []

    def run():
        y, sm = start(L, episodic=episodic)
        if sm is None:
            return
        assume(eq(y.bpf, 2))
        if episodic:
            assume(y.stub.rem > 3)
        vs = []
        for _ in range(3):
            sm.__next__()
            vs.append(state(sm))
        a, b, c = vs
        keys = [k for k in a if k in b and k in c]
        moved = [k for k in keys if not (always(eq(a[k], b[k])) and always(eq(b[k], c[k])))]
        count = {k: d for k in moved for d in (1, -1) if always(eq(b[k], a[k] + d)) and always(eq(c[k], a[k]))}
        found.append((count, [k for k in moved if k not in count]))
    s.run(run)
    if not found or any(f != found[0] for f in found) or len(found[0][0]) != 1:
        return None
    return found[0]


@harness("a fetched batch serves exactly batches_per_flow_batch batches", NEXT, prove_ms=20000, parts=3, seconds=120)
def h2(L, s, part):
    episodic = ["", True, "wrapper"][part]
    count, moved = ({}, []) if episodic == "wrapper" else counters(L, s, episodic) or (None, None)

    def run():
        y, sm = start(L, episodic=episodic)
        if sm is None:
            return
        if episodic:
            assume(y.stub.rem > 0)
        sm.__next__()
        if episodic:  # (also the first batch of another episode)
            y.stub.rem = Int("rest_of_the_episode", 1)
            assume(y.stub.rem <= y.stub.length)
        # any state in which the current flow fields have served g >= 1 batches
        if count is None:
            unsup("the sampler counts its batches in another way")
        one = state(sm)
        bpf = 1 if episodic == "wrapper" else y.bpf
        g = Int("served", 1)
        assume(g <= bpf)
        for k, d in count.items():
            setattr(sm, k, one[k] + d * (g - 1))
        for k in moved:
            setattr(sm, k, fresh_int(k))
        y.stub.log.clear()
        if ctx().choose(2, "the next fetch has a mask and files") == 0:
            y.stub.masks = y.stub.labels = False
        before = dict(sm.__dict__)
        b = sm.__next__()
        if y.stub.log == []:
            # the rest of the state is as it was, so that every further batch starts from the state taken here
            for k, v in sm.__dict__.items():
                if k in count or k in moved or type(v).__name__ in ("KeyArr", "Key") or before.get(k) is v:
                    continue
                if k not in before or not always(same_value(before[k], v)):
                    unsup(f"{k} changes from batch to batch")
            prove(g < bpf, "ensures no batch is used for more than batches_per_flow_batch batches")
            for k, d in count.items():
                prove(eq(getattr(sm, k), one[k] + d * g), "invariant: the count of batches served is maintained")
            pairing(y, b, y.stub.batches[0], "same fields")
        else:
            prove(y.stub.log == ["get_batch"], "ensures one fetch")
            prove(eq(g, bpf), "ensures no batch is used for less than batches_per_flow_batch batches")
            for k in count:
                prove(eq(getattr(sm, k), one[k]), "invariant: the count of batches served starts over with a fetch")
            prove(eq(y.stub.batches[1].n, y.ffb), "ensures flow_fields_per_batch fields are fetched")
            pairing(y, b, y.stub.batches[1], "next fields")
    s.run(run)


@harness("cadence of the first batches", NEXT, prove_ms=20000, parts=3, bounded="batches_per_flow_batch <= 3, the first seven batches")
def h2b(L, s, part):
    def run():
        y, sm = start(L)
        if sm is None:
            return
        assume(eq(y.bpf, part + 1))
        for k in range(7):
            y.stub.log.clear()
            sm.__next__()
            prove(y.stub.log == ["get_batch"] * (k % (part + 1) == 0), f"ensures batch {k} fetches exactly when the last flow fields are used up")
    s.run(run)


@harness("reset forgets the flow fields and restarts the random sequence", RST + NEXT, prove_ms=20000, parts=2)
def h3(L, s, part):
    def run():
        y, sm = start(L)
        if sm is None:
            return
        sm.__next__()
        k0 = y.gens[-1]["key"]
        sm.reset(scheduler_reset=part == 1)
        y.stub.log.clear()
        b = sm.__next__()
        prove(y.stub.log == ["get_batch"], "ensures new flow fields are fetched after a reset")
        # (the device index of the two generations differs in name only)
        a, c = y.gens[0], y.gens[-1]
        ka, kc = generic_key(a), generic_key(c)
        prove(SBool(ka == kc), "ensures the first batch after a reset has the keys of the first batch")
        pairing(y, b, y.stub.batches[-1], "after reset")
        prove(len(y.stub.batches) == 2, "ensures one fetch per batch of flow fields")
        sm.__next__()
        k3 = generic_key(y.gens[-1])
        prove(SBool(k3 != kc), "ensures the next batch has other keys")
    s.run(run)


def generic_key(g):
    dims = ctx().ghost.get("generic_dims", {})
    gs = [dims[i][0].t for i in sorted(g["generic"]) if i in dims]
    return z3.substitute(g["key"], *[(t, z3.Int(f"device{n}")) for n, t in enumerate(gs)])
