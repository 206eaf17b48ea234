"""C16: keys are used once; the sequence is a function of the seed."""
from contracts.gen import *
from contracts.samp import synthetic

NEXT = ["sampler.synthetic.SyntheticImageSampler._get_next"]
RST = ["sampler.synthetic.SyntheticImageSampler._reset", "sampler.base.Sampler.reset"]
BUDGET, MINCASES = 35, 8
NOTE = ("For every seed, configuration, batch size, number of devices and number of batches: by induction over the batches from the "
        "sampler's key state, the keys of different batches and devices lie in disjoint subtrees, and within a subtree no two draws "
        "share a key, nor draw with a key that others stem from.")
ASSUMPTIONS = ["keys are terms: jax.random.split and fold_in derive distinct keys from distinct (key, index) pairs and PRNGKey from distinct "
               "seeds (threefry collisions excluded); fold_in(key, i) and split(key)[i] are the same key, as in partitionable threefry",
               "jitted functions are pure: the same key and arguments give the same draw"]


def parts(k):
    """The key's derivation: [(index term), ...] from the outermost, and the key it starts from."""
    k = z3.simplify(k)
    path = []
    while z3.is_app(k) and k.decl().eq(Key.Child):
        path.append(k.arg(1))
        k = k.arg(0)
    return k, path[::-1]


def prefixes(k):
    """The key and all keys it stems from, up to the start."""
    b, path = parts(k)
    out = [b]
    for i in path:
        b = Key.Child(b, i)
        out.append(b)
    return out


def instance(key, gen, tag):
    """The key in another instance of the generic iteration it was used in, and the bounds of that iteration."""
    dims = ctx().ghost["generic_dims"]
    pairs, facts = [], []
    for g in sorted(gen):
        if g in dims:
            k, n = dims[g]
            c = z3.Int(f"{k.t.decl().name()}_{tag}")
            pairs.append((k.t, c))
            facts.append(and_(SBool(c >= 0), SInt(c) < n))
    return z3.substitute(key, *pairs) if pairs else key, [p[1] for p in pairs], facts


def disjoint_draws(draws, start):
    for a, (ka, key_a, _, gen_a) in enumerate(draws):
        k1, i1, f1 = instance(key_a, gen_a, "a")
        for f in f1:
            assume(f)
        base, path = parts(k1)
        if not base.eq(z3.simplify(start)):
            unsup("a key that does not stem from the given one")
        goals = []
        for b, (kb, key_b, _, gen_b) in enumerate(draws):
            k2, i2, f2 = instance(key_b, gen_b, "b")
            for f in f2:
                assume(f)
            if a == b:
                if i1:
                    goals.append(implies(or_(*[wrap(x != y) for x, y in zip(i1, i2)]), wrap(k1 != k2)))
                continue
            goals += [wrap(p != k1) for p in prefixes(k2)]
        prove(and_(*goals), f"ensures draw {a} ({ka}) is the only use of its key")


@harness("every draw of a generated batch has its own key", GEN + NOISE, prove_ms=20000, seconds=200, parts=2)
def h1(L, s, part):
    def run():
        generate(L, mask=part == 1)
        d = ctx().ghost.get("draws", [])
        prove(len(d) > 0, "ensures the images are random")
        disjoint_draws(d, root(Int("seed")).key)
    s.run(run)


def subst(k, gen, c):
    dims = ctx().ghost["generic_dims"]
    gs = [dims[i][0].t for i in gen if i in dims]
    if len(gs) > 1:
        unsup("keys that depend on more than the device")
    return z3.substitute(k, *[(g, c) for g in gs])


def incomparable(a, b):
    return and_(*[wrap(p != a) for p in prefixes(b)], *[wrap(p != b) for p in prefixes(a)])


def sampler(L, arbitrary):
    N = Int("n_devices", 1)
    y = synthetic(L, N, ffb=Int("fields_per_device", 1) * N)
    # the geometry is irrelevant here: C15
    for n in y.speeds.values():
        assume(n == 0)
    assume(and_(y.spec.p_hide_img1 == 0, y.spec.p_hide_img2 == 0, y.accepted,
                y.spec.seeding_density_range[0] == y.spec.seeding_density_range[1]))
    sm = y.build()
    R = z3.Const("state", Key)
    if arbitrary:
        if not isinstance(getattr(sm, "_rng", None), KeyArr):
            unsup("the random state is kept in another way")
        sm._rng = KeyArr((), lambda: R)
    return y, sm, N, R


@harness("batches and devices have disjoint keys", NEXT, prove_ms=20000, seconds=200, parts=2)
def h2(L, s, part):
    def run():
        y, sm, N, R = sampler(L, True)
        vars_before = dict(vars(sm))
        sm.__next__()
        if part == 1:
            # a batch served from the flow fields fetched before
            assume(y.bpf > 1)
            sm._rng = KeyArr((), lambda: R)
            # after any number of batches
            for n, v in list(vars(sm).items()):
                if isinstance(v, (int, SInt)) and not isinstance(v, bool) and n in vars_before and vars_before[n] is not v:
                    setattr(sm, n, fresh_int("counter", 1))
            sm.__next__()
        g = y.gens[-1]
        d1, d2 = Int("d1", 0, N), Int("d2", 0, N)
        k1, k2 = subst(g["key"], g["generic"], d1.t), subst(g["key"], g["generic"], d2.t)
        nxt = sm._rng.key
        for k in (k1, nxt):
            if not parts(k)[0].eq(R):
                if not {"state", "seed"} & {x.split("!")[0] for x in constants(parts(k)[0])}:
                    prove(False, "ensures the keys depend on the sampler's state: other seeds give other keys")
                unsup("a key that does not stem from the sampler's state")
        prove(implies(d1 != d2, incomparable(k1, k2)), "ensures the devices draw from disjoint subtrees of keys")
        prove(incomparable(k1, nxt), "ensures no key of this batch is used in a later one")
        prove(len(parts(nxt)[1]) > 0, "ensures the state advances")
        draws = [d for d in ctx().ghost.get("draws", [])]
        prove(draws == [], "ensures the sampler draws nothing else")
    s.run(run)


@harness("the key state is a function of the seed, also after a reset; other seeds give other keys", NEXT + RST, prove_ms=20000,
         seconds=100, parts=2)
def h3(L, s, part):
    def run():
        y, sm, N, R = sampler(L, False)
        seed = lift(y.seed)
        if not isinstance(getattr(sm, "_rng", None), KeyArr):
            unsup("the random state is kept in another way")
        k0 = sm._rng.key
        b, path = parts(k0)
        other = z3.substitute(k0, (seed, z3.Int("other_seed")))
        prove(wrap(z3.Implies(seed != z3.Int("other_seed"), k0 != other)), "ensures different seeds give different keys")
        free = constants(k0) - {seed.decl().name()}
        prove(not free, f"ensures the keys depend on the seed only")
        b1 = sm.__next__()
        sm.__next__()
        sm.reset(scheduler_reset=part == 1)
        prove(wrap(sm._rng.key == k0), "ensures a reset restarts the key sequence")
    s.run(run)


def constants(t):
    out, st = set(), [z3.simplify(t)]
    while st:
        x = st.pop()
        if z3.is_app(x) and x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        st.extend(x.children())
    return out
