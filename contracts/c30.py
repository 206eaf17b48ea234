"""C30: sharding over devices."""
from contracts.samp import *

NEXT = ["sampler.synthetic.SyntheticImageSampler._get_next", "sampler.synthetic.SyntheticImageSampler.__init__"]
BUDGET, MINCASES = 25, 8
NOTE = "For every number of devices, every list of device ids, every batch size and configuration."
ASSUMPTIONS = ["flow_field_adapter by C24's and C20's contract, generate_images_from_flow by C19's, each on the local part of a device",
               "jax.shard_map and NamedSharding: device d of n holds the d-th of n equal contiguous parts of every sharded array",
               "device ids are non-negative and distinct; flow_fields_per_batch is a multiple of the number of devices (jax refuses others)"]


def requested(N):
    n = Int("n_ids", 0)
    f = z3.Function("device_id", z3.IntSort(), z3.IntSort())
    ctx().axiom(f, lambda t: [t >= 0])
    return n, f, SList(SymSeq(n, lambda i: wrap(f(lift(i)))))


@harness("only the requested valid devices are used", NEXT, prove_ms=20000)
def h1(L, s):
    def run():
        N = Int("n_devices", 1)
        n, ids, req = requested(N)
        y = synthetic(L, N, device_ids=req)
        i = Int("i", 0, n)
        valid = wrap(ids(i.t)) < N
        e, sm = raises(y.build)
        if e is not None:
            if not isinstance(e, ValueError):
                prove(False, "ensures only ValueError is raised")
            return
        q = z3.Int("q")
        some = SBool(z3.Exists([q], z3.And(q >= 0, q < n.t, ids(q) < N.t)))
        prove(some, "ensures a configuration without a valid device is rejected")
        raises(sm.__next__)
        for m in ctx().ghost["meshes"]:
            dev = m.devices
            if isinstance(dev, SList):
                dev = dev.seq
            if not isinstance(dev, SymSeq):
                unsup("devices kept in another form")
            k = Int("k", 0, dev.n)
            d = lift(dev.get(k).id)
            prove(SBool(z3.Exists([q], z3.And(q >= 0, q < n.t, ids(q) == d))), "ensures every device used is requested")
            prove(and_(SBool(d >= 0), SBool(d < N.t)), "ensures every device used exists")
            w = z3.Int("w")
            dw = lift(dev.get(wrap(w)).id)
            prove(implies(valid, SBool(z3.Exists([w], z3.And(w >= 0, w < lift(dev.n), dw == ids(i.t))))),
                  "ensures every requested valid device is used")
    s.run(run)


@harness("a list of ids of which none exists is rejected, otherwise the configuration decides", NEXT, prove_ms=20000, parts=2)
def h2(L, s, part):
    def run():
        N = Int("n_devices", 1)
        if part == 0:
            n, ids, req = requested(N)
        y = synthetic(L, N, device_ids=req if part == 0 else None)
        e, sm = raises(y.build)
        if e is None:
            return
        if part == 0:
            q = z3.Int("q")
            prove(implies(y.accepted, SBool(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n.t), ids(q) >= N.t)))),
                  "ensures a valid configuration with a valid device is accepted")
        else:
            prove(not_(y.accepted), "ensures a valid configuration is accepted on all devices")
    s.run(run)


@harness("parts of the devices: size, keys and pairing", NEXT, prove_ms=20000, parts=3, seconds=200)
def h3(L, s, part):
    def run():
        N = Int("n_devices", 1)
        m = Int("fields_per_device", 1)
        y = synthetic(L, N, ffb=m * N)
        B0 = y.B
        e, sm = raises(y.build)
        if e is not None:
            return
        b = sm.__next__()
        sp, src = y.spec, y.stub.batches[0]
        g = y.gens[-1]
        dims = ctx().ghost["generic_dims"]
        gs = [dims[i][0].t for i in g["generic"] if i in dims]
        if len(gs) != 1:
            unsup("the images are not generated once per device")
        key = lambda d: z3.substitute(g["key"], (gs[0], lift(d)))
        d1, d2 = Int("d1", 0, N), Int("d2", 0, N)
        prove(implies(d1 != d2, SBool(key(d1) != key(d2))), "ensures the devices have different keys")
        B = size(b.images1.shape[0])
        prove(and_(B >= B0, B < B0 + N), "ensures the requested size, rounded up")
        prove(eq(B % N, 0), "ensures a multiple of the number of devices")
        per = g["parameters"].batch_size
        prove(eq(per * N, B), "ensures equal parts")
        i = Int("i", 0, per)
        k = (d1, i)
        q = size(g["flow"].shape[0])
        prove(eq(q, m), "ensures each device holds an equal part of the flow fields")
        j = d1 * m + i % m
        ident = src.flow.fn(j, 0, 0, 0)
        yy, xx = Int("y", 0, sp.image_shape[0]), Int("x", 0, sp.image_shape[1])
        f = b.flow_fields
        c = Int("c", 0, 2)
        if part == 2:
            for n in y.PAR:
                p = getattr(b.params, n)
                prove(eq(size(p.shape[0]), B), f"ensures one {n} per image")
                idx = (k,) if n == "seeding_densities" else (k, c)
                prove(eq(at(p, *idx), wrap(y.PAR[n](key(d1), i.t, c.t if len(idx) == 2 else z3.IntVal(0)))),
                      f"ensures {n} comes from the same device")
            return
        if part == 1:
            for n, im in enumerate((b.images1, b.images2)):
                prove(eq(size(im.shape[0]), B), "ensures one image per position")
                prove(eq(at(im, k, yy, xx), wrap(y.IM[n](key(d1), lift(ident), i.t, yy.t, xx.t))),
                      f"ensures image {n + 1} comes from the same device and flow field")
            return
        u, v = Int("u", 0, f.shape[1]), Int("v", 0, f.shape[2])
        prove(eq(size(f.shape[0]), B), "ensures one flow field per image")
        prove(eq(at(f, k, u, v, c), wrap(y.OUT(lift(ident), u.t, v.t, c.t))), "ensures the flow field of the device's part")
        prove(and_(eq(g["res_x"], wrap(lift(y.stub.fw)) / y.size[1]), eq(g["res_y"], wrap(lift(y.stub.fh)) / y.size[0])),
              "ensures the flow field's own resolution on every device")
    s.run(run)
