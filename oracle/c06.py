import jax
from PIL import Image

from lib import *
from synthpix.scheduler import NumpyFlowFieldScheduler


def cases(rng, tier):
    F = {"fixed": True}
    yield {**F, "dirs": True}
    yield {**F, "flows": [[0, 1], [0, 2], [0, 3]], "images": True}
    yield {**F, "flows": [[0, 0], [0, 1], [0, 10], [0, 99], [0, 100]], "images": True}
    yield {**F, "flows": [[0, 1], [1, 1], [0, 7], [1, 12]], "images": True}
    yield {**F, "flows": [[0, 1], [1, 1], [0, 7], [1, 12]], "images": False, "noimg": True}
    yield {**F, "flows": [[0, 5], [0, 6]], "images": True, "gone": [[0, 6]]}
    yield {**F, "flows": [[0, 5], [0, 6]], "images": True, "gone": [[0, 4]]}
    yield {**F, "flows": [[0, 5], [1, 5], [0, 9]], "images": True, "gone": [[1, 5]]}
    yield {**F, "flows": [[0, 5], [1, 5], [0, 9]], "images": True, "gone": [[0, 8]]}
    yield {**F, "flows": [[0, 5], [0, 6]], "images": False, "gone": [[0, 4], [0, 5], [0, 6]]}
    yield {**F, "flows": [[1, 9], [0, 7], [0, 30], [1, 2]], "images": False, "sizes": 2}
    yield {**F, "flows": [[1, 9], [0, 7], [0, 30], [1, 2]], "images": False, "sizes": 2, "random": True}
    yield {**F, "flows": [[0, 100], [0, 7], [0, 30]], "images": False, "sizes": 2}
    for bad in ("flow_x.npy", "xflow_3.npy", "flow_3.npy.npy", "flow_.npy", "flow_-3.npy", "flow3.npy", "flow_3_.npy"):
        yield {**F, "flows": [[0, 3], [0, 4]], "images": True, "bad": bad}
    yield {**F, "flows": [[0, 3], [0, 4]], "images": False, "bad": "any.npy"}
    yield {**F, "flows": [[0, 3], [0, 4], [0, 3], [0, 3]], "images": True}
    yield {**F, "flows": [[0, 12], [0, 345], [0, 1000001]], "images": True, "random": True}
    while True:
        fl = [[rng.randint(0, 2), rng.choice([0, 1, 2, 3, 9, 10, 11, 42, 100, 12345])] for _ in range(rng.randint(1, 6))]
        c = {"flows": fl, "images": rng.random() < .7, "random": rng.random() < .3}
        if rng.random() < .3:
            d, t = rng.choice(fl)
            c["gone"] = [[d, t - rng.randint(0, 1)]]
        elif rng.random() < .15:
            c["bad"] = rng.choice(["flow_x.npy", "flow_7b.npy", "f_7.npy", "flow_7.5.npy"])
        yield c


def check(case):
    if case.get("dirs"):
        write = lambda p: np.save(p, np.zeros((2, 2, 2), np.float32))
        return listed_directories(lambda x: NumpyFlowFieldScheduler(x), ".npy", write, ("flow_2", "flow_10"), deep=False)
    with Tmp() as d:
        r = np.random.RandomState(7)
        data, paths, pix = {}, [], {}
        os.mkdir(os.path.join(d, "img_0.jpg_dir"))
        for k, (f, t) in enumerate(case["flows"]):
            sub = os.path.join(d, f"seq_{f}7")
            os.makedirs(sub, exist_ok=True)
            p = os.path.join(sub, f"flow_{t}.npy")
            if p not in data:
                data[p] = r.randn(4 + case.get("sizes", 0) * k, 5, 2).astype([np.float32, np.float64][t % 2])
                np.save(p, data[p])
            paths.append(p)
            for u in (t - 1, t):
                q = os.path.join(sub, f"img_{u}.jpg")
                if not case.get("noimg") and not os.path.exists(q):
                    Image.fromarray(r.randint(0, 256, (4, 5)).astype(np.uint8)).save(q)
        for f, t in case.get("gone", []):
            q = os.path.join(d, f"seq_{f}7", f"img_{t}.jpg")
            if os.path.exists(q):
                os.remove(q)
        if case.get("bad"):
            p = os.path.join(os.path.dirname(paths[0]), case["bad"])
            data[p] = np.zeros((4, 5, 2), np.float32)
            np.save(p, data[p])
            paths.insert(1, p)
        ok = not case["images"] or not (case.get("gone") or case.get("bad"))
        try:
            s = NumpyFlowFieldScheduler(paths, include_images=case["images"], randomize=case.get("random", False), loop=False, key=jax.random.PRNGKey(1))
        except Exception as e:
            return f"construction fails: {type(e).__name__} {e}" if ok else None
        if not ok:
            return f"construction succeeds although {'an image is missing: ' + str(case['gone']) if case.get('gone') else case['bad'] + ' is off the pattern'}"
        def reported():
            sh = tuple(s.get_flow_fields_shape())
            want = data[s.file_list[0]].shape
            return f"get_flow_fields_shape is {sh}, the array of {os.path.basename(s.file_list[0])} has shape {want}" if sh != want else None
        if bad := reported():
            return bad
        for p in list(s.file_list):
            try:
                it = next_item(s)
            except StopIteration:
                return f"StopIteration before {os.path.basename(p)}"
            if tuple(it.files or ()) != (p,):
                return f"{p} is labelled {it.files}"
            g = np.asarray(it.flow_fields)
            if g.dtype != data[p].dtype or not np.array_equal(g, data[p]):
                return f"{os.path.basename(p)}: the array is not served unchanged"
            for name, off in (("images1", 1), ("images2", 0)):
                im = getattr(it, name)
                if not case["images"]:
                    if im is not None:
                        return f"{name} appears"
                    continue
                t = int(os.path.basename(p)[5:-4])
                q = os.path.join(os.path.dirname(p), f"img_{t - off}.jpg")
                want = np.array(Image.open(q).convert("RGB"))
                im = None if im is None else np.asarray(im)
                if im is not None and im.ndim == 2:
                    im = np.stack([im] * 3, -1)
                if im is None or not np.array_equal(im, want):
                    return f"{os.path.basename(p)}: {name} is not {os.path.basename(q)} of the same folder"
            if bad := reported():
                return bad
        try:
            next_item(s)
            return "an item after the last file"
        except StopIteration:
            pass
    return None
