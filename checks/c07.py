"""C07: the in-memory data tree behaves like an HDF5 file."""

import warnings

from hypothesis import strategies as st

from vf.core import Info, Part, check, same_array

PROPERTY = "C07"
EXTS = {}
ASSUMPTIONS = ["a dataset created where one exists replaces it (h5py refuses; replacement is the documented use in conversions)",
               "handles of deleted or replaced groups are not used again", "iteration order is not compared"]

PARTSN = ["a", "b", "c", "data"]
DTS = ["<f8", "<i4", "|u1", "<c8", "|b1", "|S4", "struct"]


@st.composite
def paths(draw):
    parts = draw(st.lists(st.sampled_from(PARTSN), min_size=1, max_size=3))
    p = "/".join(parts)
    deco = draw(st.integers(0, 9))
    if deco in (0, 1, 2):
        p = "/" + p
    elif deco == 3:
        p = p.replace("/", "//")
    return p


SHAPES = [[3], [2, 2], [1], [0], [], [2, 3, 1]]


def attr_value():
    return st.one_of(st.integers(-5, 5), st.floats(-2, 2), st.sampled_from(["x", "text", "ünï"]), st.booleans(),
                     st.lists(st.integers(0, 9), min_size=1, max_size=3))


@st.composite
def op(draw):
    k = draw(st.sampled_from(["group", "group", "dataset", "dataset", "reqgroup", "reqdataset", "get", "get", "del",
                              "contains", "attr", "attr", "delattr", "write", "write", "walk", "parent", "file"]))
    o = {"op": k, "h": draw(st.integers(0, 9)), "path": draw(paths())}
    if k in ("group", "reqgroup", "get", "contains", "del") and draw(st.integers(0, 9)) == 0:
        o["path"] += "/"
    if k in ("get", "contains") and draw(st.integers(0, 14)) == 0:
        o["path"] = "/"
    if k in ("dataset", "reqdataset"):
        o["shape"] = draw(st.sampled_from(SHAPES))
        o["dtype"] = draw(st.sampled_from(DTS))
        o["how"] = draw(st.sampled_from(["data", "data", "shape", "both", "cast", "F"]))
        o["seed"] = draw(st.integers(0, 50))
    if k in ("attr", "delattr"):
        o["key"] = draw(st.sampled_from(["u", "v", "w"]))
        o["value"] = draw(attr_value())
    if k == "write":
        o["ix"] = draw(st.sampled_from(["all", "first", "tail", "ellipsis"]))
        o["seed"] = draw(st.integers(0, 50))
    return o


@st.composite
def histories(draw):
    return {"ops": draw(st.lists(op(), min_size=3, max_size=25)),
            "as": draw(st.sampled_from(["group", "group", "group", "container", "wrapped", "file"]))}


def content(shape, dtype, seed):
    import numpy as np

    n = int(np.prod(shape)) if shape else 1
    b = np.arange(n) * 3 + seed
    if dtype == "struct":
        a = np.zeros(n, dtype=[("a", "<i4"), ("x", "<f8"), ("data", "S2")])
        a["a"], a["x"], a["data"] = b, b * 0.5, (b % 90).astype("S2")
    elif dtype == "|b1":
        a = b % 2 == 0
    elif dtype == "|u1":
        a = (b % 200).astype("u1")
    elif dtype[1] == "S":
        a = b.astype(dtype)
    else:
        a = b.astype(dtype)
    return a.reshape(shape)


def tree(g, is_group):
    """{path: entry} of everything below g, and the attributes."""
    import numpy as np

    out = {}

    def attrs(o):
        return {k: o.attrs[k] for k in o.attrs}

    def walk(o, path):
        out[path] = ("group", None, attrs(o))
        for k in o:
            c = o[k]
            p = path.rstrip("/") + "/" + k
            check(c.name == p, "%s[%s] is called %s", path, k, c.name)
            check(c.parent.name == path, "the parent of %s is %s", p, c.parent.name)
            if is_group(c):
                walk(c, p)
            else:
                out[p] = ("dataset", np.array(c[()]), attrs(c))

    walk(g, g.name)
    return out


def compare(m, h, where):
    import h5py
    from caput.memdata import MemDiskGroup, MemGroup

    a = tree(m, lambda o: isinstance(o, (MemGroup, MemDiskGroup, h5py.Group)))
    b = tree(h, lambda o: isinstance(o, h5py.Group))
    check(set(a) == set(b), "%s: the tree has %s, expected %s", where, sorted(a), sorted(b))
    for k in b:
        check(a[k][0] == b[k][0], "%s: %s is a %s, expected a %s", where, k, a[k][0], b[k][0])
        if b[k][0] == "dataset":
            same_array(a[k][1], b[k][1], f"{where}: {k}")
        same_attrs(a[k][2], b[k][2], f"{where}: attributes of {k}")


def same_attrs(a, b, where):
    import numpy as np

    check(set(a) == set(b), "%s are %s, expected %s", where, sorted(a), sorted(b))
    for k in b:
        x, y = np.asarray(a[k]), np.asarray(b[k])
        check(x.shape == y.shape and (x == y).all(), "%s: %s is %r, expected %r", where, k, a[k], b[k])


def run(case, ctx):
    import h5py
    import numpy as np
    from caput.memdata import MemDiskGroup, MemGroup

    warnings.simplefilter("ignore")
    H = h5py.File("x", "w", driver="core", backing_store=False)
    F = None
    try:
        if case["as"] == "group":
            M = MemGroup()
        elif case["as"] == "container":
            M = MemDiskGroup()
        elif case["as"] == "wrapped":
            M = MemDiskGroup(MemGroup())
        else:
            F = h5py.File("y", "w", driver="core", backing_store=False)
            M = MemDiskGroup(F)
            check(M.ondisk, "not on disk")
        return _run(case, M, H, (MemGroup, MemDiskGroup), h5py, np)
    finally:
        H.close()
        if F is not None:
            F.close()


def _run(case, M, H, memgroups, h5py, np):
    groups = [(M, H)]
    dsets = []
    done = refused = 0
    isg = lambda o: isinstance(o, (*memgroups, h5py.Group))  # noqa: E731

    def both(what, fm, fh):
        """Runs it on both; -> (results) or None when both refuse."""
        eh = em = None
        try:
            rh = fh()
        except Exception as e:  # noqa: BLE001
            eh = e
        try:
            rm = fm()
        except Exception as e:  # noqa: BLE001
            em = e
        check((eh is None) == (em is None), "%s: %s in memory, %s in the file", what,
              f"{type(em).__name__}: {em}" if em else "accepted", f"{type(eh).__name__}: {eh}" if eh else "accepted")
        if eh is not None:
            return None
        return rm, rh

    def keep(r):
        m, h = r
        check(isg(m) == isg(h), "a %s, expected a %s", type(m).__name__, type(h).__name__)
        check(m.name == h.name, "called %s, expected %s", m.name, h.name)
        (groups if isg(h) else dsets).append((m, h))

    for o in case["ops"]:
        k = o["op"]
        # groups that were deleted are not used any more
        groups = [(m, h) for m, h in groups if h.name is not None and h.name in H and H[h.name] == h]
        m, h = groups[o["h"] % len(groups)]
        p = o["path"]
        what = f"{k} {p!r} in {h.name}"
        if k == "group":
            r = both(what, lambda: m.create_group(p), lambda: h.create_group(p))
            if r:
                keep(r)
        elif k == "reqgroup":
            r = both(what, lambda: m.require_group(p), lambda: h.require_group(p))
            if r:
                keep(r)
        elif k in ("dataset", "reqdataset"):
            data = content(o["shape"], o["dtype"], o["seed"])
            if o["how"] == "F":
                data = np.asfortranarray(data)
            if k == "reqdataset":
                try:
                    old = h[p]
                except KeyError:
                    old = None
                shape, dtype = (tuple(o["shape"]), data.dtype)
                if isinstance(old, h5py.Dataset):
                    # (what happens when it exists with another shape or type is not compared)
                    shape, dtype = old.shape, old.dtype
                r = both(what, lambda: m.require_dataset(p, shape=shape, dtype=dtype),
                         lambda: h.require_dataset(p, shape=shape, dtype=dtype))
            else:
                kw = {"data": data}
                if o["how"] == "shape":
                    kw = {"shape": data.shape, "dtype": data.dtype}
                elif o["how"] == "both":
                    kw["shape"], kw["dtype"] = data.shape, data.dtype
                elif o["how"] == "cast" and o["dtype"] in ("<i4", "|u1", "|b1", "<f8", "<c8") and data.ndim:
                    kw["dtype"] = {"<f8": "<f4", "<c8": "<c16", "<i4": ("<i8", "<f8")[o["seed"] % 2]}.get(o["dtype"], "<f8")
                kwm = {**kw, "data": data.copy("K")} if "data" in kw else kw
                # a dataset in the way is replaced in memory
                full = p if p.startswith("/") else h.name.rstrip("/") + "/" + p
                try:
                    if isinstance(H[full], h5py.Dataset) and case["as"] != "file":
                        del H[full]
                except KeyError:
                    pass
                r = both(what, lambda: m.create_dataset(p, **kwm), lambda: h.create_dataset(p, **kw))
            if r:
                keep(r)
                same_array(np.array(r[0][()]), np.array(r[1][()]), what)
                check(r[0].shape == r[1].shape and r[0].dtype == r[1].dtype, "%s: shape or type differ", what)
        elif k == "get":
            r = both(what, lambda: m[p], lambda: h[p])
            if r:
                keep(r)
            g = m.get(p)
            check((g is None) == (h.get(p) is None), "%s: get gave %r", what, g)
        elif k == "contains":
            r = both(what, lambda: p in m, lambda: p in h)
            check(r[0] == r[1], "%s: %s, expected %s", what, *r)
        elif k == "del":
            def dele(g):
                del g[p]
                return True

            r = both(what, lambda: dele(m), lambda: dele(h))
        elif k in ("attr", "delattr"):
            pool = groups + dsets
            m, h = pool[o["h"] % len(pool)]
            what = f"{k} {o['key']} of {h.name}"
            if k == "attr":
                v = o["value"]
                m.attrs[o["key"]] = v
                h.attrs[o["key"]] = v
                r = True
            else:
                def dela(g):
                    del g.attrs[o["key"]]
                    return True

                r = both(what, lambda: dela(m), lambda: dela(h))
            same_attrs(m.attrs, h.attrs, what)
            check(len(m.attrs) == len(h.attrs) and (o["key"] in m.attrs) == (o["key"] in h.attrs), "%s", what)
        elif k == "write":
            if not dsets:
                continue
            m, h = dsets[o["h"] % len(dsets)]
            ix = {"all": slice(None), "first": 0, "tail": slice(1, None), "ellipsis": Ellipsis}[o["ix"]]
            if not h.shape or (o["ix"] == "first" and h.shape[0] == 0):
                ix = ()
            dt = "struct" if h.dtype.names else h.dtype.str
            v = content(np.empty(h.shape)[ix].shape, dt, o["seed"])
            m[ix] = v
            h[ix] = v
            r = True
            what = f"write [{ix}] to {h.name}"
            same_array(np.array(m[ix]), np.array(h[ix]), what)
        elif k in ("parent", "file"):
            live = [(m, h) for m, h in groups + dsets if h.name is not None and h.name in H and H[h.name] == h]
            m, h = live[o["h"] % len(live)]
            r = getattr(m, k), getattr(h, k)
            keep(r)
        else:
            r = True
            for m, h in groups:
                check(len(m) == len(h) and set(m) == set(h) and set(m.keys()) == set(h.keys()),
                      "%s lists %s, expected %s", h.name, sorted(m), sorted(h))
                check({k: v.name for k, v in m.items()} == {k: v.name for k, v in h.items()}, "items of %s", h.name)
        done += r is not None
        refused += r is None
        compare(M, H, what)
        # objects obtained earlier still refer to their data
        for m, h in dsets:
            same_array(np.array(m[()]), np.array(h[()]), f"{what}: a dataset obtained earlier")
            same_attrs(m.attrs, h.attrs, f"{what}: a dataset obtained earlier: attributes")
            if h.ndim:
                check(len(m) == len(h), "%s: length of a dataset", what)
                same_array(np.array(list(m), dtype=h.dtype).reshape(h.shape), np.array(h[()]), f"{what}: iterating over a dataset")
            same_array(np.array(m), np.array(h[()], dtype=h.dtype), f"{what}: a dataset as an array")
            check(m != M and m != 5 and (m.name or "").split("/")[-1] in repr(m), "%s: a dataset equals something else", what)
            if h.name is not None and h.name in H and H[h.name] == h:
                check(m == M[h.name], "%s: a dataset is not equal to itself", what)
        for m, h in groups:
            if h.name is not None and h.name in H and H[h.name] == h:
                check(m.name == h.name and m.parent.name == h.parent.name and m.file.name == "/", "%s: names", what)
                same_attrs(m.attrs, h.attrs, f"{what}: a group obtained earlier: attributes")
                for m2, h2 in groups:
                    if type(m) is type(m2) and h2.name is not None and h2.name in H and H[h2.name] == h2:
                        check((m == m2) == (h == h2) and (m != m2) == (h != h2), "%s: %s and %s are%s the same group", what, h.name, h2.name, " not" * (h != h2))
    return Info(done >= 3, (["refusals"] if refused else []) + sorted({o["op"] for o in case["ops"]}))


PARTS = [
    Part("histories", histories, run, quick=700, shards=4,
         rule="up to 25 operations on groups, datasets and attributes by relative and absolute paths, applied to the "
              "in-memory tree and to an h5py file in step, whole trees compared after each; non-trivial: at least three "
              "operations accepted"),
]
