"""Generated data trees, their construction and an independent comparison (used by C08-C10)."""

import datetime
import math

from hypothesis import strategies as st

from vf.core import check, same_array

NAMES = ["a", "b", "c", "data", "index_map", "ünï"]
NUM = ["<f8", "<f4", "<i4", "<i8", "|u1", "<c8", "<c16", "|b1", "<i2", "<u8", ">f8", ">i4", "struct", "nested"]
SHAPES = [[3], [2, 2], [1], [0], [], [2, 3, 1], [5, 4], [7], [2, 0, 3], [0, 3]]
TEXT = "abcXYZ 019_-"
UNI = st.text(st.characters(blacklist_categories=("Cs",), blacklist_characters="\0"), max_size=6)


def json_value():
    leaf = st.one_of(st.none(), st.booleans(), st.integers(-(2**60), 2**60), st.floats(allow_nan=True).map(lambda x: ["f", repr(x)]),
                     UNI.map(lambda s: ["s", s]))
    return st.recursive(leaf, lambda ch: st.one_of(
        st.lists(ch, max_size=3).map(lambda v: ["l", v]),
        st.lists(st.tuples(UNI, ch).map(list), max_size=3).map(lambda v: ["d", v])), max_leaves=8)


def attr_value(zarr=True):
    """[kind, payload]: a JSON description of an attribute value."""
    kinds = [
        st.integers(-(2**63), 2**63 - 1).map(lambda v: ["int", v]),
        st.floats().map(lambda v: ["float", repr(v)]),
        st.booleans().map(lambda v: ["bool", v]),
        UNI.map(lambda v: ["str", v]),
        UNI.map(lambda v: ["bytes", v]),
        st.tuples(st.sampled_from(["<i4", "<f4", "<f8", "<u2", "|b1"]), st.integers(0, 100)).map(lambda v: ["npscalar", list(v)]),
        st.tuples(st.sampled_from(["<i4", "<f4", "<f8", "<i8", "|b1", "|u1"]), st.sampled_from([[1], [3], [0], [2, 2], [1, 1], [1, 3], []]),
                  st.integers(0, 100)).map(lambda v: ["array", list(v)]),
        st.lists(UNI, min_size=1, max_size=3).map(lambda v: ["uarray", v]),
        st.lists(UNI, min_size=1, max_size=3).map(lambda v: ["slist", v]),
        st.lists(st.integers(-9, 9), min_size=1, max_size=3).map(lambda v: ["ilist", v]),
        st.lists(st.floats(-9, 9), min_size=1, max_size=3).map(lambda v: ["ituple", v]),
        st.lists(st.tuples(UNI, json_value()).map(list), max_size=3).map(lambda v: ["dict", v]),
        st.lists(st.tuples(UNI, json_value()).map(list), max_size=3).map(lambda v: ["dict", v]),
        st.tuples(st.sampled_from(["npint", "npfloat", "npbool", "nparray", "nparray1", "date", "bytes", "tuple"]), st.integers(0, 50)).map(
            lambda v: ["dictof", list(v)]),
        st.integers(0, 10**6).map(lambda v: ["date", v]),
    ]
    if not zarr:
        kinds += [st.tuples(st.floats(-5, 5), st.floats(-5, 5)).map(lambda v: ["complex", list(v)]),
                  st.integers(0, 50).map(lambda v: ["carray", v])]
    return st.one_of(kinds)


def jbuild(v):
    if isinstance(v, list):
        k, x = v
        if k == "f":
            return float(x)
        if k == "s":
            return x
        if k == "l":
            return [jbuild(y) for y in x]
        return {a: jbuild(b) for a, b in x}
    return v


def build_attr(v):
    import numpy as np

    k, x = v
    if k in ("int", "bool", "str", "slist", "ilist"):
        return list(x) if isinstance(x, list) else x
    if k == "float":
        return float(x)
    if k == "bytes":
        return x.encode()
    if k == "npscalar":
        return np.dtype(x[0]).type(x[1])
    if k == "array":
        return content(x[1], x[0], x[2])
    if k == "uarray":
        return np.array(x, dtype="U8")
    if k == "ituple":
        return tuple(x)
    if k == "dict":
        return {a: jbuild(b) for a, b in x}
    if k == "date":
        return datetime.datetime(2020, 1, 1, 3, 4, 5, 678) + datetime.timedelta(hours=x)
    if k == "complex":
        return complex(*x)
    if k == "carray":
        return content([2], "<c16", x)
    what, n = x  # dictof
    return {"k": {"npint": np.int32(n), "npfloat": np.float32(n / 4), "npbool": np.bool_(n % 2), "nparray": np.arange(n % 4) + n,
                  "nparray1": np.array([n]), "date": datetime.datetime(2021, 2, 3) + datetime.timedelta(n), "bytes": b"x%d" % n,
                  "tuple": (n, "t")}[what], "other": [1, {"z": "w"}]}


def plain(v):
    """The value an attribute stands for, apart from the container types the formats merge."""
    import numpy as np

    if isinstance(v, np.generic):
        v = v.item()
    if isinstance(v, np.ndarray):
        v = v.tolist()
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, bytes):
        return v.decode()
    if isinstance(v, datetime.datetime):
        return v.isoformat()
    return v


def same_plain(a, b):
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(same_plain(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and a.keys() == b.keys() and all(same_plain(a[k], b[k]) for k in a)
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return True
    if type(a) is not type(b):
        return False
    return a == b


@st.composite
def dataset(draw, strings=False):
    d = {"dtype": draw(st.sampled_from([*NUM, "|S4", "S_struct"] + (["<U4", "U_struct", "<U4"] if strings else []))),
         "shape": draw(st.sampled_from(SHAPES)), "seed": draw(st.integers(0, 1000)), "F": draw(st.integers(0, 5)) == 0}
    if d["shape"] and 0 not in d["shape"]:
        if draw(st.integers(0, 2)) == 0:
            d["chunks"] = [draw(st.integers(1, n)) for n in d["shape"]]
        d["comp"] = draw(st.sampled_from([None, None, None, ["gzip", 4], ["bitshuffle", [None, "lz4"]], ["bitshuffle", [0, "lz4"]], ["bitshuffle", [0, "2"]]]))
    return d


@st.composite
def trees(draw, zarr=True, strings=False, maxn=8):
    """A list of [path, dataset description or None for a group, attributes]."""
    ents, used = [], {"": "g"}
    n = draw(st.integers(1, maxn))
    for _ in range(n):
        parts = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=3))
        p = "/".join(parts)
        if p in used or any(used.get("/".join(parts[:i])) == "d" for i in range(1, len(parts))):
            continue
        isd = draw(st.integers(0, 2)) > 0 and not any(q.startswith(p + "/") for q in used)
        for i in range(1, len(parts)):
            used["/".join(parts[:i])] = "g"
        used[p] = "d" if isd else "g"
        ents.append([p, draw(dataset(strings)) if isd else None, draw(attrs(zarr))])
    root = draw(attrs(zarr))
    return {"ents": ents, "attrs": root}


@st.composite
def attrs(draw, zarr=True):
    if draw(st.integers(0, 1)):
        return []
    ks = draw(st.lists(st.sampled_from(["u", "v", "w", "x y", "é", "_p", "__q"]), max_size=3, unique=True))
    return [[k, draw(attr_value(zarr))] for k in ks]


def content(shape, dtype, seed):
    """Distinctive data, including special floats."""
    import numpy as np

    n = int(np.prod(shape)) if shape else 1
    b = np.arange(n) * 3 + seed
    if dtype in ("struct", "nested", "S_struct", "U_struct"):
        t = "U3" if dtype == "U_struct" else "S3"
        fields = [("a", "<i4"), ("x", "<f8")]
        if dtype == "nested":
            fields += [("n", [("p", "<c8"), ("q", "<i2", (2,))])]
        if dtype[0] in "SU":
            fields += [("t", t)]
        a = np.zeros(n, dtype=fields)
        a["a"], a["x"] = b, b * 0.5
        if dtype == "nested":
            a["n"]["p"] = b * (1 + 2j)
            a["n"]["q"] = b[:, None] + np.array([0, 7])
        if dtype[0] in "SU":
            a["t"] = (b % 900).astype(t)
    elif dtype == "|b1":
        a = b % 2 == 0
    elif dtype == "|u1":
        a = (b % 200).astype("u1")
    elif dtype[1] in "SU":
        a = (b % 9999).astype(dtype)
    else:
        a = (b - 20).astype(dtype) if dtype != "<u8" else (b.astype("u8") + np.uint64(2**63))
        if a.dtype.kind in "fc" and n > 2:
            a = a * a.dtype.type(0.37)
            a[1] = np.nan
            a[2] = -np.inf if seed % 2 else -0.0
        if dtype[0] == ">":
            a = a.astype(dtype)
    return a.reshape(shape)


def make(t, g, attr=build_attr):
    """Create the tree below group g of the code under test."""
    import numpy as np

    for k, v in t["attrs"]:
        g.attrs[k] = attr(v)
    for p, d, at in t["ents"]:
        if d is None:
            o = g.require_group(p)
        else:
            a = content(d["shape"], d["dtype"], d["seed"])
            if d["F"]:
                a = np.asfortranarray(a) if a.ndim else a
            kw = {}
            if d.get("chunks"):
                kw["chunks"] = tuple(d["chunks"])
            if d.get("comp"):
                kw["compression"] = d["comp"][0]
                kw["compression_opts"] = tuple(d["comp"][1]) if isinstance(d["comp"][1], list) else d["comp"][1]
            o = g.create_dataset(p, data=a, **kw)
        for k, v in at:
            o.attrs[k] = attr(v)


def model(t):
    """{path: [array or None, {attribute: value}]} including the implied groups."""
    out = {"/": [None, {k: build_attr(v) for k, v in t["attrs"]}]}
    for p, d, at in t["ents"]:
        parts = p.split("/")
        for i in range(1, len(parts)):
            out.setdefault("/" + "/".join(parts[:i]), [None, {}])
        q = "/" + p
        out.setdefault(q, [None, {}])
        if d is not None:
            out[q][0] = content(d["shape"], d["dtype"], d["seed"])
        out[q][1].update({k: build_attr(v) for k, v in at})
    return out


def walk(g):
    """The same of an actual tree (memory, h5py or zarr)."""
    import numpy as np

    out = {}

    def rec(o, p):
        out[p] = [None, {k: o.attrs[k] for k in o.attrs}]
        for k in o:
            c = o[k]
            q = p.rstrip("/") + "/" + k
            if hasattr(c, "create_group"):
                rec(c, q)
            else:
                out[q] = [np.array(c[...]), {a: c.attrs[a] for a in c.attrs}]

    rec(g, "/")
    return out


def same_walk(a, b):
    """Whether two trees have the same groups and the same attributes and bits."""
    import numpy as np

    x, y = walk(a), walk(b)
    return set(x) == set(y) and all(
        (u is None) == (v is None) and (u is None or (u.dtype == v.dtype and u.shape == v.shape and np.array_equal(u.view(np.ndarray), v.view(np.ndarray)) or u.tobytes() == v.tobytes()))
        and same_plain(plain(p), plain(q))
        for (u, p), (v, q) in ((x[k], y[k]) for k in x)
    )


def compare(got, want, where, ignore=(), text=None, exact_attrs=False):
    """text: 'U' when all text in datasets is expected as unicode."""
    import numpy as np

    check(set(got) == set(want), "%s: the tree has %s, expected %s", where, sorted(got), sorted(want))
    for p in want:
        (a, at), (b, bt) = got[p], want[p]
        check((a is None) == (b is None), "%s: %s changed between group and dataset", where, p)
        if b is not None:
            b = native(b, np)
            if text:
                b = b.astype(retext(b.dtype, np))
            same_array(native(a, np), b, f"{where}: {p}")
            if a.dtype.names is None and a.dtype.kind in "fc":
                check(np.ascontiguousarray(native(a, np)).tobytes() == np.ascontiguousarray(b).tobytes(), "%s: the bits of %s changed", where, p)
        keys = set(at) - set(ignore)
        check(keys == set(bt) - set(ignore), "%s: the attributes of %s are %s, expected %s", where, p, sorted(keys), sorted(bt))
        for k in keys:
            x, y = at[k], bt[k]
            if not exact_attrs:
                x, y = plain(x), plain(y)
            check(same_plain(x, y) if not exact_attrs else same_exact(x, y), "%s: attribute %s of %s is %r, expected %r", where, k, p, at[k], bt[k])


def same_exact(x, y):
    import numpy as np

    if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
        return type(x) is type(y) and x.dtype == y.dtype and x.shape == y.shape and np.array_equal(x, y, equal_nan=x.dtype.kind in "fc")
    if type(x) is not type(y):
        return False
    if isinstance(x, (list, tuple)):
        return len(x) == len(y) and all(same_exact(a, b) for a, b in zip(x, y))
    if isinstance(x, dict):
        return x.keys() == y.keys() and all(same_exact(x[k], y[k]) for k in x)
    if isinstance(x, (float, np.floating)) and math.isnan(x) and math.isnan(y):
        return True
    return bool(x == y)


def native(a, np):
    return a.astype(a.dtype.newbyteorder("="))


def retext(dt, np):
    if dt.names:
        return np.dtype([(n, retext(dt[n], np)) for n in dt.names])
    if dt.subdtype:
        return np.dtype((retext(dt.subdtype[0], np), dt.subdtype[1]))
    if dt.kind == "S":
        return np.dtype("U%d" % dt.itemsize)
    return dt
