"""C34: array decorators, ordered unique, array cache."""

import math
from collections import OrderedDict

from hypothesis import strategies as st

from vf.core import Info, Part, check, same_array

PROPERTY = "C34"
EXTS = {}
ASSUMPTIONS = ["a 0-dimensional array counts as a scalar"]

NUM = st.integers(-20, 20)


@st.composite
def deco(draw):
    n = draw(st.integers(0, 4))
    kinds = ["int", "float", "np", "list", "tuple", "arr", "col", "mat", "zero"]

    def arg():
        k = draw(st.sampled_from(kinds))
        m = {"int": 1, "float": 1, "np": 1, "zero": 1, "col": n, "mat": 2 * n}.get(k, n)
        return [k, draw(st.lists(NUM, min_size=m, max_size=m))]

    return {"args": [arg() for _ in range(draw(st.integers(1, 3)))], "kw": draw(st.sampled_from([None, 2, 5])),
            "where": draw(st.sampled_from(["func", "method", "class2"])),
            "deco": draw(st.sampled_from(["vectorize", "scalarize", "listize"])),
            "dtype": draw(st.sampled_from([None, "f8", "i4", "c16", "U4"])), "extra": draw(st.booleans())}


def mk(a, np):
    k, v = a
    if k == "int":
        return v[0]
    if k == "float":
        return float(v[0]) + 0.5
    if k == "np":
        return np.float64(v[0])
    if k == "zero":
        return np.array(v[0])
    if k == "list":
        return list(v)
    if k == "tuple":
        return tuple(v)
    if k == "arr":
        return np.array(v)
    if k == "col":
        return np.array(v).reshape(-1, 1)
    return np.array(v).reshape(2, -1)


SCALAR = ("int", "float", "np", "zero")


def run_deco(c, ctx):
    import numpy as np

    from caput.util import arraytools as at

    args = [mk(a, np) for a in c["args"]]
    keep = [mk(a, np) for a in c["args"]]
    kinds = [a[0] for a in c["args"]]
    seen = []
    factor = [3, 7]

    def plain(off, args, scale):
        r = off
        for i, x in enumerate(args):
            r = r + (i + 1) * x * scale + i
        return r

    name = c["deco"]
    dec = {"vectorize": lambda: at.vectorize(otypes=[np.float64]), "scalarize": lambda: at.scalarize(dtype=c["dtype"]) if c.get("dtype") else at.scalarize(), "listize": at.listize}[name]()

    extra = [1, [2, 3]]

    def func(*a, scale=1, also=extra):
        """The doc."""
        check(also is extra, "a keyword argument was replaced by %r", also)
        seen.append(tuple(type(x) for x in a))
        return plain(0, a, scale)

    class K:
        def __init__(self, off):
            self.off = off

        @dec
        def meth(self, *a, scale=1, also=extra):
            """The doc."""
            check(also is extra, "a keyword argument was replaced by %r", also)
            seen.append(tuple(type(x) for x in a))
            return plain(self.off, a, scale)

    off = 0
    if c["where"] == "func":
        f = dec(func)
        check(f.__name__ == "func", "name %s", f.__name__)
    else:
        k, k2 = K(factor[0]), K(factor[1])
        f = k.meth
        off = factor[0]
        if c["where"] == "class2":
            _ = f
            f = k2.meth
            off = factor[1]
        check(f.__name__ == "meth", "name %s", f.__name__)
    check(f.__doc__ == "The doc.", "doc %r", f.__doc__)
    kw = {} if c["kw"] is None else {"scale": c["kw"]}
    scale = c["kw"] or 1
    if c.get("extra") and name != "vectorize":
        kw["also"] = extra
    arrs = [np.asarray(a, dtype=float) if np.size(a) == 0 else np.asarray(a) for a in args]
    try:
        shape = np.broadcast_shapes(*(a.shape for a in arrs))
    except ValueError:
        return Info(False, ["no broadcast"])
    empty = any(a.size == 0 for a in arrs)
    got = f(*args, **kw)
    for a, b, kk in zip(args, keep, kinds):
        check(np.array_equal(a, b), "an argument was changed")
    allscalar = all(x in SCALAR for x in kinds)
    want = plain(off, arrs, scale)
    if name == "listize":
        # the function sees arrays instead of lists, everything else untouched
        for t, a in zip(seen[0], args):
            check(t is (np.ndarray if isinstance(a, (list, tuple)) else type(a)), "got a %s for %s", t, type(a))
        check(len(seen) == 1, "called %d times", len(seen))
        if allscalar:
            check(not isinstance(got, np.ndarray), "scalars in, %s out", type(got))
        check(np.shape(got) == shape and np.array_equal(got, want), "got %s, expected %s", got, want)
    elif name == "scalarize":
        if all(np.ndim(a) > 0 and len(a) == 0 for a in arrs):
            check(isinstance(got, np.ndarray) and got.shape == (0,) and got.dtype == np.dtype(c.get("dtype") or "f8") and not seen, "empty input gave %r", got)
        else:
            check(len(seen) == 1 and all(t is np.ndarray for t in seen[0]), "the function did not get arrays: %s", seen)
            if allscalar:
                check(np.ndim(got) == 0 and not isinstance(got, np.ndarray), "scalars in, %r out", got)
                check(got == want, "got %s, expected %s", got, want)
            else:
                # scalars became arrays of length one
                wshape = np.broadcast_shapes(*((1,) if a.shape == () else a.shape for a in arrs))
                check(got.shape == wshape, "shape %s, expected %s", got.shape, wshape)
                check(np.array_equal(got, np.broadcast_to(want, wshape)), "got %s, expected %s", got, want)
    else:
        if allscalar:
            check(isinstance(got, float), "scalars in, %s out", type(got))
            check(got == want, "got %s, expected %s", got, want)
        else:
            check(isinstance(got, np.ndarray) and got.dtype == np.float64, "got %r", got)
            same_array(got, np.asarray(want, dtype=float).reshape(shape), "vectorized result")
            if not empty:
                check(all(t is not np.ndarray for s in seen for t in s), "the function got arrays")
    return Info(not allscalar and not empty and len(args) > 1, [name, c["where"]])


# ---- times as arguments
_ts = []


@st.composite
def times(draw):
    n = draw(st.integers(0, 3))

    def arg():
        kind = draw(st.sampled_from(["time", "times", "times", "float", "arr", "list"]))
        m = 1 if kind in ("time", "float") else n
        return [kind, draw(st.lists(st.integers(0, 4000).map(lambda k: 2455000.5 + k + k % 7 / 8), min_size=m, max_size=m))]

    return {"args": [arg() for _ in range(draw(st.integers(1, 2)))]}


def run_times(c, ctx):
    import numpy as np
    from skyfield import timelib
    from skyfield.api import load

    from caput.util import arraytools as at

    if not _ts:
        _ts.append(load.timescale(builtin=True))
    ts = _ts[0]
    args, kinds, vals = [], [], []
    for kind, v in c["args"]:
        kinds.append(kind)
        vals.append(v)
        args.append(ts.tt_jd(v[0]) if kind == "time" else ts.tt_jd(np.array(v, dtype=float)) if kind == "times"
                    else v[0] if kind == "float" else np.array(v, dtype=float) if kind == "arr" else list(v))
    try:
        n = np.broadcast_shapes(*((len(v),) for v in vals))[0]
    except ValueError:
        return Info(False, ["no broadcast"])
    seen = []

    @at.scalarize()
    def f(*a):
        seen.append(a)
        r = 0.0
        for i, x in enumerate(a):
            r = r + (i + 1) * (x.tt if isinstance(x, timelib.Time) else x)
        return r

    got = f(*args)
    want = sum((i + 1) * np.array(v, dtype=float) for i, v in enumerate(vals))
    if all(len(v) == 0 for v in vals):
        check(isinstance(got, np.ndarray) and got.shape == (0,) and not seen, "empty input gave %r", got)
        return Info(False, ["empty"])
    check(len(seen) == 1, "called %d times", len(seen))
    for x, kind, v in zip(seen[0], kinds, vals):
        if kind.startswith("time"):
            check(isinstance(x, timelib.Time) and isinstance(x.tt, np.ndarray) and x.tt.shape == (len(v),), "a time became %r", x)
        else:
            check(isinstance(x, np.ndarray) and x.shape == (len(v),), "a number became %r", x)
    if all(k in ("time", "float") for k in kinds):
        check(np.ndim(got) == 0, "scalars in, %r out", got)
    else:
        check(isinstance(got, np.ndarray) and got.shape == (n,), "%s in, %r out", kinds, got)
    check(np.array_equal(np.broadcast_to(want, (n,)), np.atleast_1d(got)), "got %r, expected %r", got, want)
    return Info("time" in kinds or "times" in kinds, kinds)


def run_unique(c, ctx):
    from caput.util.arraytools import unique_ordered

    x = [tuple(v) if isinstance(v, list) else v for v in c["x"]]
    want = []
    for v in x:
        if v not in want:
            want.append(v)
    src = list(x)
    kinds = {"list": x, "tuple": tuple(x), "gen": (v for v in x), "dict": dict.fromkeys(x)}
    got = unique_ordered(kinds[c["as"]])
    check(isinstance(got, list), "type %s", type(got))
    check(got == want and [type(a) for a in got] == [type(a) for a in want], "unique of %r is %r", x, got)
    check(x == src, "input changed")
    return Info(len(want) < len(x) and len(want) > 1)


def uniq():
    v = st.one_of(st.integers(-3, 3), st.text("ab", max_size=2), st.sampled_from([0.0, 1.0, True, None]),
                  st.lists(st.integers(0, 2), max_size=2))
    return st.fixed_dictionaries({"x": st.lists(v, max_size=15), "as": st.sampled_from(["list", "tuple", "gen", "dict"])})


@st.composite
def cache(draw):
    op = st.one_of(
        st.tuples(st.just("set"), st.integers(0, 6), st.integers(0, 12), st.sampled_from(["f8", "u1", "c16"]),
                  st.sampled_from(["own", "own", "view", "2d"])),
        st.tuples(st.just("get"), st.integers(0, 6)),
        st.tuples(st.just("getd"), st.integers(0, 6)),
        st.tuples(st.just("in"), st.integers(0, 6)),
        st.tuples(st.just("del"), st.integers(0, 6)),
        st.tuples(st.just("pop"), st.integers(0, 6)),
        st.tuples(st.just("bad"), st.integers(0, 6)),
        st.tuples(st.just("setdefault"), st.integers(0, 6), st.integers(0, 12)),
    ).map(list)
    return {"max": draw(st.integers(0, 200)), "ops": draw(st.lists(op, min_size=1, max_size=30))}


def run_cache(c, ctx):
    import numpy as np

    from caput.util.arraytools import LRUCache

    cap = c["max"]
    m = OrderedDict()
    k = LRUCache(cap)
    evict = False

    def put(key, v):
        nonlocal evict
        if v.nbytes > cap:
            return False
        size = sum(x.nbytes for q, x in m.items() if q != key)
        # least recently used first, until it fits
        while sum(x.nbytes for x in m.values()) - (m[key].nbytes if key in m else 0) + v.nbytes > cap:
            q = next(iter(m))
            m.pop(q)
            evict = True
        m[key] = v
        m.move_to_end(key)
        return True

    for i, op in enumerate(c["ops"]):
        key = op[1]
        if op[0] in ("set", "setdefault"):
            v = np.full(op[2], i, dtype=op[3] if op[0] == "set" else "f8")
            if len(op) > 4 and op[4] == "view":
                v = np.full(op[2] + 3, i, dtype=op[3])[2:-1]
            elif len(op) > 4 and op[4] == "2d":
                v = v.reshape(-1, 1)
            if op[0] == "setdefault" and key in m:
                r = k.setdefault(key, v)
                check(r is m[key], "setdefault returned another array")
                m.move_to_end(key)
            else:
                fits = v.nbytes <= cap
                try:
                    if op[0] == "set":
                        k[key] = v
                    else:
                        k.setdefault(key, v)
                except ValueError:
                    check(not fits, "an array that fits was refused")
                else:
                    check(fits, "an array larger than the cache was accepted")
                    put(key, v)
        elif op[0] == "get":
            try:
                r = k[key]
            except KeyError:
                check(key not in m, "%s was lost", key)
            else:
                check(key in m and r is m[key], "wrong array for %s", key)
                m.move_to_end(key)
        elif op[0] == "getd":
            r = k.get(key)
            check(r is m.get(key), "get(%s) gave %r", key, r)
            if key in m:
                m.move_to_end(key)
        elif op[0] == "in":
            check((key in k) == (key in m), "membership of %s", key)
        elif op[0] == "del":
            try:
                del k[key]
            except KeyError:
                check(key not in m, "del")
            else:
                check(key in m, "del of a missing key")
                del m[key]
        elif op[0] == "pop":
            r = k.pop(key, None)
            check(r is m.pop(key, None), "pop")
        else:
            for bad in ([1, 2], 3.0, "x", None):
                try:
                    k[key] = bad
                except ValueError:
                    pass
                else:
                    raise AssertionError(f"{bad!r} was accepted")
        total = sum(x.nbytes for x in m.values())
        check(set(k) == set(m), "step %d %s: holds %s, expected %s", i, op, sorted(k), sorted(m))
        check(all(k_ in m for k_ in k) and len(k) == len(m), "content")
        check(sum(k.__getitem__(q).nbytes for q in list(m)) == total, "sizes")
        # the reads above touch in model order, which keeps the order of use
        check(k.currsize == total <= cap, "size %s, expected %s of %s", k.currsize, total, cap)
        check(k.maxsize == cap, "capacity changed")
    return Info(evict, ["evict" if evict else "no eviction"])


PARTS = [
    Part("decorators", deco, run_deco, quick=900, shards=3,
         rule="mixes of 1-3 scalar, list, tuple and array arguments, functions and methods of two instances; non-trivial: several arguments, one not scalar, none empty"),
    Part("times", times, run_times, quick=300, shards=1,
         rule="one or two arguments among times, arrays of times, numbers, arrays and lists; non-trivial: one is a time"),
    Part("unique", uniq, run_unique, quick=600, shards=1, rule="iterables with repeats; non-trivial: repeats and more than one distinct"),
    Part("cache", cache, run_cache, quick=800, shards=2, rule="sequences of up to 30 cache operations against an ordered model; non-trivial: something was evicted"),
]
