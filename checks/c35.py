"""C35: deep equality and memory size."""

import copy
import math

from hypothesis import strategies as st

from vf.core import Info, Part, check

PROPERTY = "C35"
EXTS = {}
ASSUMPTIONS = ["comparison is by value: 1 equals 1.0, and the sign of zero is not exercised",
               "lists, tuples and arrays holding equal elements may count as equal"]

SHAPES = [[], [1], [3], [0], [2, 2], [2, 0], [1, 3]]


def leaf():
    return st.one_of(
        st.integers(-5, 5).map(lambda x: ["num", x]),
        st.floats(1, 10).map(lambda x: ["num", x]),
        st.just(["nan"]),
        st.booleans().map(lambda x: ["bool", x]),
        st.text("abc", max_size=3).map(lambda x: ["str", x]),
        st.text("abc", max_size=3).map(lambda x: ["bytes", x]),
        st.just(["none"]),
        st.tuples(st.sampled_from(["f8", "i4", "c16", "?", "U3", "S3", "rec", "recn", "O"]), st.sampled_from(SHAPES), st.integers(0, 99), st.booleans())
        .map(lambda t: ["arr", *t]),
        st.tuples(st.sampled_from(["f8", "i4", "f4"]), st.integers(1, 50)).map(lambda t: ["npnum", *t]),
        st.lists(st.integers(0, 5), max_size=3, unique=True).map(lambda x: ["set", x]),
    )


def tree():
    return st.recursive(leaf(), lambda ch: st.one_of(
        st.lists(ch, max_size=4).map(lambda x: ["list", x]),
        st.lists(ch, max_size=4).map(lambda x: ["tuple", x]),
        st.lists(st.tuples(st.sampled_from(["a", "b", "c", 1, 2]), ch).map(list), max_size=4, unique_by=lambda t: str(t[0])).map(lambda x: ["dict", x])),
        max_leaves=10)


def array(dt, shape, seed, nan, np):
    rng = np.random.default_rng(seed)
    n = math.prod(shape)
    if dt in ("rec", "recn"):
        fields = [("x", "f8"), ("y", "i4"), ("s", "S2")]
        if dt == "recn":
            fields = [("x", "f8"), ("in", [("u", "f4", (2,)), ("v", "i2")])]
        a = np.zeros(shape, dtype=fields)
        a["x"] = rng.integers(1, 50, shape)
        if dt == "recn":
            a["in"]["u"] = rng.integers(1, 50, (*shape, 2))
            a["in"]["v"] = rng.integers(1, 50, shape)
        else:
            a["y"] = rng.integers(1, 50, shape)
            a["s"] = b"q"
        if nan and n:
            a["x"].flat[0] = np.nan
        return a
    if dt == "O":
        a = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            a[i] = int(rng.integers(1, 50))
        return a
    if dt == "U3":
        return np.array([chr(97 + int(k)) for k in rng.integers(0, 20, n)], dtype="U3").reshape(shape)
    if dt == "S3":
        return np.array([chr(97 + int(k)).encode() for k in rng.integers(0, 20, n)], dtype="S3").reshape(shape)
    if dt == "?":
        return rng.integers(0, 2, shape).astype("?") if shape else np.array(bool(seed % 2))
    a = np.asarray(rng.integers(1, 50, shape)).astype(dt)
    if nan and n and dt in ("f8", "c16"):
        a.flat[0] = np.nan
    return a


def build(t, np):
    k = t[0]
    if k == "nan":
        return float("nan")
    if k == "none":
        return None
    if k == "bytes":
        return t[1].encode()
    if k == "arr":
        return array(t[1], t[2], t[3], t[4], np)
    if k == "npnum":
        return np.dtype(t[1]).type(t[2])
    if k == "set":
        return set(t[1])
    if k == "list":
        return [build(x, np) for x in t[1]]
    if k == "tuple":
        return tuple(build(x, np) for x in t[1])
    if k == "dict":
        return {a: build(b, np) for a, b in t[1]}
    return t[1]


def nodes(t, path=()):
    yield path, t
    if t[0] in ("list", "tuple"):
        for i, x in enumerate(t[1]):
            yield from nodes(x, (*path, 1, i))
    elif t[0] == "dict":
        for i, (_, x) in enumerate(t[1]):
            yield from nodes(x, (*path, 1, i, 1))


def put(t, path, v):
    if not path:
        return v
    t = copy.deepcopy(t)
    cur = t
    for p in path[:-1]:
        cur = cur[p]
    cur[path[-1]] = v
    return t


def mutate(node, which, np):
    """A different value for the node: (tree-or-None, python object transformer or None)."""
    k = node[0]
    if k in ("list", "tuple"):
        opts = ["extra"] + (["missing"] if node[1] else [])
        o = opts[which % len(opts)]
        if o == "extra":
            return [k, [*node[1], ["num", 7]]], None, o
        return [k, node[1][:-1]], None, o
    if k == "dict":
        opts = ["extra"] + (["missing", "rename"] if node[1] else [])
        o = opts[which % len(opts)]
        if o == "extra":
            return [k, [*node[1], ["zz", ["none"]]]], None, o
        if o == "missing":
            return [k, node[1][:-1]], None, o
        return [k, [*node[1][:-1], ["zz", node[1][-1][1]]]], None, o
    if k == "arr":
        a = array(*node[1:], np)

        def change(_):
            b = a.copy()
            dt = node[1]
            i = which % b.size
            if dt in ("rec", "recn"):
                f = b
                names = list(b.dtype.names)
                nm = names[which % len(names)]
                if nm == "in":
                    if which % 2:
                        f["in"]["u"].reshape(-1)[...] = f["in"]["u"].reshape(-1)
                        u = f["in"]["u"]
                        u[(*np.unravel_index(i, b.shape), which % 2)] += 1
                    else:
                        f["in"]["v"][np.unravel_index(i, b.shape)] += 1
                elif nm == "s":
                    f["s"][np.unravel_index(i, b.shape)] = b"z"
                else:
                    v = f[nm]
                    x = v[np.unravel_index(i, b.shape)]
                    v[np.unravel_index(i, b.shape)] = 99 if x != x else x + 1
            elif dt == "?":
                b[np.unravel_index(i, b.shape)] ^= True
            elif dt in ("U3", "S3"):
                b[np.unravel_index(i, b.shape)] = "zz"
            else:
                x = b[np.unravel_index(i, b.shape)]
                b[np.unravel_index(i, b.shape)] = 99 if x != x else np.nextafter(x, np.inf) if dt == "f8" and which % 2 else x + 1
            return b

        def reshape(_):
            return np.concatenate([a.reshape(-1), a.reshape(-1)[:1]]) if a.size else np.zeros((*a.shape, 1, 3), dtype=a.dtype)

        def scalar(_):
            return a.reshape(-1)[0]

        def sub(_):
            class Sub(np.ndarray):
                pass

            return a.view(Sub)

        def more(_):
            # another field, or one under another name
            fields = [(n, a.dtype[n]) for n in a.dtype.names]
            fields = [*fields, ("new", "i4")] if which % 2 else [*fields[:-1], ("other", fields[-1][1])]
            b = np.zeros(a.shape, dtype=fields)
            for (n, _), m in zip(fields, a.dtype.names):
                b[n] = a[m]
            return b

        opts = [("shape", reshape), ("subclass", sub)]
        if a.dtype.names:
            opts.append(("fields", more))
        if a.size:
            opts += [("element", change)] * 3
            if a.ndim:
                opts.append(("scalar", scalar))
        o, f = opts[(which // 3) % len(opts)]
        return None, f, o
    if k == "num":
        if isinstance(node[1], float) and which % 2:
            return ["num", math.nextafter(node[1], math.inf)], None, "last bit"
        return ["num", node[1] + 1], None, "value"
    if k == "nan":
        return ["num", 3], None, "value"
    if k == "bool":
        return ["bool", not node[1]], None, "value"
    if k == "str":
        return ["str", node[1] + "x"] if which % 2 else ["bytes", node[1]], None, "value"
    if k == "bytes":
        return ["bytes", node[1] + "x"] if which % 2 else ["str", node[1]], None, "value"
    if k == "none":
        return ["num", 0], None, "value"
    if k == "npnum":
        return ["npnum", node[1], node[2] + 1], None, "value"
    return ["set", [*node[1], 77]], None, "value"


@st.composite
def pairs(draw):
    t = draw(tree())
    if draw(st.integers(0, 7)) == 0:
        # a long one
        n = draw(st.sampled_from([16, 17, 33, 100, 257, 1025]))
        t = [draw(st.sampled_from(["list", "tuple"])), [["num", i % 50] for i in range(n)] + [t]]
    return {"t": t, "pick": draw(st.integers(0, 1000)), "which": draw(st.integers(0, 1000)),
            "mpi": draw(st.booleans())}


MARK = "\0marker"


def subst(x, v):
    if isinstance(x, str) and x == MARK:
        return v
    if isinstance(x, list):
        return [subst(y, v) for y in x]
    if isinstance(x, tuple):
        return tuple(subst(y, v) for y in x)
    if isinstance(x, dict):
        return {k: subst(y, v) for k, y in x.items()}
    return x


def run_pairs(c, ctx):
    import numpy as np

    from caput.util.objecttools import allequal

    t = c["t"]
    a, b = build(t, np), build(t, np)
    check(allequal(a, b) is True, "equal structures compare unequal: %r", a)
    check(allequal(a, a) is True, "a structure is not equal to itself: %r", a)
    ns = list(nodes(t))
    path, node = ns[c["pick"] % len(ns)]
    new, fn, what = mutate(node, c["which"], np)
    if fn is None:
        m = build(put(t, path, new), np)
    else:
        m = subst(build(put(t, path, ["str", MARK]), np), fn(None))
    for x, y in ((a, m), (m, a)):
        check(allequal(x, y) is False, "a difference (%s at %s) was missed: %r and %r", what, path, x, y)
    check(allequal(a, b) is True, "comparison changed its arguments")
    # different kinds of container
    if t[0] == "dict":
        check(not allequal(a, list(a.items())) and not allequal(list(a.items()), a), "dict and list")
    return Info(len(path) > 0, [what, node[0]])


# ---- total size
@st.composite
def sizes(draw):
    n = draw(st.integers(1, 8))
    objs = []
    for i in range(n):
        kind = draw(st.sampled_from(["list", "tuple", "dict", "set", "deque", "obj", "slots", "str", "num", "bytes", "arr", "cycle"]))
        refs = draw(st.lists(st.integers(0, max(i - 1, 0)), max_size=4)) if i else []
        objs.append([kind, refs, draw(st.integers(0, 40))])
    return {"o": objs}


def run_sizes(c, ctx):
    import sys
    from collections import deque

    import numpy as np

    from caput.util.objecttools import total_size

    class Obj:
        pass

    class Slots:
        __slots__ = ("a", "b")

    made = []
    hashable = []
    for kind, refs, n in c["o"]:
        rs = [made[r] for r in refs]
        if kind == "list":
            o = list(rs)
        elif kind == "cycle":
            o = list(rs)
            o.append(o)
        elif kind == "tuple":
            o = tuple([*rs, n])
        elif kind == "dict":
            o = {f"key{i}": r for i, r in enumerate(rs)}
        elif kind == "set":
            o = {made[r] for r in refs if r in hashable}
        elif kind == "deque":
            o = deque(rs)
        elif kind == "obj":
            o = Obj()
            for i, r in enumerate(rs):
                setattr(o, f"attr{i}", r)
        elif kind == "slots":
            o = Slots()
            if rs:
                o.a = rs[0]
            if len(rs) > 1:
                o.b = rs[1]
        elif kind == "str":
            o = "q" * (n + 300)
            hashable.append(len(made))
        elif kind == "bytes":
            o = b"q" * (n + 300)
            hashable.append(len(made))
        elif kind == "arr":
            o = np.zeros(n)
        else:
            o = 10**6 + n
            hashable.append(len(made))
        made.append(o)
    root = made[-1]

    # the reference: each reachable object once, by walking
    seen = {}

    def walk(x):
        if id(x) in seen:
            return
        seen[id(x)] = sys.getsizeof(x)
        if isinstance(x, (list, tuple, set, deque)):
            for y in x:
                walk(y)
        elif isinstance(x, dict):
            for k, v in x.items():
                walk(k)
                walk(v)
        elif isinstance(x, Obj):
            walk(vars(x))
        elif isinstance(x, Slots):
            for a in ("a", "b"):
                if hasattr(x, a):
                    walk(getattr(x, a))

    if isinstance(root, np.ndarray):
        return Info(False)
    walk(root)
    got = total_size(root)
    want = sum(seen.values())
    check(got == want, "total_size is %d, expected %d", got, want)
    check(total_size(root) == got, "second call differs")
    dup = any(len(set(r)) < len(r) for _, r, _ in c["o"])
    return Info(len(seen) > 2, [c["o"][-1][0]])


PARTS = [
    Part("equality", pairs, run_pairs, quick=900, shards=4,
         rule="nested structures, a rebuilt copy, and the same with one element changed, added, removed, reshaped or renamed; non-trivial: the change is below the top level"),
    Part("size", sizes, run_sizes, quick=600, shards=1,
         rule="object graphs with sharing and cycles; non-trivial: more than two objects reachable"),
]
