"""C12: text and byte-order conversions."""

import json
import math

from hypothesis import strategies as st

from vf.core import Info, Part, check, same_array

PROPERTY = "C12"
EXTS = {}
ASSUMPTIONS = ["text in arrays is ASCII without trailing NULs, as byte strings of fixed width require",
               "memory alignment and padding of structured types need not survive"]

LEAF = ["f4", "f8", "i2", "i8", "u1", "?", "c16", "<i4", ">f8"]
TEXT = st.text("abcXYZ 019_-", max_size=20)


def dtype_tree(depth):
    """[kind, ...] description of a dtype, as JSON."""
    leaf = st.one_of(
        st.sampled_from(LEAF).map(lambda x: ["n", x]),
        st.one_of(st.integers(1, 6), st.sampled_from([9, 16, 40])).map(lambda n: ["S", n]),
        st.one_of(st.integers(1, 6), st.sampled_from([9, 16, 40])).map(lambda n: ["U", n]),
        st.one_of(st.integers(1, 6), st.sampled_from([9, 16, 40])).map(lambda n: ["B", n]),  # big-endian unicode
    )
    if depth == 0:
        return leaf
    sub = dtype_tree(depth - 1)
    struct = st.tuples(
        st.lists(st.tuples(sub, st.sampled_from([[], [], [2], [2, 1], [1]])).map(list), min_size=1, max_size=4),
        st.sampled_from(["", "", "align"])).map(lambda t: ["struct", t[0], t[1]])
    return st.one_of(leaf, struct, struct)


def make(t, np, to=None):
    """The dtype described; to: 'S' or 'U' converts all text (the reference)."""
    if t[0] == "n":
        return np.dtype(t[1])
    if t[0] in "SUB":
        if to == "S" or (to is None and t[0] == "S"):
            return np.dtype(f"S{t[1]}")
        if t[0] == "B" and to is None:
            return np.dtype(f">U{t[1]}")
        return np.dtype(f"<U{t[1]}")
    fields = [(f"f{i}", make(x, np, to), tuple(sh)) if sh else (f"f{i}", make(x, np, to)) for i, (x, sh) in enumerate(t[1])]
    return np.dtype(fields, align=(t[2] == "align" and to is None))


def kinds(t):
    if t[0] == "n":
        import numpy as np

        return {np.dtype(t[1]).kind}
    if t[0] == "B":
        return {"U"}
    if t[0] in "SU":
        return {t[0]}
    out = set()
    for x, _ in t[1]:
        out |= kinds(x)
    return out


def fill(a, rng, np):
    """Fills in place."""
    if a.dtype.names:
        for n in a.dtype.names:
            fill(a[n], rng, np)
    elif a.dtype.kind in "SU":
        w = a.dtype.itemsize // (4 if a.dtype.kind == "U" else 1)
        for i in np.ndindex(a.shape):
            s = "".join(rng.choice(list("abcXYZ 019_-"), rng.integers(0, w + 1)))
            a[i] = s.encode() if a.dtype.kind == "S" else s
    elif a.dtype.kind == "b":
        a[...] = rng.integers(0, 2, a.shape)
    elif a.dtype.kind in "fc":
        a[...] = rng.normal(size=a.shape)
    else:
        a[...] = rng.integers(0, 100, a.shape)


def leaves(a, np, path=""):
    if a.dtype.names:
        for n in a.dtype.names:
            yield from leaves(a[n], np, path + "/" + n)
    elif a.dtype.kind == "S":
        yield path, np.char.decode(a, "ascii") if a.size else a.astype("U")
    else:
        yield path, a


def same_values(a, b, np, what):
    la, lb = list(leaves(a, np)), list(leaves(b, np))
    check([p for p, _ in la] == [p for p, _ in lb], "%s: fields %s, expected %s", what, [p for p, _ in la], [p for p, _ in lb])
    for (p, x), (_, y) in zip(la, lb):
        check(x.shape == y.shape, "%s: field %s has shape %s, expected %s", what, p, x.shape, y.shape)
        check(np.array_equal(x, y), "%s: field %s is %s, expected %s", what, p, x, y)


@st.composite
def arrays(draw):
    return {"t": draw(dtype_tree(2)), "shape": draw(st.sampled_from([[], [1], [3], [0], [2, 3]])),
            "seed": draw(st.integers(0, 10**6))}


def run_arrays(c, ctx):
    import numpy as np

    from caput.util import typeutils as tu

    dt = make(c["t"], np)
    a = np.zeros(c["shape"], dtype=dt)
    fill(a, np.random.default_rng(c["seed"]), np)
    a0 = a.copy()
    ks = kinds(c["t"])
    for k in "SUfibcuOV":
        check(tu.has_kind(dt, k) == (k in ks), "has_kind(%s, %s)", dt, k)
    check(tu.has_unicode(dt) == ("U" in ks), "has_unicode(%s)", dt)
    check(tu.has_bytestring(dt) == ("S" in ks), "has_bytestring(%s)", dt)
    ds, du = tu.dtype_to_bytestring(dt), tu.dtype_to_unicode(dt)
    if c["t"][0] == "struct" or "U" in ks:
        check(ds == make(c["t"], np, "S"), "dtype_to_bytestring(%s) is %s", dt, ds)
    check(du.newbyteorder("=") == make(c["t"], np, "U").newbyteorder("="), "dtype_to_unicode(%s) is %s", dt, du)
    check(tu.dtype_to_bytestring(ds) == ds and tu.dtype_to_unicode(du) == du, "dtype conversion twice")
    s = tu.ensure_bytestring(a)
    check(not tu.has_unicode(s.dtype), "unicode left in %s", s.dtype)
    same_values(s, a, np, "ensure_bytestring")
    u = tu.ensure_unicode(a)
    check(not tu.has_bytestring(u.dtype), "byte strings left in %s", u.dtype)
    same_values(u, a, np, "ensure_unicode")
    # there and back, twice
    same_values(tu.ensure_unicode(s), a, np, "to bytes and to unicode")
    same_values(tu.ensure_bytestring(u), a, np, "to unicode and to bytes")
    b = tu.ensure_bytestring(s)
    check(b.dtype == s.dtype, "bytes twice")
    same_values(b, s, np, "bytes twice")
    if "U" not in ks:
        check(s is a, "a copy was made though nothing needed converting")
    if "S" not in ks:
        check(u is a, "a copy was made though nothing needed converting")
    n = tu.ensure_native_byteorder(a)
    same_values(n, a, np, "ensure_native_byteorder")
    same_array(a, a0, "the input was changed")
    if not dt.names:
        w = tu.bytes_to_unicode(a)
        check(w.dtype.kind == ("U" if dt.kind == "S" else dt.kind), "bytes_to_unicode: %s", w.dtype)
        same_values(w, a, np, "bytes_to_unicode")

    class D:
        name = "x"
        dtype = dt
        data = a

    try:
        r = tu.check_unicode(D)
    except TypeError:
        check("U" in ks, "check_unicode refused %s", dt)
    else:
        check("U" not in ks and r is a, "check_unicode accepted %s", dt)
    return Info(bool(ks & {"S", "U"}) and a.size > 0, ["struct" if dt.names else "plain", *sorted(ks & {"S", "U"})])


def nested():
    leaf = st.one_of(st.text(max_size=4).map(lambda x: ["b", x]), st.text(max_size=4).map(lambda x: ["s", x]),
                     st.integers(-3, 3).map(lambda x: ["i", x]), st.just(["none", 0]), st.floats(0, 1).map(lambda x: ["i", x]),
                     st.lists(TEXT, max_size=3).map(lambda x: ["as", x]), st.lists(TEXT, max_size=3).map(lambda x: ["au", x]))
    key = st.one_of(st.text(max_size=3).map(lambda x: ["b", x]), st.text(max_size=3).map(lambda x: ["s", x]))
    return st.recursive(leaf, lambda ch: st.one_of(
        st.lists(ch, max_size=4).map(lambda x: ["list", x]),
        st.lists(ch, max_size=4).map(lambda x: ["tuple", x]),
        st.lists(key, max_size=3).map(lambda x: ["set", x]),
        st.lists(st.tuples(key, ch).map(list), max_size=3).map(lambda x: ["dict", x])), max_leaves=10)


def build(t, np, uni):
    k, v = t
    if k == "b":
        return v if uni else v.encode("utf8")
    if k == "none":
        return None
    if k == "as":
        a = np.array([x.rstrip("\0").encode() for x in v], dtype="S20")
        return a.astype("U20") if uni else a
    if k == "au":
        return np.array(v, dtype="U20")
    if k == "list":
        return [build(x, np, uni) for x in v]
    if k == "tuple":
        return tuple(build(x, np, uni) for x in v)
    if k == "set":
        return {build(x, np, uni) for x in v}
    if k == "dict":
        return {build(a, np, uni): build(b, np, uni) for a, b in v}
    return v


def eq(a, b, np):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.dtype.kind == b.dtype.kind and np.array_equal(a, b)
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(eq(x, y, np) for x, y in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and list(a) == list(b) and all(eq(a[k], b[k], np) for k in a)
    return a == b


def distinct_keys(t):
    """No two keys of one dict differ only in being bytes or text."""
    k, v = t
    if k == "dict":
        ks = [a[1] for a, _ in v]
        return len(set(ks)) == len(ks) and all(distinct_keys(b) for _, b in v)
    if k in ("list", "tuple"):
        return all(distinct_keys(x) for x in v)
    return True


def run_nested(c, ctx):
    import numpy as np

    from caput.util import typeutils as tu

    t = c["t"]
    if not distinct_keys(t):
        return Info(False, ["clash"])
    x = build(t, np, False)
    keep = build(t, np, False)
    got = tu.bytes_to_unicode(x)
    check(eq(got, build(t, np, True), np), "bytes_to_unicode(%r) is %r", x, got)
    check(eq(x, keep, np), "the input was changed to %r", x)
    check(eq(tu.bytes_to_unicode(got), got, np), "twice")
    txt = json.dumps(t)
    return Info('["b"' in txt and t[0] in ("list", "tuple", "dict", "set"), [t[0]])


def orders():
    return st.fixed_dictionaries({"o": st.sampled_from(list("<>=|")), "dt": st.sampled_from(["i2", "f4", "f8", "c16", "U3", "S3", "u1"]),
                                  "v": st.lists(st.integers(0, 120), max_size=5)})


def run_orders(c, ctx):
    import sys

    import numpy as np

    from caput.util import typeutils as tu

    native = "<" if sys.byteorder == "little" else ">"
    o = c["o"]
    check(tu.has_matching_byteorder(o) == (o == native), "has_matching_byteorder(%s)", o)
    check(tu.check_byteorder(o) == (o == native), "check_byteorder(%s)", o)
    dt = np.dtype(c["dt"])
    if o != "|":
        dt = dt.newbyteorder(o)
    a = np.array([str(x) for x in c["v"]] if dt.kind in "US" else c["v"]).astype(dt)
    r = tu.ensure_native_byteorder(a)
    check(r.shape == a.shape and np.array_equal(r, a), "values changed: %s, expected %s", r, a)
    check(not tu.check_byteorder(r.dtype.byteorder), "explicit native order left")
    return Info(len(c["v"]) > 0, [o])


PARTS = [
    Part("arrays", arrays, run_arrays, quick=700, shards=3,
         rule="nested structured dtypes with sub-arrays, padding, both byte orders, and arrays of them; non-trivial: contains text and data"),
    Part("nested", lambda: nested().map(lambda t: {"t": t}), run_nested, quick=1200, shards=2,
         rule="nested lists, tuples, sets, dictionaries with bytes, text, numbers, arrays; non-trivial: bytes inside a collection"),
    Part("orders", orders, run_orders, quick=300, shards=1, rule="byte orders and types; non-trivial: non-empty"),
]
