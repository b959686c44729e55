"""C30: spherical Bessel functions against arbitrary-precision values."""

import math

from hypothesis import strategies as st

from vf.core import Info, Part, check

PROPERTY = "C30"
EXTS = {"spherical": "fast"}
ASSUMPTIONS = [
    "values below 1e-290 are only required to be within 1e-290 of the truth",
    "derivatives are required for positive arguments",
    "accuracy asked of each regime: 0.02/(l+1/2)^3 relative where the small-argument expansion may be used "
    "(z < l/5 and l > 20, or z < 1e-6 l), 3e-4/(z (l+1/2)) where the large-argument one may be (z > 10 l, l > 20), "
    "1e-11 elsewhere",
]


def exact(l, z):
    """j_l(z) in arbitrary precision."""
    import mpmath as mp

    if z == 0:
        return mp.mpf(1 if l == 0 else 0)
    if z > l:
        with mp.workdps(60):
            z = mp.mpf(z)
            a = mp.sin(z) / z
            if l == 0:
                return a
            b = a / z - mp.cos(z) / z
            for k in range(1, l):
                a, b = b, (2 * k + 1) / z * b - a
            return b
    with mp.workdps(40 + int(0.5 * z)):
        z = mp.mpf(z)
        q = -z * z / 2
        t = s = mp.mpf(1)
        k = 0
        while True:
            k += 1
            t = t * q / (k * (2 * l + 2 * k + 1))
            s += t
            if abs(t) < abs(s) * mp.mpf(10) ** -35:
                break
        return s * z**l / mp.fac2(2 * l + 1)


def tol(l, z, t):
    """Absolute error allowed for j_l(z) = t."""
    nu = l + 0.5
    at = float(abs(t))
    if z == 0:
        return 0.0
    base = 1e-290 + 1e-11 * at
    if z >= l:
        base += 1e-11 * min(1.0, 1.0 / z)
    # a little room on both sides of the switches
    if (l > 20 and z < l / 5.0 * 1.000001) or z < l * 1.000001e-6:
        base += (0.02 / nu**3 + 1e-10) * at
    if l > 20 and z > 9.99999 * l:
        base += (3e-4 / nu + 4e-16 * z) / z
    return base


@st.composite
def point(draw):
    kind = draw(st.sampled_from(["mid", "low", "high", "edge", "small-l", "zero", "tiny", "turn"]))
    u = draw(st.floats(0, 1))
    l = draw(st.one_of(st.integers(0, 25), st.integers(0, 300), st.integers(0, 2000)))
    if kind == "mid":
        z = max(l, 1) * 10 ** (-0.699 + 1.699 * u)
    elif kind == "low":
        l += 21
        z = l * 10 ** (-3 * u - 0.7)
    elif kind == "high":
        l += 21
        z = l * 10 ** (1 + 2 * u)
    elif kind == "edge":
        l = max(l, 1)
        z = l * draw(st.sampled_from([0.2, 10.0, 1e-6, 1.0])) * (1 + draw(st.sampled_from([-1e-9, 0.0, 1e-9])))
    elif kind == "small-l":
        l = l % 21
        z = 10 ** (7 * u - 3)
    elif kind == "tiny":
        l = l % 6
        z = 10 ** (-4 - 16 * u)
    elif kind == "turn":
        z = abs(l + (u - 0.5) * 10)
    else:
        z = 0.0
    return [l, float(z)]


@st.composite
def values(draw):
    return {"f": draw(st.sampled_from(["jl", "jl", "jl_d", "jl_d2"])), "p": draw(st.lists(point(), min_size=1, max_size=6)),
            "intz": draw(st.booleans())}


def run_values(c, ctx):
    import numpy as np

    from caput.astro.coordinates import bessel

    f = getattr(bessel, c["f"])
    nd = {"jl": 0, "jl_d": 1, "jl_d2": 2}[c["f"]]
    pts = [(l, float(round(z)) if c["intz"] and z < 1e6 else z) for l, z in c["p"]]
    if nd:
        pts = [(l, z) for l, z in pts if z > 0]
        if not pts:
            return Info(False)
    L = np.array([p[0] for p in pts])
    Z = np.array([p[1] for p in pts])
    got = f(L, Z.astype(int) if c["intz"] and np.all(Z == Z.astype(int)) else Z)
    check(np.shape(got) == L.shape, "shape %s, expected %s", np.shape(got), L.shape)
    labels = [c["f"]]
    for (l, z), g in zip(pts, got.tolist()):
        t0 = exact(l, z)
        if nd == 0:
            t, e = t0, tol(l, z, t0)
        else:
            t1 = exact(l + 1, z)
            if nd == 1:
                terms = [(-1.0, t1, l + 1), (l / z, t0, l)]
            else:
                t2 = exact(l + 2, z)
                terms = [(1.0, t2, l + 2), (-(2 * l + 1) / z, t1, l + 1), (l * (l - 1) / z / z, t0, l)]
            if any(abs(a) > 1e250 for a, _, _ in terms):
                continue
            t = sum(a * v for a, v, _ in terms)
            e = sum(abs(a) * tol(k, z, v) for a, v, k in terms) + 1e-14 * sum(abs(a) * float(abs(v)) for a, v, _ in terms)
            # any equivalent recurrence for the derivative may be used
            s = 1.0 + (l + 1) / z
            e += 1e-11 * s**nd * float(abs(t0) + abs(t1))
        check(math.isfinite(g), "%s(%d, %r) = %r", c["f"], l, z, g)
        check(abs(g - t) <= e, "%s(%d, %r) = %r, expected %s within %g", c["f"], l, z, g, t, e)
    return Info(any(abs(g) > 0 for g in got), labels)


@st.composite
def shapes(draw):
    pts = draw(st.lists(point(), min_size=6, max_size=6))
    return {"l": [p[0] for p in pts], "z": [p[1] for p in pts],
            "ls": draw(st.sampled_from(["s", "v", "m", "col", "list", "np0"])),
            "zs": draw(st.sampled_from(["s", "v", "m", "col", "list", "np0"])),
            "f": draw(st.sampled_from(["jl", "jl_d", "jl_d2"]))}


def shape_arg(v, how, np):
    a = np.array(v)
    if how == "s":
        return v[0], a[0]
    if how == "np0":
        return a[0], a[0]
    if how == "v":
        return a[:3], a[:3]
    if how == "list":
        return a[:3].tolist(), a[:3]
    if how == "col":
        return a[:2, None], a[:2, None]
    return a.reshape(2, 3), a.reshape(2, 3)


def run_shapes(c, ctx):
    import numpy as np

    from caput.astro.coordinates import bessel

    f = getattr(bessel, c["f"])
    zz = [z if c["f"] == "jl" or z > 0 else 1.5 for z in c["z"]]
    la, l = shape_arg(c["l"], c["ls"], np)
    za, z = shape_arg(zz, c["zs"], np)
    if c["f"] != "jl":
        la, za = (l if c["ls"] == "list" else la), (z if c["zs"] == "list" else za)
    l0, z0 = np.array(l), np.array(z)
    with np.errstate(all="ignore"):
        got = f(la, za)
        check(np.array_equal(l, l0) and np.array_equal(z, z0), "the arguments were modified")
        bl, bz = np.broadcast_arrays(l, z)
        check(np.shape(got) == bl.shape, "%s of %s and %s has shape %s", c["f"], c["ls"], c["zs"], np.shape(got))
        for i in np.ndindex(bl.shape):
            want = f(int(bl[i]), float(bz[i]))
            g = np.asarray(got)[i]
            ok = g == want or (np.isnan(g) and np.isnan(want)) or abs(g - want) <= 1e-12 * abs(want)
            check(ok, "%s(%d, %r) is %r in an array and %r alone", c["f"], bl[i], bz[i], g, want)
    return Info(np.size(got) > 1, [c["ls"] + "/" + c["zs"]])


PARTS = [
    Part("values", values, run_values, quick=250, shards=6,
         rule="orders 0..2021 and arguments in every regime, at the regime boundaries and at zero; non-trivial: a non-zero value"),
    Part("shapes", shapes, run_shapes, quick=400, shards=2,
         rule="scalars, lists, vectors, matrices and columns in either argument; non-trivial: more than one value"),
]
