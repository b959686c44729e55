"""C29: spherical geometry against vector algebra."""

import math

from hypothesis import strategies as st

from vf.core import Info, Part, check, close_array, same_array

PROPERTY = "C29"
EXTS = {"spherical": "full"}
ASSUMPTIONS = [
    "angles recovered through an arc cosine are compared at 1e-7 rad, all else at about 1e-12",
    "radii between 1e-3 and 1e6; the zero vector has no direction",
    "ground coordinates are inverted for sources above the horizon (height above 1e-3)",
]
PI = math.pi


def angle(lo=-2 * PI, hi=2 * PI):
    special = [x for x in (0.0, PI / 2, -PI / 2, PI, -PI, 2 * PI, 1e-9, -1e-9, PI / 3) if lo <= x <= hi]
    return st.one_of(st.floats(lo, hi), st.sampled_from(special))


def theta():
    return st.one_of(st.floats(0, PI), st.sampled_from([0.0, PI, PI / 2, 1e-9, PI - 1e-9, 1e-4]))


LEAD = [[], [1], [3], [0], [2, 3], [1, 2, 2], [40]]


@st.composite
def conv(draw):
    lead = draw(st.sampled_from(LEAD))
    n = math.prod(lead)
    nd = draw(st.sampled_from([2, 3]))
    el = st.tuples(st.floats(1e-3, 1e6), theta(), angle())
    return {"lead": lead, "nd": nd, "v": [list(x) for x in draw(st.lists(el, min_size=n, max_size=n))],
            "dt": draw(st.sampled_from(["f8", "f8", "f4", "i8"])), "lay": draw(st.sampled_from(["C", "F", "step", "rev"])),
            "many": draw(st.sampled_from([0] * 6 + [70, 300]))}


def lay(a, kind, np):
    if kind == "F":
        return np.asfortranarray(a)
    if kind == "step":
        b = np.full((*a.shape[:-1], 2 * a.shape[-1]), 99, dtype=a.dtype)
        b[..., ::2] = a
        return b[..., ::2]
    if kind == "rev" and a.ndim > 1:
        return np.ascontiguousarray(a[::-1])[::-1]
    return np.ascontiguousarray(a)


def ref_cart(s, np):
    s = np.asarray(s, dtype="f8")
    r, t, p = (np.ones(s.shape[:-1]), s[..., 0], s[..., 1]) if s.shape[-1] == 2 else (s[..., 0], s[..., 1], s[..., 2])
    return np.stack([r * np.sin(t) * np.cos(p), r * np.sin(t) * np.sin(p), r * np.cos(t)], axis=-1)


def wrap(x, np):
    return (np.asarray(x) + PI) % (2 * PI) - PI


def run_conv(c, ctx):
    import numpy as np

    from caput.astro.coordinates import spherical as sp

    a = np.array(c["v"], dtype="f8").reshape(*c["lead"], 3)
    if c.get("many"):
        a = np.broadcast_to(a, (c["many"], *a.shape)).copy()
    if c["nd"] == 2:
        a = a[..., 1:]
    a = lay(a.astype(c["dt"]), c["lay"], np)
    a0 = a.copy()
    cart = sp.sph_to_cart(a)
    same_array(a, a0, "sph_to_cart changed its input")
    want = ref_cart(a, np)
    r = np.ones(a.shape[:-1]) if c["nd"] == 2 else a[..., 0].astype("f8")
    check(cart.dtype == np.float64 and cart.shape == want.shape, "sph_to_cart: %s %s", cart.dtype, cart.shape)
    check(np.all(np.abs(cart - want) <= 1e-12 * np.maximum(np.abs(r), 1e-300)[..., None]), "sph_to_cart: %s, expected %s", cart, want)
    # there and back
    ci = cart if c["dt"] != "i8" else np.round(cart).astype("i8")
    ci = lay(ci, c["lay"], np)
    c0 = ci.copy()
    ok = np.sum(ci.astype("f8") ** 2, axis=-1) > 1e-12
    with np.errstate(all="ignore"):
        back = sp.cart_to_sph(ci)
    same_array(ci, c0, "cart_to_sph changed its input")
    check(back.shape == ci.shape, "cart_to_sph: shape %s", back.shape)
    b, x = back[ok], ci[ok].astype("f8")
    rr = np.sqrt(np.sum(x**2, axis=-1))
    check(np.all(np.abs(b[:, 0] - rr) <= 1e-12 * rr), "cart_to_sph: radius %s, expected %s", b[:, 0], rr)
    check(np.all((b[:, 1] >= 0) & (b[:, 1] <= PI)), "cart_to_sph: theta out of range %s", b[:, 1])
    check(np.all(np.abs(b[:, 2]) <= PI), "cart_to_sph: phi out of range %s", b[:, 2])
    check(np.all(np.abs(ref_cart(b, np) - x) <= 1e-7 * rr[:, None]), "cart_to_sph: %s for %s", b, x)
    th = np.arctan2(np.hypot(x[:, 0], x[:, 1]), x[:, 2])
    check(np.all(np.abs(b[:, 1] - th) <= 1e-7), "cart_to_sph: theta %s, expected %s", b[:, 1], th)
    off = np.hypot(x[:, 0], x[:, 1]) > 1e-6 * rr
    check(np.all(np.abs(wrap(b[off, 2] - np.arctan2(x[off, 1], x[off, 0]), np)) <= 1e-9), "cart_to_sph: phi %s for %s", b[off, 2], x[off])
    # element by element
    if a.ndim > 1 and a.size:
        i = tuple(s - 1 for s in a.shape[:-1])
        close_array(sp.sph_to_cart(a[i]), cart[i], 1e-15, 1e-9, "sph_to_cart of one element")
    # list of two axes only
    return Info(a.size > 3, [c["dt"], str(c["nd"]), c["lay"]])


@st.composite
def dots(draw):
    nd = draw(st.sampled_from([2, 3]))
    nd2 = draw(st.sampled_from([2, 3]))
    s1, s2 = draw(st.sampled_from([([], []), ([3], []), ([], [3]), ([3], [3]), ([2, 3], [3]), ([2, 1], [1, 3]), ([4, 1, 2], [3, 1])]))
    el = st.tuples(st.floats(1e-2, 100), theta(), angle()).map(list)
    return {"nd": [nd, nd2], "s": [s1, s2],
            "a": draw(st.lists(el, min_size=math.prod(s1), max_size=math.prod(s1))),
            "b": draw(st.lists(el, min_size=math.prod(s2), max_size=math.prod(s2)))}


def run_dots(c, ctx):
    import numpy as np

    from caput.astro.coordinates import spherical as sp

    x = [np.array(c[k]).reshape(*c["s"][i], 3)[..., 3 - c["nd"][i]:] for i, k in enumerate("ab")]
    a, b = x
    a0, b0 = a.copy(), b.copy()
    got = sp.sph_dot(a, b)
    want = np.sum(ref_cart(a, np) * ref_cart(b, np), axis=-1)
    check(np.shape(got) == want.shape, "sph_dot: shape %s, expected %s", np.shape(got), want.shape)
    scale = np.sqrt(np.sum(ref_cart(a, np) ** 2, -1) * np.sum(ref_cart(b, np) ** 2, -1))
    check(np.all(np.abs(got - want) <= 1e-12 * scale), "sph_dot: %s, expected %s", got, want)
    # bases
    for v in (a, b):
        t, p = sp.thetaphi_plane(v)
        ct, cp = sp.sph_to_cart(t), sp.sph_to_cart(p)
        th, ph = v[..., -2], v[..., -1]
        wt = np.stack([np.cos(th) * np.cos(ph), np.cos(th) * np.sin(ph), -np.sin(th)], axis=-1)
        wp = np.stack([-np.sin(ph), np.cos(ph), 0 * ph], axis=-1)
        close_array(ct, wt, 0, 1e-12, "thetaphi_plane: theta")
        close_array(cp, wp, 0, 1e-12, "thetaphi_plane: phi")
        if v.shape[-1] == 2:
            tp = sp.thetaphi_plane_cart(v)
            check(tp.shape == (2, *v.shape[:-1], 3), "thetaphi_plane_cart: shape %s", tp.shape)
            close_array(tp[0], wt, 0, 1e-12, "thetaphi_plane_cart: theta")
            close_array(tp[1], wp, 0, 1e-12, "thetaphi_plane_cart: phi")
            vi = np.round(v).astype(int)
            close_array(sp.thetaphi_plane_cart(vi)[0], sp.sph_to_cart(sp.thetaphi_plane(vi)[0]), 0, 1e-12, "integer angles")
            close_array(sp.thetaphi_plane_cart(vi)[1], sp.sph_to_cart(sp.thetaphi_plane(vi)[1]), 0, 1e-12, "integer angles")
    same_array(a, a0, "input changed")
    same_array(b, b0, "input changed")
    return Info(want.size > 1, [str(c["s"])])


@st.composite
def circle(draw):
    near = draw(st.sampled_from(["far", "far", "near", "same", "wrap"]))
    a = [draw(theta()), draw(angle())]
    if near == "far":
        b = [draw(theta()), draw(angle())]
    elif near == "wrap":
        b = [a[0], a[1] + draw(st.sampled_from([2 * PI, -2 * PI]))]
    else:
        d = draw(st.floats(-1e-7, 1e-7)) if near == "near" else 0.0
        b = [min(PI, max(0.0, a[0] + d)), a[1] + d]
    return {"a": a, "b": b, "n": draw(st.integers(1, 12)), "kind": near}


def run_circle(c, ctx):
    import numpy as np

    from caput.astro.coordinates import spherical as sp

    a, b = np.array(c["a"]), np.array(c["b"])
    va, vb = ref_cart(a, np), ref_cart(b, np)
    sep = math.atan2(float(np.linalg.norm(np.cross(va, vb))), float(np.dot(va, vb)))
    if sep > PI - 1e-3:
        return Info(False, ["antipodal"])
    pts = sp.great_circle_points(a, b, c["n"])
    check(pts.shape == (c["n"], 2), "shape %s", pts.shape)
    check(np.all(np.isfinite(pts)), "great circle from %s to %s gives %s", c["a"], c["b"], pts)
    v = ref_cart(pts, np)
    f = np.linspace(0.0, 1.0, c["n"])
    if sep > 1e-12:
        want = (np.sin((1 - f) * sep)[:, None] * va + np.sin(f * sep)[:, None] * vb) / math.sin(sep)
    else:
        want = np.repeat(va[None], c["n"], axis=0)
    close_array(v, want, 0, 2e-7, "points on the great circle")
    if c["kind"] == "far":
        # independent of the radius packing and of the longitude's turn
        pts2 = sp.great_circle_points(a + np.array([0, 2 * PI]), b, c["n"])
        close_array(ref_cart(pts2, np), v, 0, 4e-7, "after a full turn of longitude")
    return Info(c["n"] > 2 and sep > 0.01, [c["kind"]])


@st.composite
def ground(draw):
    sh = draw(st.sampled_from([([], [], []), ([3], [], [3]), ([3], [3], [3]), ([2, 1], [], [3]), ([1], [3], [2, 3])]))
    lat = st.one_of(st.floats(-PI / 2, PI / 2), st.sampled_from([0.0, PI / 2, -PI / 2, 0.8]))

    def arr(s, el):
        return draw(st.lists(el, min_size=math.prod(s), max_size=math.prod(s)))

    base = st.floats(-1e3, 1e3)
    return {"s": [list(x) for x in sh], "ha": arr(sh[0], angle(-PI, PI)), "lat": arr(sh[1], lat), "dec": arr(sh[2], lat),
            "x": [draw(base), draw(base), draw(base)], "xs": draw(st.sampled_from(["s", "a", "i"])),
            "rot": [draw(angle()) for _ in range(3)]}


def run_ground(c, ctx):
    import numpy as np

    from caput.astro.coordinates import spherical as sp

    ha, lat, dec = (np.array(c[k], dtype="f8").reshape(c["s"][i]) for i, k in enumerate(["ha", "lat", "dec"]))
    keep = [ha.copy(), lat.copy(), dec.copy()]
    got = np.stack(np.broadcast_arrays(*sp.sph_to_ground(ha, lat, dec)), axis=-1)
    # rotate the equatorial frame by the colatitude
    H, L, D = np.broadcast_arrays(ha, lat, dec)
    eq = np.stack([np.cos(D) * np.cos(H), -np.cos(D) * np.sin(H), np.sin(D)], axis=-1)
    zen = np.stack([np.cos(L), 0 * L, np.sin(L)], axis=-1)
    north = np.stack([-np.sin(L), 0 * L, np.cos(L)], axis=-1)
    want = np.stack([eq[..., 1], np.sum(eq * north, -1), np.sum(eq * zen, -1)], axis=-1)
    close_array(got, want, 0, 1e-12, "sph_to_ground")
    up = got[..., 2] > 1e-3
    if np.any(up):
        x, y, z, la = got[up][:, 0], got[up][:, 1], got[up][:, 2], L[up]
        h2, d2 = sp.ground_to_sph(x, y, la)
        close_array(np.stack(sp.sph_to_ground(h2, la, d2), -1), got[up], 0, 1e-9, "ground coordinates there and back")
        close_array(np.stack([np.cos(d2) * np.cos(h2), -np.cos(d2) * np.sin(h2), np.sin(d2)], -1), eq[up], 0, 1e-9,
                    "direction after going to ground coordinates and back")
        check(np.all(np.abs(d2) <= PI / 2 + 1e-12) and np.all(np.abs(h2) <= PI + 1e-12), "range of hour angle or declination")
    # projected distances
    b = np.array(c["x"])
    if c["xs"] == "i":
        b = np.round(b).astype(int)
    bx, by, bz = b
    if c["xs"] == "a":
        bx, by, bz = b[0] * np.ones(1), b[1] * np.ones((1, 1)), b[2]
    sc = 1 + np.sum(np.abs(b))
    d = sp.projected_distance(ha, lat, dec, bx, by, bz)
    w = bx * want[..., 0] + by * want[..., 1] + bz * want[..., 2]
    close_array(d, w, 0, 1e-12 * sc, "projected_distance")
    d = sp.projected_distance(ha, lat, dec, bx, by)
    close_array(d, bx * want[..., 0] + by * want[..., 1], 0, 1e-12 * sc, "projected_distance without height")
    # rotations
    y, p, r = c["rot"]
    cs, sn = math.cos, math.sin
    Y = np.array([[cs(y), -sn(y), 0], [sn(y), cs(y), 0], [0, 0, 1]])
    P = np.array([[1, 0, 0], [0, cs(p), sn(p)], [0, -sn(p), cs(p)]])
    R = np.array([[cs(r), 0, -sn(r)], [0, 1, 0], [sn(r), 0, cs(r)]])
    M = R @ P @ Y
    out = np.stack(sp.rotate_ypr(c["rot"], got[..., 0], got[..., 1], got[..., 2]), -1)
    close_array(out, np.einsum("ij,...j->...i", M, got), 0, 1e-12, "rotate_ypr")
    close_array(np.sum(out**2, -1), np.sum(got**2, -1), 0, 1e-12, "length after rotation")
    for k, v in zip(keep, (ha, lat, dec)):
        same_array(v, k, "input changed")
    return Info(got.size > 3 and bool(np.any(up)), [str(c["s"])])


@st.composite
def dist(draw):
    n, m = draw(st.sampled_from([(1, 1), (3, 3), (3, 1), (0, 0)]))
    lat = st.one_of(st.floats(-PI / 2, PI / 2), st.sampled_from([0.0, PI / 2, -PI / 2]))
    pt = st.tuples(angle(), lat).map(list)
    a = draw(st.lists(pt, min_size=n, max_size=n))
    b = draw(st.lists(pt, min_size=m, max_size=m))
    k = draw(st.sampled_from(["any", "any", "same", "anti", "near"]))
    if n == m:
        if k == "same":
            b = [list(x) for x in a]
        elif k == "anti":
            b = [[x[0] + PI, -x[1]] for x in a]
        elif k == "near":
            b = [[x[0] + 1e-8, x[1]] for x in a]
    return {"a": a, "b": b, "scalar": draw(st.booleans()),
            "mu": draw(st.lists(st.floats(-1, 1), max_size=4)), "x1": draw(st.lists(st.floats(0, 1e4), max_size=4)),
            "x2": draw(st.lists(st.floats(0, 1e4), max_size=4)),
            "v2": draw(st.lists(st.tuples(st.floats(-1e3, 1e3), st.floats(-1e3, 1e3)), min_size=6, max_size=6)),
            "lay": draw(st.sampled_from(["C", "F", "step", "rev", "T3"]))}


def run_dist(c, ctx):
    import numpy as np
    from skyfield.units import Angle

    from caput.astro.coordinates import spherical as sp

    a, b = np.array(c["a"]).reshape(-1, 2), np.array(c["b"]).reshape(-1, 2)

    def vec(p):
        return ref_cart(np.stack([PI / 2 - p[..., 1], p[..., 0]], -1), np)

    if c["scalar"] and len(a) == 1:
        a, b = a[0], b[0]
    got = sp.sphdist(*(Angle(radians=v) for v in (a[..., 0], a[..., 1], b[..., 0], b[..., 1]))).radians
    va, vb = np.broadcast_arrays(vec(a), vec(b))
    cr = np.linalg.norm(np.cross(va, vb), axis=-1)
    want = np.arctan2(cr, np.sum(va * vb, -1))
    check(np.shape(got) == want.shape, "sphdist: shape %s", np.shape(got))
    check(np.all(np.isfinite(got)), "sphdist of %s and %s is %s", c["a"], c["b"], got)
    check(np.all(np.abs(got - want) <= np.where(want > 3.0, 1e-7, 1e-11)), "sphdist: %s, expected %s", got, want)
    rev = sp.sphdist(*(Angle(radians=v) for v in (b[..., 0], b[..., 1], a[..., 0], a[..., 1]))).radians
    close_array(rev, got, 0, 1e-7, "sphdist is symmetric")
    # cosine rule
    mu, x1, x2 = (np.array(c[k], dtype="f8") for k in ("mu", "x1", "x2"))
    r = sp.cosine_rule(mu, x1, x2)
    M, A, B = mu[:, None, None], x1[None, :, None], x2[None, None, :]
    w2 = (A - B * M) ** 2 + B**2 * (1 - M**2)
    check(r.shape == (len(mu), len(x1), len(x2)), "cosine_rule: shape %s", r.shape)
    check(np.all(np.abs(r**2 - w2) <= 1e-12 * (A**2 + B**2 + 1e-300)), "cosine_rule: %s, expected squares %s", r, w2)
    # in-place normalisation
    v = np.array(c["v2"], dtype="f8")
    v = v[np.hypot(v[:, 0], v[:, 1]) > 1e-6]
    if len(v) == 6 and c["lay"] == "T3":
        buf = np.ascontiguousarray(v.reshape(3, 2, 2).transpose(1, 0, 2))
        w = buf.transpose(1, 0, 2)
        v = v.reshape(3, 2, 2)
    else:
        w = lay(v, c["lay"], np)
        if w is v:
            w = v.copy()
    u = v / np.hypot(v[..., 0], v[..., 1])[..., None]
    sp.norm_vec2(w)
    close_array(w, u, 0, 1e-12, "norm_vec2 in place")
    if c["lay"] == "step" and len(v):
        check(np.all(w.base[..., 1::2] == 99), "norm_vec2 wrote outside its argument")
    return Info(len(c["a"]) > 1 or min(len(mu), len(x1), len(x2)) > 0, [c["lay"]])


PARTS = [
    Part("conversions", conv, run_conv, quick=600, shards=2, omp=2,
         rule="arrays of directions of any leading shape, layout and type, at and near the poles; non-trivial: more than one"),
    Part("dots", dots, run_dots, quick=400, shards=1, rule="broadcast pairs of directions; non-trivial: more than one product"),
    Part("circle", circle, run_circle, quick=800, shards=1, rule="pairs of points far, near, same; non-trivial: apart, with intermediate points"),
    Part("ground", ground, run_ground, quick=500, shards=1, rule="hour angles, latitudes, declinations with broadcasting; non-trivial: several, one above the horizon"),
    Part("distance", dist, run_dist, quick=600, shards=1, rule="pairs of coordinates, grids for the cosine rule, 2-vectors in any layout; non-trivial: several pairs or a non-empty grid"),
]
