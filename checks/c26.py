"""C26: reciprocal without infinities."""

import math

from hypothesis import strategies as st

from vf.core import Info, Part, check

PROPERTY = "C26"
EXTS = {"invert": "full", "weighted": "fast"}

DT = ["f4", "f8", "c8", "c16", "i2", "i4", "i8", "u1", "u4"]
LAYOUTS = ["C", "F", "step", "rev", "trans", "sub"]


def number(kind):
    import numpy as np

    if kind in ("i2", "i4", "i8"):
        k = {"i2": 15, "i4": 31, "i8": 53}[kind]
        return st.one_of(st.integers(-3, 3), st.integers(-(2**k) + 1, 2**k - 1))
    if kind in ("u1", "u4"):
        k = {"u1": 8, "u4": 32}[kind]
        return st.one_of(st.integers(0, 3), st.integers(0, 2**k - 1))
    w = 32 if kind in ("f4", "c8") else 64
    tiny = {32: [2.938735877055719e-39, 2.9387e-39, 2.94e-39, 1.2e-38, 1e-45], 64: [5.56268464626801e-309, 5.5626e-309, 5.563e-309, 2.3e-308, 5e-324]}[w]
    big = {32: [3.4028234663852886e38, 1e38, 2e38], 64: [1.7976931348623157e308, 1e308]}[w]
    return st.one_of(
        st.sampled_from([0.0, -0.0, 1.0, -1.0, 0.5, 3.0]),
        st.floats(-1e3, 1e3, width=w),
        st.floats(allow_nan=False, allow_infinity=False, width=w),
        st.sampled_from(tiny + [-t for t in tiny]),
        st.sampled_from(big + [-t for t in big]),
    )


@st.composite
def case(draw):
    dt = draw(st.sampled_from(DT))
    shape = draw(st.lists(st.integers(0, 5), min_size=0, max_size=3))
    n = math.prod(shape)
    el = number(dt)
    vals = draw(st.lists(el, min_size=n, max_size=n))
    im = draw(st.lists(el, min_size=n, max_size=n)) if dt in ("c8", "c16") else None
    return {"dt": dt, "shape": shape, "v": vals, "im": im, "lx": draw(st.sampled_from(LAYOUTS)),
            "out": draw(st.sampled_from([None, "self", "none", *LAYOUTS])),
            "as": draw(st.sampled_from(["array", "array", "array", "list", "scalar"]))}


def layout(a, kind, np):
    """A copy of a with the given memory layout, and the buffer around it."""
    if kind == "C":
        b = np.array(a, order="C", copy=True)
        return b, b
    if kind == "F":
        b = np.array(a, order="F", copy=True)
        return b, b
    if a.ndim == 0:
        b = np.zeros(3, dtype=a.dtype)
        b[1] = a
        return b[1:2].reshape(()), b
    if kind == "step":
        b = np.full(a.shape[:-1] + (2 * a.shape[-1],), 77, dtype=a.dtype)
        v = b[..., ::2]
    elif kind == "rev":
        b = np.full(a.shape, 77, dtype=a.dtype)
        v = b[::-1]
    elif kind == "trans":
        b = np.full(a.shape[::-1], 77, dtype=a.dtype)
        v = b.T
        if a.ndim > 2:
            b = np.full((a.shape[1], a.shape[0], *a.shape[2:]), 77, dtype=a.dtype)
            v = b.swapaxes(0, 1)
    else:
        b = np.full(tuple(s + 2 for s in a.shape), 77, dtype=a.dtype)
        v = b[tuple(slice(1, -1) for _ in a.shape)]
    v[...] = a
    return v, b


def run(c, ctx):
    import numpy as np

    from caput.algorithms import invert_no_zero

    dt = np.dtype(c["dt"])
    isint = dt.kind in "iu"
    if c["im"] is not None:
        base = np.array([complex(a, b) for a, b in zip(c["v"], c["im"])], dtype=dt).reshape(c["shape"])
    else:
        base = np.array(c["v"], dtype=dt).reshape(c["shape"])
    x, xb = layout(base, c["lx"], np)
    xb0 = xb.copy()
    arg = x
    how = c["as"]
    if how == "list" and base.size:
        arg = base.tolist()
    elif how == "scalar" and base.size:
        base = base.ravel()[:1].reshape(())
        arg = base[()]
    else:
        how = "array"
    rdt = np.dtype("f8") if isint else dt
    if how == "list":
        rdt = np.dtype("c16") if dt.kind == "c" else np.dtype("f8")
        base = base.astype(rdt)
        if isint and base.size == 0:
            rdt = np.dtype("f8")
    out = ob = None
    if c["out"] not in (None, "none") and not (how == "scalar"):
        if c["out"] == "self":
            if how == "array" and not isint:
                out = x
            # the caller's list can not be the output
        else:
            out, ob = layout(np.full(base.shape, 55, dtype=rdt), c["out"], np)
            ob0 = ob.copy()
    with np.errstate(divide="raise", invalid="raise", over="raise"):
        try:
            res = invert_no_zero(arg, out) if out is not None else invert_no_zero(arg)
        except FloatingPointError as exc:
            raise AssertionError(f"floating point warning {exc}") from exc
    if out is not None:
        check(res is out, "the output array was not returned")
    check(res.shape == base.shape, "shape %s, expected %s", res.shape, base.shape)
    check(res.dtype == rdt, "dtype %s, expected %s", res.dtype, rdt)
    if how == "array" and out is None and res.ndim > 1 and res.size > 1:
        if x.flags.c_contiguous:
            check(res.flags.c_contiguous, "the layout of the input was not kept")
        elif x.flags.f_contiguous:
            check(res.flags.f_contiguous, "the layout of the input was not kept")
    # inputs and surroundings
    if out is not x:
        check(np.array_equal(xb, xb0), "the input was modified")
        check(not np.shares_memory(res, xb) or base.size == 0, "the result shares memory with the input")
    if ob is not None and base.size < ob.size:
        ob1 = ob.copy()
        out[...] = 55
        check(np.array_equal(ob, ob0), "elements outside the output array were modified")
        ob[...] = ob1
    # values
    fin = np.finfo(rdt if rdt.kind != "c" else rdt)
    thresh = 1.0 / float(fin.max)
    eps = float(fin.eps)
    special = nz = False
    for z, r in zip(base.ravel().tolist(), np.asarray(res).ravel().tolist()):
        if rdt.kind == "c":
            z, r = complex(z), complex(r)
            comp = max(abs(z.real), abs(z.imag))
            if comp < thresh:
                special = True
                check(r == 0, "1/%r gave %r, expected 0", z, r)
                continue
            check(math.isfinite(r.real) and math.isfinite(r.imag), "1/%r gave %r", z, r)
            # reference with scaling by a power of two
            k = math.frexp(comp)[1]
            w = complex(math.ldexp(z.real, -k), math.ldexp(z.imag, -k))
            q = w.conjugate() / (w.real * w.real + w.imag * w.imag)
            tol = 8 * eps * abs(q) + math.ldexp(1.0, max(-1074, min(1000, k))) * float(fin.smallest_subnormal) * 4
            try:
                g = complex(math.ldexp(r.real, k), math.ldexp(r.imag, k))
            except OverflowError:
                g = complex(math.inf, math.inf)
            check(abs(g - q) <= tol, "1/%r gave %r", z, r)
            nz = True
        else:
            z, r = float(z), float(r)
            if abs(z) < thresh:
                special = True
                check(r == 0, "1/%r gave %r, expected 0", z, r)
                continue
            nz = True
            want = 1.0 / z
            check(math.isfinite(r), "1/%r gave %r", z, r)
            check(abs(r - want) <= 2 * eps * abs(want) + 2 * float(fin.smallest_subnormal), "1/%r gave %r", z, r)
    return Info(base.size > 1 and nz, [c["dt"], how, "special" if special else "plain", "out:" + str(c["out"])])


PARTS = [Part("invert", case, run, quick=2500, shards=4, omp=2,
              rule="arrays of every supported dtype, up to 3 dimensions, six memory layouts for input and output, "
                   "zeros, subnormals, extremes; non-trivial: more than one element and at least one inverted")]
