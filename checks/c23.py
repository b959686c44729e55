"""C23: bit truncation."""

import math
import struct
from fractions import Fraction

from hypothesis import strategies as st

from vf.core import Info, Part, check

PROPERTY = "C23"
EXTS = {"truncate": "full"}
ASSUMPTIONS = [
    "values whose rounding would exceed the largest finite number, NaN and infinities are outside the domain",
    "the rounding position is only checked where 2**(mantissa bits)/value is representable; below that only the error bound",
]


def f32(bits):
    return struct.unpack("<f", struct.pack("<I", bits))[0]


def f64(bits):
    return struct.unpack("<d", struct.pack("<Q", bits))[0]


FMT = {32: (f32, 23, 127, 254, Fraction(f32(0x7F7FFFFF))), 64: (f64, 52, 1023, 2046, Fraction(f64(0x7FEFFFFFFFFFFFFF)))}


# ---- exact model
def floor_log2(fr):
    n, d = fr.numerator, fr.denominator
    e = n.bit_length() - d.bit_length()
    if Fraction(2) ** e > fr:
        e -= 1
    return e


def nearest_even(v, gran):
    """v and gran Fractions; the multiple of gran nearest to v, ties to even."""
    q = v / gran
    lo = math.floor(q)
    r = q - lo
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and lo % 2 == 1):
        lo += 1
    return lo * gran


def model_float(val, err, width):
    """Exact expected value and rounding unit, or None where not determined."""
    _, man, bias, emax, _ = FMT[width]
    v, e = Fraction(val), Fraction(err)
    if v == 0:
        return Fraction(0)
    p = floor_log2(abs(v)) + bias  # biased exponent
    if p < man:  # the scale factor is not representable: see ASSUMPTIONS
        return None
    ulp = Fraction(2) ** (p - bias - man)
    ie = math.floor(e / ulp)
    if ie == 0:
        return v
    gran = Fraction(2) ** (ie.bit_length()) * ulp
    if ie.bit_length() > man + 2:
        return Fraction(0)
    return nearest_even(abs(v), gran) * (1 if v > 0 else -1)


def same_sign(a, b):
    return math.copysign(1.0, a) == math.copysign(1.0, b)


def check_one(val, err, got, width, slack=Fraction(0), extra=Fraction(0)):
    """slack: relative uncertainty of err as computed by the code (array forms)."""
    check(math.isfinite(got), "truncating %r within %r gave %r", val, err, got)
    check(same_sign(val, got), "sign changed: %r -> %r", val, got)
    d = abs(Fraction(got) - Fraction(val))
    check(d <= Fraction(err) * (1 + slack) + extra, "error %r over tolerance %r: %r -> %r", float(d), err, val, got)
    if err == 0 and not extra:
        check(got == val, "tolerance 0 changed %r to %r", val, got)
    if extra:
        return
    want = {model_float(val, e, width) for e in ([Fraction(err)] if not slack else
            [Fraction(err) * (1 - slack), Fraction(err), Fraction(err) * (1 + slack)])}
    if None not in want:
        check(Fraction(got) in want, "%r within %r gave %r, expected one of %s", val, err, got,
              [float(w) for w in want])


# ---- generators
def bits(width):
    _, man, bias, emax, _ = FMT[width]

    @st.composite
    def gen(draw):
        s = draw(st.integers(0, 1))
        kind = draw(st.integers(0, 9))
        if kind == 0:
            e = draw(st.integers(0, 2))
        elif kind == 1:
            e = draw(st.integers(emax - 2, emax))
        elif kind == 2:  # where 2**(man+bias-e) leaves the exponent range
            e = draw(st.integers(max(0, man - 6), man + 4))
        elif kind <= 6:
            e = draw(st.integers(bias - 30, bias + 30))
        else:
            e = draw(st.integers(0, emax))
        mk = draw(st.integers(0, 3))
        if mk == 0:
            m = draw(st.integers(0, 2**man - 1))
        elif mk == 1:  # a few high bits
            k = draw(st.integers(0, 8))
            m = draw(st.integers(0, 2**k - 1)) << (man - k)
        elif mk == 2:  # near the next power of two: carries
            m = 2**man - 1 - draw(st.integers(0, 64))
        else:  # one low-order pattern: ties
            k = draw(st.integers(0, man - 1))
            m = (draw(st.integers(0, 2 ** (man - k) - 1)) << k) & (2**man - 1)
        return (s << (width - 1)) | (e << man) | m
    return gen()


def no_overflow(val, err, width):
    fmax = FMT[width][4]
    return abs(Fraction(val)) * 2 < fmax or Fraction(err) == 0


def scalar_case(width):
    conv, man, bias, emax, _ = FMT[width]

    @st.composite
    def gen(draw):
        vb = draw(bits(width))
        ek = draw(st.integers(0, 5))
        if ek == 0:
            eb = 0
        elif ek == 1:
            eb = draw(bits(width)) & ~(1 << (width - 1))
        else:  # an error comparable with the value's bits
            p = (vb >> man) & emax if False else (vb >> man) & (2 ** (width - 1 - man) - 1)
            q = p + draw(st.integers(-man - 2, 3))
            q = min(max(q, 0), emax)
            m = draw(st.one_of(st.just(0), st.integers(0, 2**man - 1), st.just(2**man - 1), st.just(1)))
            eb = (q << man) | m
        return {"w": width, "v": vb, "e": eb}
    return gen()


def run_scalar(c, ctx):
    from caput.util import truncate as tr

    conv, man, bias, emax, _ = FMT[c["w"]]
    val, err = conv(c["v"]), conv(c["e"])
    if not no_overflow(val, err, c["w"]):
        return Info(False)
    f = tr.bit_truncate_float if c["w"] == 32 else tr.bit_truncate_double
    got = float(f(val, err))
    check_one(val, err, got, c["w"])
    if model_float(val, err, c["w"]) is not None:
        # a second pass finds nothing left to round unless the value changed exponent
        again = float(f(got, err))
        check_one(got, err, again, c["w"])
        if got != 0 and abs(got) >= abs(val):
            check(again == got, "not idempotent: %r -> %r -> %r", val, got, again)
    return Info(got != val, [("changed" if got != val else "same"), f"w{c['w']}"])


@st.composite
def int_case(draw):
    w = draw(st.sampled_from([32, 64]))
    top = w - 2  # err < 2**top
    k = draw(st.integers(0, top))
    err = draw(st.one_of(st.integers(0, 2**k - 1), st.just(2**k - 1), st.just(max(0, 2 ** (k - 1) if k else 0))))
    gran = 1 << err.bit_length() if err else 1
    lim = 2 ** (w - 1) - 1 - gran
    base = draw(st.one_of(st.integers(-lim, lim), st.integers(-min(lim, 1000), min(lim, 1000))))
    if draw(st.booleans()) and gran > 1:
        base = (base // gran) * gran + gran // 2 + draw(st.integers(-1, 1))
        base = max(-lim, min(lim, base))
    return {"w": w, "v": base, "e": err}


def run_int(c, ctx):
    from caput.util import truncate as tr

    f = tr.bit_truncate_int if c["w"] == 32 else tr.bit_truncate_long
    v, e = c["v"], c["e"]
    got = f(v, e)
    gran = 1 << e.bit_length() if e else 1
    want = int(nearest_even(Fraction(v), Fraction(gran)))
    check(abs(got - v) <= e, "error over tolerance: %r within %r gave %r", v, e, got)
    check(got == want, "%r within %r gave %r, expected %r", v, e, got, want)
    check(f(got, e) == got, "not idempotent")
    return Info(got != v, [f"w{c['w']}"])


# ---- array forms
@st.composite
def array_case(draw):
    w = draw(st.sampled_from([32, 64]))
    man, bias = FMT[w][1], FMT[w][2]
    n = draw(st.integers(0, 40))
    # keep away from the extremes of the exponent: the tolerances are computed in the code
    vals = []
    base = draw(st.sampled_from([0, 0, 100, -100, 300, -300])) if w == 64 else 0
    for _ in range(n):
        e = bias + base + draw(st.integers(-40, 40))
        m = draw(st.one_of(st.integers(0, 2**man - 1), st.integers(0, 255).map(lambda k: k << (man - 8))))
        z = draw(st.integers(0, 11)) == 0
        vals.append(0 if z else (draw(st.integers(0, 1)) << (w - 1)) | (e << man) | m)
    form = draw(st.sampled_from(["weights", "relative"]))
    prec = draw(st.sampled_from([0.0, 1e-6, 1e-4, 1e-3, 0.01, 0.1, 0.25, 0.5, 2**-10, 0.99]))
    wts = []
    if form == "weights":
        for v in vals:
            k = draw(st.integers(0, 4))
            if k == 0:
                wts.append(0.0)
            else:
                wts.append(draw(st.floats(1e-3, 1e3)) * 10.0 ** draw(st.integers(-20, 20)) * 4.0 ** -base)
    return {"w": w, "vals": vals, "form": form, "prec": prec, "wts": wts,
            "stride": draw(st.integers(1, 3)), "neg": draw(st.booleans()), "tile": draw(st.sampled_from([1] * 7 + [7, 40])), "wstride": draw(st.integers(1, 2))}


def run_array(c, ctx):
    import numpy as np

    from caput.util import truncate as tr

    conv = FMT[c["w"]][0]
    dt = np.float32 if c["w"] == 32 else np.float64
    vals = np.tile(np.array([conv(b) for b in c["vals"]], dtype=dt), c.get("tile", 1))
    n, s = len(vals), c["stride"]
    buf = np.full((n, s), 7.0, dtype=dt)
    view = buf[::-1, 0] if c["neg"] else buf[:, 0]
    view[:] = vals
    changed = False
    if c["form"] == "relative":
        out = tr.bit_truncate_relative(view, c["prec"])
    else:
        w0 = np.tile(np.array(c["wts"], dtype=dt), c.get("tile", 1))
        wb = np.zeros((n, c["wstride"]), dtype=dt)
        wv = wb[:, 0]
        wv[:] = w0
        out = tr.bit_truncate_weights(view, wv, c["prec"])
        check(np.array_equal(wv, w0), "the weights were modified")
    check(out.shape == (n,) and out.dtype == dt, "wrong result type")
    check(n == 0 or np.shares_memory(out, buf), "the result does not share memory with the input")
    check(np.array_equal(out, view), "the result differs from the input array modified in place")
    check(np.all(buf[:, 1:] == 7.0), "elements outside the array were modified")
    for i in range(n):
        v, got = float(vals[i]), float(out[i])
        if c["form"] == "relative":
            err = float(dt(abs(dt(c["prec"]) * dt(v))))
            sl = Fraction(1, 10**6) if c["w"] == 32 else Fraction(1, 10**14)
        elif float(w0[i]) == 0.0:
            err = float(dt(abs(dt(c["prec"]) * dt(v))))
            sl = Fraction(1, 10**6) if c["w"] == 32 else Fraction(1, 10**14)
        else:
            err = 1.0 / math.sqrt(float(w0[i]))
            if c["w"] == 32:
                err = float(np.float32(err))
            sl = Fraction(1, 10**6) if c["w"] == 32 else Fraction(1, 10**13)
        if not math.isfinite(err):
            continue
        check_one(v, err, got, c["w"], slack=sl)
        changed |= got != v
    return Info(changed, [c["form"], f"stride{c['stride']}"])


@st.composite
def complex_case(draw):
    n, m = draw(st.integers(0, 4)), draw(st.integers(1, 6))
    scale = draw(st.integers(-12, 12))
    el = st.tuples(st.floats(-1, 1, width=32), st.floats(-1, 1, width=32), st.integers(-4, 4))
    rows = [[draw(el) for _ in range(m)] for _ in range(n)]
    rows = [[[a * 10.0 ** (scale + k), b * 10.0 ** (scale + k)] for a, b, k in r] for r in rows]
    pr = st.sampled_from([0.0, 1e-7, 1e-4, 1e-3, 0.01, 0.1, 0.3])
    return {"rows": rows, "m": m, "prec": draw(pr), "pmax": draw(pr), "lay": draw(st.sampled_from(["C", "F", "rev", "step"])),
            "tile": draw(st.sampled_from([[1, 1]] * 5 + [[1, 5], [1, 40], [13, 1], [3, 9]]))}


def run_complex(c, ctx):
    import numpy as np

    from caput.util import truncate as tr

    a = np.array([[complex(*x) for x in r] for r in c["rows"]], dtype=np.complex128).reshape(-1, c["m"])
    a = np.where(np.abs(a) < 1e-30, 0, a)
    a = np.tile(a, c.get("tile", [1, 1]))
    n, m = a.shape
    if c["lay"] == "C":
        v = a.copy()
    elif c["lay"] == "F":
        v = np.array(a, order="F", copy=True)
    elif c["lay"] == "rev":
        v = a[::-1].copy()[::-1]
    else:
        b = np.full((n, 2 * m), 9 + 9j)
        v = b[:, ::2]
        v[:] = a
    out = tr.bit_truncate_max_complex(v, c["prec"], c["pmax"])
    check(out.shape == a.shape and out.dtype == np.complex128, "wrong result type")
    check(np.array_equal(out, v), "not modified in place")
    if c["lay"] == "step":
        check(np.all(b[:, 1::2] == 9 + 9j), "elements outside the array were modified")
    p, q = float(np.float32(c["prec"])), float(np.float32(c["pmax"]))
    changed = False
    for i in range(n):
        mx = float(np.max(np.abs(a[i])))
        for j in range(m):
            tol = max(p * abs(complex(a[i, j])), q * mx)
            for x, g in ((a[i, j].real, out[i, j].real), (a[i, j].imag, out[i, j].imag)):
                x, g = float(x), float(g)
                f = float(np.float32(x))
                check(math.isfinite(g), "not finite")
                check(same_sign(x, g), "sign changed: %r -> %r", x, g)
                check(abs(g - x) <= tol * (1 + 1e-5) + abs(x) * 2**-23 + 1.5e-45, "error %r over tolerance %r for %r", abs(g - x), tol, x)
                if tol == 0:
                    check(g == f, "zero tolerance changed %r to %r", f, g)
                else:
                    # rounding position: one of the two neighbouring powers of two when the
                    # tolerance is itself at a power of two to within rounding
                    want = {model_float(f, Fraction(tol) * k, 32) for k in (Fraction(99999, 100000), 1, Fraction(100001, 100000))}
                    if None not in want:
                        check(Fraction(g) in want, "%r within %r gave %r, expected one of %s", f, tol, g, [float(w) for w in want])
                changed |= g != x
    return Info(changed, [c["lay"]])


PARTS = [
    Part("float32", lambda: scalar_case(32), run_scalar, quick=4000, shards=2,
         rule="float32 bit patterns (all exponents, ties, carries) and tolerances relative to the value's bits; non-trivial: the value changes"),
    Part("float64", lambda: scalar_case(64), run_scalar, quick=4000, shards=2,
         rule="as float32 for float64"),
    Part("int", int_case, run_int, quick=3000, shards=1, rule="32- and 64-bit integers near ties; non-trivial: the value changes"),
    Part("array", array_case, run_array, quick=500, shards=2, omp=2,
         rule="1-D strided arrays with weights or relative tolerance; non-trivial: some element changes"),
    Part("complex", complex_case, run_complex, quick=400, shards=1, omp=2,
         rule="2-D complex arrays in several layouts; non-trivial: some element changes"),
]
