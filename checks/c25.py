"""C25: moving weighted median."""

import math
from fractions import Fraction

from hypothesis import strategies as st

from vf.core import Info, Part, check

PROPERTY = "C25"
EXTS = {"weighted": "full", "invert": "fast"}
ASSUMPTIONS = ["a window without any weight gives NaN in 1-D; in 2-D and for window size 1 what it gives is not specified",
               "weights are non-negative with sums exact in double precision"]
DT = ["i4", "i8", "f4", "f8"]


def values(draw, n):
    kind = draw(st.sampled_from(["ties", "wide", "up", "down", "saw", "const"]))
    if kind == "ties":
        return draw(st.lists(st.integers(-3, 3), min_size=n, max_size=n))
    if kind == "wide":
        return draw(st.lists(st.integers(-1000, 1000), min_size=n, max_size=n))
    if kind == "up":
        return list(range(n))
    if kind == "down":
        return list(range(n, 0, -1))
    if kind == "saw":
        p = draw(st.integers(2, 9))
        m = draw(st.integers(1, 7))
        return [(i * m) % p for i in range(n)]
    return [draw(st.integers(-3, 3))] * n


def weights(draw, n):
    kind = draw(st.sampled_from(["one", "small", "zeros", "wide", "run"]))
    if kind == "one":
        return [1] * n
    if kind == "small":
        return draw(st.lists(st.integers(0, 3), min_size=n, max_size=n))
    if kind == "zeros":
        return draw(st.lists(st.sampled_from([0, 0, 0, 1, 2]), min_size=n, max_size=n))
    if kind == "wide":
        return draw(st.lists(st.integers(0, 2**16), min_size=n, max_size=n))
    a = draw(st.integers(0, n))
    b = draw(st.integers(a, n))
    return [0 if a <= i < b else 1 + i % 3 for i in range(n)]


@st.composite
def case1(draw):
    n = draw(st.one_of(st.integers(1, 12), st.integers(1, 70)))
    return {"shape": [n], "A": values(draw, n), "W": weights(draw, n),
            "size": draw(st.one_of(st.sampled_from([1, 3, 5, 7]), st.integers(0, 40).map(lambda k: 2 * k + 1))),
            "tup": draw(st.booleans()), "nan": draw(st.booleans()),
            "dt": draw(st.sampled_from(DT)), "wdt": draw(st.sampled_from(DT)),
            "method": draw(st.sampled_from(["split", "lower", "higher"])), "lay": draw(st.sampled_from(["C", "C", "step", "rev", "list"]))}


@st.composite
def case2(draw):
    ny, nx = draw(st.integers(1, 9)), draw(st.integers(1, 9))
    odd = st.integers(0, 6).map(lambda k: 2 * k + 1)
    return {"shape": [ny, nx], "A": values(draw, ny * nx), "W": weights(draw, ny * nx),
            "size": [draw(odd), draw(odd)], "tup": True, "nan": draw(st.booleans()),
            "dt": draw(st.sampled_from(DT)), "wdt": draw(st.sampled_from(DT)),
            "method": draw(st.sampled_from(["split", "lower", "higher"])), "lay": draw(st.sampled_from(["C", "F", "step", "rev", "list"]))}


def reference(a, w, method):
    """a, w: lists with positive weights; Fraction."""
    el = sorted(zip(a, w))
    tot = sum(w)
    mid = Fraction(tot) / 2
    cand = []
    c = Fraction(0)
    for x, y in el:
        if c <= mid and tot - c - y <= mid:
            cand.append(x)
        c += y
    if method == "lower":
        return Fraction(min(cand))
    if method == "higher":
        return Fraction(max(cand))
    return Fraction(sum(Fraction(x) for x in cand)) / len(cand)


def lay(a, kind, np):
    if kind == "C":
        return np.array(a, order="C", copy=True)
    if kind == "F":
        return np.array(a, order="F", copy=True)
    if kind == "rev":
        return a[::-1].copy()[::-1]
    b = np.zeros(a.shape[:-1] + (2 * a.shape[-1],), dtype=a.dtype)
    v = b[..., ::2]
    v[...] = a
    return v


def run(c, ctx):
    import numpy as np

    from caput.algorithms import median

    shape = tuple(c["shape"])
    A = np.array(c["A"], dtype=c["dt"]).reshape(shape)
    W = np.array(c["W"], dtype=c["wdt"]).reshape(shape)
    W = W / 4 if W.dtype.kind == "f" else W
    W = W.astype(c["wdt"])
    if c["nan"] and A.dtype.kind == "f":
        A = np.where(W == 0, np.nan, A).astype(c["dt"])
    if c["lay"] == "list":
        a, w = A.tolist(), W.tolist()
    else:
        a, w = lay(A, c["lay"], np), lay(W, c["lay"], np)
    size = c["size"]
    if len(shape) == 2:
        sz = tuple(size)
        rad = [s // 2 for s in size]
    else:
        sz = (size,) if c["tup"] else size
        rad = [size // 2]
    res = median.moving_weighted_median(a, w, sz, method=c["method"])
    if c["lay"] != "list":
        check(np.array_equal(a, A, equal_nan=A.dtype.kind == "f") and np.array_equal(w, W), "the inputs were modified")
    check(res.shape == shape, "shape %s, expected %s", res.shape, shape)
    empty = False
    for idx in np.ndindex(*shape):
        sl = tuple(slice(max(0, i - r), i + r + 1) for i, r in zip(idx, rad))
        aa, ww = A[sl].ravel().tolist(), W[sl].ravel().tolist()
        el = [(x, y) for x, y in zip(aa, ww) if y > 0]
        got = float(res[idx])
        if not el:
            empty = True
            if len(shape) == 1 and sz != 1:
                check(math.isnan(got), "window without weight at %s gave %r, expected NaN", idx, got)
            continue
        want = reference([Fraction(x) for x, _ in el], [Fraction(y) for _, y in el], c["method"])
        check(not math.isnan(got) and Fraction(got) == want, "at %s (%s): got %r, expected %r; window %s weights %s", idx, c["method"], got, float(want), aa, ww)
    big = max(2 * r + 1 for r in rad) > 1 and A.size > 2
    return Info(big, [c["method"], c["lay"], *(["empty-window"] if empty else [])])


@st.composite
def even_case(draw):
    return {"n": draw(st.integers(2, 9)), "size": draw(st.integers(0, 10)) * 2, "d": draw(st.integers(1, 3)), "o": draw(st.booleans())}


def run_even(c, ctx):
    import numpy as np

    from caput.algorithms import median

    a = np.arange(float(c["n"] ** c["d"])).reshape((c["n"],) * c["d"])
    try:
        if c["d"] == 1:
            median.moving_weighted_median(a, np.ones_like(a), c["size"])
        elif c["d"] == 2:
            median.moving_weighted_median(a, np.ones_like(a), (c["size"], 3) if c["o"] else (3, c["size"]))
        else:
            median.moving_weighted_median(a, np.ones_like(a), (3, 3, 3))
    except (ValueError, NotImplementedError):
        return Info(True)
    raise AssertionError("an even window or unsupported dimension was accepted")


PARTS = [
    Part("1d", case1, run, quick=900, shards=3, rule="series up to 70 samples (random, monotone, saw-tooth, ties), zero-weight runs, windows 1..81, three methods; non-trivial: window over 1 and more than 2 samples"),
    Part("2d", case2, run, quick=600, shards=3, omp=2, rule="images up to 9x9, windows up to 13x13 both orientations; non-trivial as 1d"),
    Part("invalid", even_case, run_even, quick=60, rule="even windows and 3-D data must be refused"),
]
