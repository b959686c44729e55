"""C24: weighted quantile and median."""

import math
from fractions import Fraction

from hypothesis import strategies as st

from vf.core import Info, Part, check

PROPERTY = "C24"
EXTS = {"weighted": "full", "invert": "fast"}
ASSUMPTIONS = ["weights are non-negative and their partial sums exact in double precision",
               "the quantile is along the last axis of C-contiguous arrays or lists, as documented"]

DT = ["i4", "i8", "f4", "f8"]


@st.composite
def case(draw):
    ndim = draw(st.integers(1, 3))
    n = draw(st.one_of(st.integers(1, 6), st.integers(1, 40)))
    lead = draw(st.lists(st.integers(1, 3), min_size=ndim - 1, max_size=ndim - 1))
    rows = math.prod(lead)
    dt, wdt = draw(st.sampled_from(DT)), draw(st.sampled_from(DT))
    spread = draw(st.sampled_from([1, 3, 10, 1000]))
    el = st.integers(-spread, spread)
    sc = draw(st.sampled_from([1, 1, 0.25, 1e6 if dt != "i4" else 1])) if dt[0] == "f" else 1
    wk = draw(st.sampled_from(["small", "zeros", "wide", "one", "wider"]))
    wel = {"small": st.integers(0, 4), "zeros": st.integers(-4, 2).map(lambda k: max(k, 0)),
           "wide": st.integers(0, 2**18), "wider": st.integers(2**22, 2**24), "one": st.just(1)}[wk]
    A = [draw(st.lists(el, min_size=n, max_size=n)) for _ in range(rows)]
    pat = draw(st.integers(0, 5))
    if pat == 0:
        A = [sorted(r) for r in A]
    elif pat == 1:
        A = [sorted(r, reverse=True) for r in A]
    W = [draw(st.lists(wel, min_size=n, max_size=n)) for _ in range(rows)]
    q = draw(st.one_of(st.sampled_from([0.0, 0.25, 0.5, 0.5, 0.75, 1.0]), st.integers(0, 64).map(lambda k: k / 64),
                       st.floats(0, 1)))
    if draw(st.integers(0, 2)) == 0 and sum(W[0]):
        # just beside (or at) the boundary between two elements of the first row
        order = sorted(range(n), key=lambda i: A[0][i])
        k = draw(st.integers(1, n))
        t = sum(W[0][i] for i in order[:k]) + draw(st.sampled_from([-0.5, 0.5, 0, -0.25, 0.25]))
        q = min(max(t / sum(W[0]), 0.0), 1.0)
    return {"lead": lead, "n": n, "A": A, "W": W, "sc": sc, "dt": dt, "wdt": wdt, "q": q,
            "wsc": draw(st.sampled_from([1, 0.125, 8])) if wdt[0] == "f" else 1,
            "method": draw(st.sampled_from(["split", "lower", "higher"])),
            "aslist": draw(st.integers(0, 5)) == 0, "perm": draw(st.integers(0, 10**6)),
            "fn": draw(st.sampled_from(["quantile", "quantile", "median"]))}


def expected(a, w, q, method, isint):
    """Set of acceptable results (Fractions)."""
    if sum(w) == 0:
        w = [1.0] * len(w)
    wt = float(sum(Fraction(x) for x in w))
    qs = Fraction(wt * q)
    el = sorted((Fraction(x), Fraction(y)) for x, y in zip(a, w) if y > 0)
    tol = Fraction(wt) * Fraction(1, 10**12) if Fraction(q).denominator > 2**20 else 0
    ok = set()
    c = Fraction(0)
    for i, (x, y) in enumerate(el):
        lo, hi = c, c + y
        # inside element i
        if (lo < qs < hi) or (i == 0 and qs <= 0) or (i == len(el) - 1 and qs >= hi):
            ok.add(x)
        if tol and lo - tol <= qs <= hi + tol:
            ok.add(x)
        # boundary between i and i + 1
        if i + 1 < len(el) and abs(qs - hi) <= tol:
            nx = el[i + 1][0]
            if method == "lower":
                ok.add(x)
            elif method == "higher":
                ok.add(nx)
            else:
                m = (x + nx) / 2
                ok.update([Fraction(math.floor(m)), Fraction(math.ceil(m))] if isint else [m])
        c = hi
    return ok


def run(c, ctx):
    import numpy as np

    from caput.algorithms import median

    shape = [*c["lead"], c["n"]]
    A = (np.array(c["A"], dtype="f8").reshape(shape) * c["sc"]).astype(c["dt"])
    W = (np.array(c["W"], dtype="f8").reshape(shape) * c["wsc"]).astype(c["wdt"])
    A0, W0 = A.copy(), W.copy()
    q = c["q"] if c["fn"] == "quantile" else 0.5

    def call(a, w):
        if c["fn"] == "quantile":
            return median.quantile(a, w, q, method=c["method"])
        if c["method"] == "split":
            return median.weighted_median(a, w)
        return median.weighted_median(a, w, method=c["method"])

    if c["aslist"]:
        res = call(A.tolist(), W.tolist())
        isint = A.dtype.kind == "i"
    else:
        res = call(A, W)
        isint = A.dtype.kind == "i"
        check(np.asarray(res).dtype == A.dtype, "dtype %s, expected %s", np.asarray(res).dtype, A.dtype)
    check(np.array_equal(A, A0) and np.array_equal(W, W0), "the inputs were modified")
    check(np.shape(res) == tuple(c["lead"]), "shape %s, expected %s", np.shape(res), tuple(c["lead"]))
    if not c["lead"]:
        check(np.ndim(res) == 0 and not isinstance(res, np.ndarray), "a 1-D input did not give a scalar")
    flat = np.asarray(res).reshape(-1)
    Ar, Wr = A.reshape(-1, c["n"]), W.reshape(-1, c["n"])
    tie = zero = False
    for i in range(len(flat)):
        a, w = Ar[i].tolist(), Wr[i].tolist()
        ok = expected(a, w, q, c["method"], isint)
        got = Fraction(flat[i].item())
        if A.dtype == np.float32 and not c["aslist"]:
            okf = {Fraction(float(np.float32(float(x)))) for x in ok}
        else:
            okf = ok
        check(got in okf, "row %s weights %s q=%r %s gave %r, expected one of %s", a, w, q, c["method"], flat[i].item(),
              [float(x) for x in okf])
        zero |= 0 in w
        tie |= len(set(a)) < len(a)
    # permutation and weight scaling
    perm = np.random.default_rng(c["perm"]).permutation(c["n"])
    A2 = np.ascontiguousarray(A[..., perm])
    W2 = np.ascontiguousarray(W[..., perm])
    if W.dtype.kind == "f":
        W2 = W2 * W2.dtype.type(4)
    res2 = call(A2, W2)
    if Fraction(q).denominator <= 2**20:
        check(np.array_equal(np.asarray(res2).astype(A.dtype), np.asarray(res).astype(A.dtype)),
              "permuting the samples or scaling the weights changed the result: %s -> %s", res, res2)
    return Info(c["n"] > 2, [c["dt"] + "/" + c["wdt"], c["method"], *(["zero-weight"] if zero else []), *(["ties"] if tie else [])])


@st.composite
def bad_case(draw):
    return {"q": draw(st.one_of(st.floats(1.0000001, 1e6), st.floats(-1e6, -1e-9))), "kind": draw(st.sampled_from(["q", "shape", "method", "dtype", "wdtype"]))}


def run_bad(c, ctx):
    import numpy as np

    from caput.algorithms import median

    a, w = np.arange(5.0), np.ones(5)
    try:
        if c["kind"] == "q":
            median.quantile(a, w, c["q"])
        elif c["kind"] == "shape":
            median.quantile(a, np.ones(4), 0.5)
        elif c["kind"] == "method":
            median.quantile(a, w, 0.5, method="middle")
        elif c["kind"] == "dtype":
            median.quantile(a.astype("c16"), w, 0.5)
        else:
            median.quantile(a, w.astype("u2"), 0.5)
    except (ValueError, TypeError):
        return Info(True, [c["kind"]])
    raise AssertionError("invalid input was accepted")


PARTS = [
    Part("quantile", case, run, quick=2500, shards=4,
         rule="rows of up to 40 samples with ties and zero weights, all dtype pairs, quantiles in [0,1] incl. exact boundaries, three methods; "
              "non-trivial: more than two samples"),
    Part("invalid", bad_case, run_bad, quick=60, shards=1, rule="out of range quantiles, bad shapes, methods, dtypes; all non-trivial"),
]
