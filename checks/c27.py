"""C27: FFT."""

import math

from hypothesis import strategies as st

from vf.core import Info, Part, check, close_array

PROPERTY = "C27"
EXTS = {"weighted": "fast", "invert": "fast"}
ASSUMPTIONS = ["agreement is to a rounding tolerance of 64 eps log2(n) times the norm"]


@st.composite
def case(draw):
    nd = draw(st.integers(1, 3))
    shape = [draw(st.sampled_from([1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 16])) for _ in range(nd)]
    k = draw(st.integers(0, nd))
    axes = None
    if k:
        axes = draw(st.permutations(range(nd)))[:k]
        axes = [a - nd if draw(st.booleans()) else a for a in axes]
    op = draw(st.lists(st.sampled_from(["fft", "ifft", "conv", "window"]), min_size=1, max_size=5))
    return {"shape": shape, "axes": axes, "intaxis": k == 1 and draw(st.booleans()),
            "dt": draw(st.sampled_from(["c16", "c16", "c8"])), "ops": op, "seed": draw(st.integers(0, 10**6)),
            "lay": draw(st.sampled_from(["C", "F", "step", "offset"])),
            "win": draw(st.sampled_from(["real", "complex", "bcast"])), "obj": draw(st.booleans()),
            "special": draw(st.sampled_from(["rand", "rand", "delta", "const", "zero"]))}


def layout(a, kind, np):
    if kind == "C":
        return a.copy()
    if kind == "F":
        return np.array(a, order="F", copy=True)
    if kind == "step":
        b = np.zeros(a.shape[:-1] + (2 * a.shape[-1],), dtype=a.dtype)
        v = b[..., ::2]
    else:
        b = np.zeros(a.size + 1, dtype=a.dtype)
        v = b[1:].reshape(a.shape)
    v[...] = a
    return v


def run(c, ctx):
    import numpy as np

    from caput.algorithms.fft import fftw

    rng = np.random.default_rng(c["seed"])
    shape = tuple(c["shape"])
    dt = np.dtype(c["dt"])
    axes = None if c["axes"] is None else tuple(c["axes"])
    arg = axes[0] if c["intaxis"] else axes
    nax = axes if axes is not None else tuple(range(len(shape)))
    n = math.prod(shape[a] for a in nax)

    def arr():
        if c["special"] == "delta":
            a = np.zeros(shape, dtype=dt)
            a[tuple(rng.integers(0, s) for s in shape)] = 1 + 2j
            return a
        if c["special"] == "const":
            return np.full(shape, 2 - 1j, dtype=dt)
        if c["special"] == "zero":
            return np.zeros(shape, dtype=dt)
        return (rng.standard_normal(shape) + 1j * rng.standard_normal(shape)).astype(dt)

    eps = np.finfo(dt).eps
    obj = fftw.FFTW(shape, dt, axes=arg) if c["obj"] else None
    results = []
    inputs = []
    for op in c["ops"]:
        x0 = arr()
        x = layout(x0, c["lay"], np)
        y0 = w0 = None
        x8 = x0.astype("c16")
        X = np.fft.fftn(x8, axes=nax)
        if op == "fft":
            got = obj.fft(x) if obj else fftw.fft(x, axes=arg)
            want = X
        elif op == "ifft":
            got = obj.ifft(x) if obj else fftw.ifft(x, axes=arg)
            want = np.fft.ifftn(x8, axes=nax)
        elif op == "conv":
            y0 = arr()
            y = layout(y0, c["lay"], np)
            got = obj.fftconvolve(x, y) if obj else fftw.fftconvolve(x, y, axes=arg)
            want = np.fft.ifftn(X * np.fft.fftn(y0.astype("c16"), axes=nax), axes=nax)
            if n <= 40 and len(nax) == 1:
                # directly from the definition of the circular convolution
                ax = nax[0]
                a = np.moveaxis(x8, ax, 0)
                b = np.moveaxis(y0.astype("c16"), ax, 0)
                d = np.zeros_like(a)
                for i in range(n):
                    for j in range(n):
                        d[(i + j) % n] += a[i] * b[j]
                want = np.moveaxis(d, 0, ax)
        else:
            w0 = rng.standard_normal(shape)
            if c["win"] == "complex":
                w0 = (w0 + 1j * rng.standard_normal(shape)).astype(dt)
            elif c["win"] == "bcast":
                w0 = rng.standard_normal(shape[-1])
            w0 = w0.astype(dt) if w0.dtype.kind == "c" else w0.astype("f4" if dt == np.complex64 else "f8")
            w = w0.copy()
            got = obj.fftwindow(x, w) if obj else fftw.fftwindow(x, w, axes=arg)
            want = np.fft.ifftn(X * w0, axes=nax)
            check(np.array_equal(w, w0), "the window was modified")
        check(np.array_equal(x, x0), "%s modified its input", op)
        inputs.append((op, x, x0))
        if y0 is not None:
            check(np.array_equal(y, y0), "%s modified its second input", op)
        check(got.shape == shape and got.dtype == dt, "%s: shape or dtype %s %s", op, got.shape, got.dtype)
        check(not np.shares_memory(got, x), "%s returned memory of the input", op)
        scale = float(np.max(np.abs(want))) if want.size else 0.0
        tol = 64 * eps * (scale + 1) * (1 + math.log2(n + 1)) * (1 if op in ("fft", "ifft") else math.sqrt(n) + 4)
        close_array(got, want, 0, tol, f"{op} over axes {axes} of {shape}")
        results.append((op, got, np.array(got, copy=True), want))
        if op == "fft":
            back = obj.ifft(got) if obj else fftw.ifft(got, axes=arg)
            close_array(back, x0, 0, 64 * eps * (1 + float(np.max(np.abs(x0)))) * (1 + math.log2(n + 1)), "inverse of the forward transform")
            check(np.array_equal(got, results[-1][2]), "the inverse transform modified its input")
    for op, got, keep, want in results:
        check(np.array_equal(got, keep), "a later call changed the result of an earlier %s", op)
    for op, x, x0 in inputs:
        check(np.array_equal(x, x0), "a later call changed the input of an earlier %s", op)
    return Info(n > 1 and c["special"] == "rand", [c["dt"], c["lay"], "obj" if c["obj"] else "fn", f"naxes{len(nax)}"])


SCIPY = ["fft", "ifft", "rfft", "irfft", "hfft", "fft2", "ifft2", "rfftn", "fftn", "ifftn", "dct", "dst", "fftshift", "fftfreq", "next_fast_len"]


@st.composite
def sp_case(draw):
    nd = draw(st.integers(1, 3))
    return {"f": draw(st.sampled_from(SCIPY)), "shape": [draw(st.integers(2, 9)) for _ in range(nd)],
            "seed": draw(st.integers(0, 1000)), "axis": draw(st.integers(-1, nd - 1)), "n": draw(st.sampled_from([None, 5, 12])),
            "norm": draw(st.sampled_from([None, "ortho", "forward"])), "workers": draw(st.sampled_from([None, 1, 2])),
            "real": draw(st.booleans())}


def run_sp(c, ctx):
    import numpy as np
    import scipy.fft

    from caput.algorithms import fft

    rng = np.random.default_rng(c["seed"])
    f = c["f"]
    mine, ref = getattr(fft, f), getattr(scipy.fft, f)
    if f == "fftfreq":
        a = mine(c["shape"][0], 0.5)
        return Info(np.array_equal(a, np.fft.fftfreq(c["shape"][0], 0.5)) or check(False, "fftfreq differs"))
    if f == "next_fast_len":
        check(mine(c["seed"] + 1) == ref(c["seed"] + 1), "next_fast_len differs")
        return Info(False)
    real = c["real"] or f in ("rfft", "rfftn", "dct", "dst")
    x = rng.standard_normal(c["shape"])
    if not real:
        x = x + 1j * rng.standard_normal(c["shape"])
    if f in ("fft2", "ifft2") and len(c["shape"]) < 2:
        return Info(False)
    kw = {}
    if f != "fftshift" and c["norm"]:
        kw["norm"] = c["norm"]
    if f in ("fft", "ifft", "rfft", "irfft", "hfft", "dct", "dst"):
        kw["axis"] = c["axis"]
        if c["n"]:
            kw["n"] = c["n"]
    x0 = x.copy()
    want = ref(x.copy(), **kw)
    wk = {"workers": c["workers"]} if c["workers"] and f != "fftshift" else {}
    got = mine(x, **kw, **wk)
    check(np.array_equal(x, x0), "%s modified its input", f)
    close_array(got, want, 1e-12, 1e-12, f)
    check(got.dtype == want.dtype, "%s: dtype", f)
    return Info(True, [f])


PARTS = [
    Part("fftw", case, run, quick=500, shards=6, rule="sequences of up to 5 transforms, convolutions and windows on one object or the functions, "
         "1-3 dimensions, any axes, both precisions, four layouts; non-trivial: more than one point and random data"),
    Part("scipy", sp_case, run_sp, quick=200, shards=1, rule="re-exported transforms against scipy; non-trivial: a transform was made"),
]
