"""C36: polyphase filter bank."""

import math

from hypothesis import strategies as st

from vf.core import Info, Part, check, close_array, same_array

PROPERTY = "C36"
EXTS = {}
ASSUMPTIONS = ["real time streams; even block lengths of at least 4", "decorrelation ratios for an oversampling of at least 4",
               "interpolated channel profiles are compared at 2e-3 of the peak inside the sampled range, for oversampling of at least 8"]

WIN = ["default", "sinc", "hann", "hamming", "custom"]


def common(draw):
    return {"ntap": draw(st.integers(1, 5)), "half": draw(st.integers(2, 12)), "win": draw(st.sampled_from(WIN)),
            "seed": draw(st.integers(0, 10**6))}


def window(name, np):
    """Independent definitions."""
    def f(ntap, lblock):
        n = ntap * lblock
        t = np.arange(n)
        x = t / lblock - ntap / 2
        s = np.where(x == 0, 1.0, np.sin(np.pi * x) / np.where(x == 0, 1.0, np.pi * x))
        if name == "sinc":
            return s
        if name == "hann":
            return s * (0.5 - 0.5 * np.cos(2 * np.pi * t / (n - 1)))
        if name == "custom":
            return 1.0 + 0.1 * t
        return s * (0.54 - 0.46 * np.cos(2 * np.pi * t / (n - 1)))
    return f


def make(c, np, os=None):
    from caput.util import pfb

    ref = window(c["win"], np)
    w = {"default": None, "sinc": pfb.sinc_window, "hann": pfb.sinc_hann, "hamming": pfb.sinc_hamming, "custom": ref}[c["win"]]
    kw = {} if os is None else {"oversample": os}
    if w is not None:
        kw["window"] = w
    return pfb.PFB(c["ntap"], 2 * c["half"], **kw), ref(c["ntap"], 2 * c["half"])


@st.composite
def streams(draw):
    c = common(draw)
    c["blocks"] = draw(st.integers(0, 6))
    c["extra"] = draw(st.integers(0, 23))
    c["dt"] = draw(st.sampled_from(["f8", "f4", "i4", "i1"]))
    c["scale"] = draw(st.sampled_from([1.0, 1e-3, 100.0]))
    return c


def run_streams(c, ctx):
    import numpy as np

    L = 2 * c["half"]
    bank, w = make(c, np)
    n = (c["blocks"] + c["ntap"] - 1) * L + c["extra"] % L
    rng = np.random.default_rng(c["seed"])
    x = rng.normal(size=n) * (c["scale"] if c["dt"][0] == "f" else 30)
    x = x.astype(c["dt"])
    x0 = x.copy()
    got = bank.apply(x)
    same_array(x, x0, "the time stream was changed")
    check(got.shape == (c["blocks"], c["half"]), "shape %s, expected %s", got.shape, (c["blocks"], c["half"]))
    check(got.dtype == np.complex128, "dtype %s", got.dtype)
    # the definition: channel k of block b is the windowed sum at frequency k/L
    t = np.arange(c["ntap"] * L)
    E = np.exp(-2j * np.pi * np.outer(np.arange(c["half"]), t) / L)
    want = np.array([E @ (x[b * L:(b + c["ntap"]) * L].astype("f8") * w) for b in range(c["blocks"])]).reshape(c["blocks"], c["half"])
    sc = float(np.max(np.abs(x))) * len(t) + 1e-300 if n else 1.0
    tol = 1e-12 if c["dt"] != "f4" else 1e-6
    close_array(got, want, 0, tol * sc * float(np.max(np.abs(w)) + 1e-300), "filter bank output")
    # again, and after other use of the object
    same_array(bank.apply(x), got, "a second call")
    if c["dt"] == "f8" and c["blocks"]:
        y = rng.normal(size=n)
        close_array(bank.apply(2 * x - 3 * y), 2 * got - 3 * bank.apply(y), 0, 1e-11 * (sc + len(t) * 10) * (1 + np.max(np.abs(w))), "linearity")
        if c["blocks"] > 1:
            same_array(bank.apply(x[L:]), got[1:], "after a shift by one block")
    return Info(c["blocks"] > 0 and c["ntap"] > 1, [c["win"], c["dt"]])


def run_windows(c, ctx):
    import numpy as np

    from caput.util import pfb

    L = 2 * c["half"]
    n = c["ntap"] * L
    for name, f in (("sinc", pfb.sinc_window), ("hann", pfb.sinc_hann), ("hamming", pfb.sinc_hamming)):
        got = f(c["ntap"], L)
        check(got.shape == (n,), "%s: shape %s", name, got.shape)
        close_array(got, window(name, np)(c["ntap"], L), 0, 1e-12, f"{name} window")
    return Info(n > 2)


@st.composite
def delays(draw):
    c = common(draw)
    c["os"] = draw(st.sampled_from([4, 8, 16]))
    c["d"] = draw(st.lists(st.floats(0, 1.5), min_size=1, max_size=8))
    c["int"] = draw(st.lists(st.integers(0, 1000), max_size=6))
    return c


def run_delays(c, ctx):
    import numpy as np

    L = 2 * c["half"]
    N = c["ntap"] * L
    bank, w = make(c, np, c["os"])
    tau = np.array([x * N for x in c["d"]])
    t0 = tau.copy()
    r = bank.decorrelation_ratio(tau)
    same_array(tau, t0, "the delays were changed")
    check(r.shape == tau.shape, "shape %s", r.shape)
    check(np.all(np.isfinite(r)), "not finite")
    check(np.all(np.abs(r) <= 1 + 1e-9), "the ratio exceeds one: %s at %s", r, tau)
    close_array(bank.decorrelation_ratio(-tau), r, 0, 1e-9, "symmetry in delay")
    check(np.all(r[tau > N] == 0), "not zero beyond the window: %s at %s", r, tau)
    check(abs(float(bank.decorrelation_ratio(0.0)) - 1) <= 1e-12, "not one without delay")
    # the autocorrelation of the window at whole samples
    wf = np.abs(np.fft.rfft(w, n=N * c["os"])) ** 2
    total = 2 * wf.sum() - wf[0] - wf[-1]
    slack = 1e-9 + 4 * wf[-1] / total
    for k in c["int"]:
        k = k % (N + 3)
        want = float(np.sum(w[k:] * w[: max(N - k, 0)])) / float(np.sum(w * w)) if k < N else 0.0
        got = float(bank.decorrelation_ratio(k))
        check(abs(got - want) <= slack, "ratio at %d is %r, expected %r", k, got, want)
        check(abs(float(bank.decorrelation_ratio(np.array([float(k)]))[0]) - got) <= 1e-12, "array and scalar differ")
    return Info(len(c["int"]) > 0, [c["win"], str(c["os"])])


@st.composite
def profiles(draw):
    c = common(draw)
    c["os"] = draw(st.sampled_from([1, 2, 8, 16]))
    c["f"] = draw(st.lists(st.floats(-0.99, 0.99), min_size=1, max_size=6))
    c["calls"] = draw(st.lists(st.booleans(), min_size=1, max_size=4))
    return c


def run_profiles(c, ctx):
    import numpy as np

    L = 2 * c["half"]
    N = c["ntap"] * L
    bank, w = make(c, np, c["os"])
    t = np.arange(N)

    def direct(f):
        return np.exp(-2j * np.pi * np.outer(f, t) / L) @ w

    for norm in c["calls"]:
        f, p = bank.compute_channel_profile(norm=norm)
        M = N * c["os"]
        check(f.shape == p.shape == (M,), "shapes %s %s", f.shape, p.shape)
        close_array(f, (np.arange(M) - M // 2) / (c["ntap"] * c["os"]), 0, 1e-9, "frequencies")
        d = direct(f)
        pk = d.real.max()
        size = np.max(np.abs(d))
        if norm:
            if abs(pk) <= 1e-6 * size:
                continue
            d = d / pk
            size = size / abs(pk)
        close_array(p, d, 0, 1e-9 * size * (1 if not norm else max(1, 1 / abs(pk))), "channel profile")
        # response to a tone is the profile: here by interpolation, in any call order
        if c["os"] >= 8 and c["win"] != "custom":
            x = np.array(c["f"]) * c["half"] * 0.9
            g = bank.evaluate_channel_profile(x, norm=norm)
            check(g.shape == x.shape, "shape %s", g.shape)
            e = direct(x) / (pk if norm else 1.0)
            close_array(g, e, 0, 2e-3 * size, f"interpolated profile (norm={norm})")
        # exactly at the computed frequencies
        g = bank.evaluate_channel_profile(f, norm=norm)
        close_array(g, p, 0, 1e-9 * size, f"profile at computed frequencies (norm={norm})")
    out = bank.evaluate_channel_profile(np.array([-c["half"] * 1.01 - 1, c["half"] * 1.01 + 1]), norm=c["calls"][-1])
    check(np.all(np.isnan(out)), "outside the sampled range: %s", out)
    return Info(c["ntap"] > 1 and len(set(c["calls"])) > 1, [c["win"]])


@st.composite
def wins(draw):
    return common(draw)


PARTS = [
    Part("apply", streams, run_streams, quick=400, shards=2, rule="time streams of any length, tap and channel count, windows, dtypes, against the direct sum; non-trivial: several taps and at least one block"),
    Part("windows", wins, run_windows, quick=150, shards=1, rule="window functions against their formulas; non-trivial: more than two samples"),
    Part("delays", delays, run_delays, quick=200, shards=2, rule="decorrelation against the window's autocorrelation; non-trivial: whole-sample delays included"),
    Part("profiles", profiles, run_profiles, quick=150, shards=2, rule="channel profiles against the direct transform, normalised or not in any call order; non-trivial: both in one history"),
]
