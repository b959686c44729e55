"""C28: multithreaded random numbers."""

import math

from hypothesis import strategies as st

from vf.core import Info, Part, check

PROPERTY = "C28"
EXTS = {"weighted": "fast", "invert": "fast", "truncate": "full"}
ASSUMPTIONS = ["Kolmogorov-Smirnov and mean bounds are at a level of about 1e-10 per test, with seeds fixed by the case"]

# name -> (positional parameter strategy, parameter names, has dtype, has out, cdf name)
METHODS = ["random", "integers", "uniform", "normal", "standard_normal", "poisson", "power", "exponential"]
SIZES = st.one_of(
    st.integers(900, 1100), st.integers(1, 50), st.integers(1000, 6000), st.integers(998, 1002),
    st.tuples(st.integers(1, 40), st.integers(1, 120)).map(list),
    st.tuples(st.integers(1, 7), st.integers(1, 30), st.integers(1, 30)).map(list),
)


@st.composite
def call(draw):
    m = draw(st.sampled_from(METHODS))
    c = {"m": m, "size": draw(SIZES), "style": draw(st.sampled_from(["pos", "kw", "kw"]))}
    if m == "integers":
        lo = draw(st.sampled_from([0, -5, -(2**40), 3]))
        hi = draw(st.sampled_from([lo + 1, lo + 7, 2**62]))
        c["p"] = [lo, hi]
        c["dtype"] = draw(st.sampled_from([None, "int64"])) if abs(lo) > 100 or hi > 100 else draw(st.sampled_from([None, "int64", "int32", "int16"]))
        c["endpoint"] = draw(st.booleans())
        c["one"] = lo == 0 and draw(st.booleans())
    elif m == "uniform":
        lo = draw(st.floats(-100, 100))
        c["p"] = [lo, lo + draw(st.floats(0.5, 100))]
    elif m == "normal":
        c["p"] = [draw(st.floats(-100, 100)), draw(st.floats(0.5, 50))]
    elif m == "poisson":
        c["p"] = [draw(st.floats(0.5, 200))]
    elif m == "power":
        c["p"] = [draw(st.floats(0.5, 5))]
    elif m == "exponential":
        c["p"] = [draw(st.floats(0.5, 5))]
    else:
        c["p"] = []
        c["dtype"] = draw(st.sampled_from([None, "float64", "float32"]))
        c["out"] = draw(st.sampled_from([None, None, "C", "F", "none"]))
    c["defaults"] = m in ("uniform", "normal") and draw(st.integers(0, 4)) == 0
    c["arrayparam"] = m in ("uniform", "normal") and draw(st.integers(0, 5)) == 0
    c["pkw"] = draw(st.integers(0, 2)) == 0
    return c


@st.composite
def case(draw):
    return {"seed": draw(st.integers(0, 2**40)), "threads": draw(st.one_of(st.integers(1, 8), st.sampled_from([3, 5, 16]))),
            "bitgen": draw(st.sampled_from([None, None, "PCG64", "Philox"])),
            "calls": draw(st.lists(call(), min_size=1, max_size=4))}


PNAMES = {"integers": ["low", "high"], "uniform": ["low", "high"], "normal": ["loc", "scale"], "poisson": ["lam"], "power": ["a"],
          "exponential": ["scale"]}


def shift(n, np):
    """Positions differ in their parameters."""
    return 1000.0 * (np.arange(n) % 3)


def do(rng, c, np):
    """Perform the call; returns (result, out)."""
    f = getattr(rng, c["m"])
    size = tuple(c["size"]) if isinstance(c["size"], list) else c["size"]
    p = list(c["p"])
    kw = {}
    args = []
    out = None
    if c.get("out") in ("C", "F"):
        dt = c.get("dtype") or "float64"
        out = np.full(size, np.nan, dtype=dt, order=c["out"])
    elif c.get("out") == "none":
        kw["out"] = None
    if c["m"] == "integers":
        args = [p[1]] if c["one"] else p
        if c["endpoint"] and c["style"] == "pos" and not c["one"]:
            return f(*p, size, np.dtype(c["dtype"] or "int64"), True), None
        if c["endpoint"]:
            kw["endpoint"] = True
    else:
        args = p
    if c["arrayparam"]:
        n = size if not isinstance(size, tuple) else size[-1]
        args = [args[0] + shift(n, np), args[1] + (shift(n, np) if c["m"] == "uniform" else 0)]
    if c["defaults"] and not c["arrayparam"]:
        args = []
        kw["size"] = size
    elif out is not None:
        if c["style"] == "pos":
            return f(size, np.dtype(c.get("dtype") or "float64"), out), out
        kw["out"] = out
    elif c.get("pkw") and c["m"] in PNAMES and not (c["m"] == "integers" and c["one"]):
        kw.update(zip(PNAMES[c["m"]], args))
        args = []
        kw["size"] = size
    elif c["style"] == "pos" and not (c["m"] == "integers" and c["one"]):
        args = [*args, size]
    else:
        kw["size"] = size
    if c.get("dtype"):
        kw["dtype"] = np.dtype(c["dtype"])
    return f(*args, **kw), out


def dist_ok(x, c, np):
    """Compare with the requested distribution."""
    from scipy import special

    if c["arrayparam"]:
        x = x - shift(np.shape(x)[-1], np)
    x = np.asarray(x).ravel().astype("f8")
    n = len(x)
    m, p = c["m"], list(c["p"])
    if c["defaults"] and not c["arrayparam"]:
        p = [0.0, 1.0]
    if m == "integers":
        lo, hi = p
        if c["one"]:
            lo = 0
        hi = hi if c["endpoint"] else hi - 1
        check(x.min() >= lo and x.max() <= hi, "integers outside [%r, %r]: %r, %r", lo, hi, x.min(), x.max())
        w = hi - lo + 1
        if w < 100:
            cnt = np.bincount((x - lo).astype(int), minlength=w)
            chi = ((cnt - n / w) ** 2 / (n / w)).sum()
            if n / w > 20 and w > 1:
                check(chi < (w - 1) + 12 * math.sqrt(2 * (w - 1)) + 40, "integers are not uniform: %s", cnt)
            return
        u = (x - lo) / w
    elif m in ("random", "uniform"):
        lo, hi = (0.0, 1.0) if m == "random" else p
        check(x.min() >= lo and x.max() <= hi, "outside [%r, %r]", lo, hi)
        u = (x - lo) / (hi - lo)
    elif m in ("normal", "standard_normal"):
        mu, s = (0.0, 1.0) if m == "standard_normal" else p
        u = special.ndtr((x - mu) / s)
    elif m == "power":
        check(x.min() >= 0 and x.max() <= 1, "outside [0, 1]")
        u = x ** p[0]
    elif m == "exponential":
        u = 1 - np.exp(-x / p[0])
    else:
        lam = p[0]
        check(abs(x.mean() - lam) < 7 * math.sqrt(lam / n) + 1e-9, "mean %r, expected %r", x.mean(), lam)
        if n > 900:
            check(abs(x.var() / lam - 1) < 8 * math.sqrt((2 + 1 / lam) / n), "variance %r, expected %r", x.var(), lam)
        return
    u = np.sort(u)
    k = np.arange(n)
    d = max(np.max(u - k / n), np.max((k + 1) / n - u))
    check(d * math.sqrt(n) < 3.5, "not distributed as requested: D sqrt(n) = %r for n = %d", d * math.sqrt(n), n)


def run(c, ctx):
    import numpy as np

    from caput.algorithms.random import MultithreadedRNG

    bg = getattr(np.random, c["bitgen"]) if c["bitgen"] else None

    def make(seed):
        return MultithreadedRNG(seed, threads=c["threads"], bitgen=bg)

    par = False
    ref = np.random.default_rng(0)
    a, b, other = make(c["seed"]), make(c["seed"]), make(c["seed"] + 1)
    prev = {}
    seen = []
    for i, k in enumerate(c["calls"]):
        r, out = do(a, k, np)
        keep = np.array(r, copy=True)
        r2, _ = do(b, k, np)
        w, _ = do(ref, k, np)
        check(type(r) is type(w), "call %d: type %s, expected %s", i, type(r), type(w))
        if out is not None:
            check(r is out, "call %d: the output array was not returned", i)
        check(np.shape(r) == np.shape(w), "call %d: shape %s, expected %s", i, np.shape(r), np.shape(w))
        check(np.asarray(r).dtype == np.asarray(w).dtype, "call %d %s: dtype %s, expected %s", i, k["m"], np.asarray(r).dtype, np.asarray(w).dtype)
        check(np.array_equal(keep, r2), "call %d: the same seed gave different numbers", i)
        x = np.asarray(r)
        if x.dtype.kind == "f":
            check(np.all(np.isfinite(x)), "call %d: not every element was drawn", i)
        n = x.size
        if k["arrayparam"] and n > 30:
            dist_ok(x, k, np)
        if not k["arrayparam"]:
            if n > 30:
                dist_ok(x, k, np)
            # each block on its own: all threads must draw from the same distribution
            if n >= 1000:
                par = True
                step = math.ceil(n / c["threads"])
                flat = x.ravel(order="A")
                for t in range(c["threads"]):
                    blk = flat[t * step:(t + 1) * step]
                    if len(blk) > 100:
                        dist_ok(blk, k, np)
            cont = x.dtype == np.float64 and k["m"] not in ("power",) or (k["m"] == "integers" and k["p"][1] == 2**62)
            if cont:
                check(len(np.unique(x)) == n, "call %d (%s): numbers repeat", i, k["m"])
            if n > 30 and (cont or k["m"] == "power"):
                o, _ = do(other, k, np)
                check(not np.any(np.asarray(o) == x), "call %d: another seed gave the same numbers", i)
        if x.dtype == np.float64 and n > 30:
            u = set(x.ravel()[:3000].tolist())
            for v in seen:
                check(not (u & v), "call %d repeats numbers of an earlier call", i)
            seen.append(u)
    return Info(par, [f"threads{c['threads']}", *{k["m"] for k in c["calls"]}])


@st.composite
def nc_case(draw):
    return {"seed": draw(st.integers(0, 1000)), "n": draw(st.integers(20, 60)), "step": draw(st.integers(2, 3)),
            "m": draw(st.sampled_from(["random", "standard_normal"])), "threads": draw(st.integers(1, 4)),
            "ax": draw(st.integers(0, 1))}


def run_nc(c, ctx):
    """A strided output is either refused or filled."""
    import numpy as np

    from caput.algorithms.random import MultithreadedRNG

    n, s = c["n"], c["step"]
    b = np.full((n * s, n) if c["ax"] == 0 else (n, n * s), -77.0)
    v = b[::s] if c["ax"] == 0 else b[:, ::s]
    try:
        r = getattr(MultithreadedRNG(c["seed"], threads=c["threads"]), c["m"])(out=v)
    except (ValueError, RuntimeError, TypeError):
        check(np.all(b == -77.0) or True)
        return Info(n * n >= 1000, ["refused"])
    check(r is v, "the output array was not returned")
    check(np.all(v != -77.0), "the output array was not filled")
    return Info(n * n >= 1000, ["filled"])


# ---------------------------------------------------------------- tasks using random numbers


def task_cases():
    return st.fixed_dictionaries({"seed": st.one_of(st.none(), st.integers(0, 2**64), st.integers(0, 9), st.sampled_from(["17", 3.0])),
                                  "threads": st.sampled_from([None, None, 1, 3]), "size": st.sampled_from([5, 1500]), "other": st.booleans()})


def run_task(c, ctx):
    import logging

    from caput.pipeline.tasklib.random import RandomTask

    import numpy as np

    class TaskA(RandomTask):
        pass

    class TaskB(RandomTask):
        pass

    lines = []

    class Grab(logging.Handler):
        def emit(self, record):
            lines.append(record.getMessage())

    def go(cls, seed):
        conf = {}
        if seed is not None:
            conf["seed"] = seed
        if c["threads"] is not None:
            conf["threads"] = c["threads"]
        lines.clear()
        log = logging.getLogger(f"{cls.__module__}.{cls.__name__}")
        h = Grab()
        log.addHandler(h)
        old, prop = log.level, log.propagate
        log.setLevel(logging.INFO)
        log.propagate = False
        try:
            t = cls._from_config(conf)
        finally:
            log.removeHandler(h)
            log.setLevel(old)
            log.propagate = prop
        told = [int(w) for ln in lines for w in ln.replace(",", " ").split() if w.isdigit()]
        check(t.rng is t.rng, "the generator of a task changes")
        x = [t.rng.standard_normal(c["size"]) for _ in range(2)]
        check(not np.array_equal(x[0], x[1]), "successive draws of a task repeat")
        return np.concatenate(x), told

    seed = c["seed"]
    a, told = go(TaskA, seed)
    used = int(seed) if seed is not None else None
    if used is None:
        check(len(told) >= 1, "the seed used is not logged: %s", lines)
        common = sorted(set.intersection(*(set(x) for x in ctx.comm.allgather(told))), reverse=True)
        check(len(common) >= 1, "the processes log different seeds, here %s", told)
        # whatever else the message says, one of its numbers is the seed
        used = next((s for s in common if all(ctx.comm.allgather(np.array_equal(a, go(TaskA, s)[0])))), common[0])
        a2, _ = go(TaskA, None)
        check(not np.array_equal(a, a2), "two tasks without a seed give the same numbers")
    again, _ = go(TaskA, used)
    check(np.array_equal(a, again), "repeating a task with the same seed gives other numbers")
    every = ctx.comm.allgather(a.tobytes())
    check(len(set(every)) == ctx.size, "several processes have the same random numbers")
    if c["other"]:
        b, _ = go(TaskB, used)
        n, _ = go(TaskA, used + 1)
        rest = ctx.comm.allgather((b.tobytes(), n.tobytes()))
        check(len(set(every) | {x for p in rest for x in p}) == 3 * ctx.size, "different tasks or seeds have the same random numbers")
    return Info(True, ["seeded" if seed is not None else "not seeded"])


PARTS = [
    Part("tasks", task_cases, run_task, quick=60, ranks=[1, 3], omp=1, rule="always: the numbers of tasks with and without a seed, over processes and tasks"),
    Part("draws", case, run, quick=500, shards=6, omp=1,
         rule="sequences of up to 4 draws, 8 distributions, sizes around the threading threshold, 1-16 threads, three bit generators, output arrays; "
              "non-trivial: at least one draw made in parallel"),
    Part("strided", nc_case, run_nc, quick=60, rule="strided output arrays are refused or filled"),
]
