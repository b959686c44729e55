"""What a check module uses: parts, outcomes and small oracle helpers.

A check module (checks/cNN.py) defines PROPERTY (id), EXTS (extensions to build)
and PARTS, a list of Part. A part pairs a Hypothesis strategy that produces a
JSON-serialisable case with a function that runs the case against the real code
and an oracle. Every random choice is inside the case, so a case is its own
reproduction.
"""

import hashlib
import json
import math


class HarnessError(Exception):
    """The check could not do its work; never a violation."""


class Info:
    """What running a case says about it.

    nt: the case was non-trivial by the part's rule.  labels: classification.
    """

    __slots__ = ("labels", "nt")

    def __init__(self, nt=True, labels=()):
        self.nt = bool(nt)
        self.labels = tuple(labels)


class Part:
    """One generated check.

    name      : identifies the part in replay files and evidence
    strategy  : callable returning a Hypothesis strategy of JSON-able cases
    run       : run(case, ctx) -> Info | None; any exception is a failure
    quick     : examples per shard in the quick tier
    shards    : number of shards (different seeds) in the quick tier
    ranks     : None (plain process) or a list of MPI sizes; each is one job
    rule      : how cases are made and what makes one non-trivial
    thorough  : multiplier of examples in the thorough tier
    omp       : OMP_NUM_THREADS
    """

    def __init__(self, name, strategy, run, quick=200, shards=1, ranks=None,
                 rule="", thorough=20, tshards=4, omp=1, explicit=()):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.quick = quick
        self.shards = shards
        self.ranks = ranks
        self.rule = rule
        self.thorough = thorough
        self.tshards = tshards
        self.omp = omp
        self.explicit = list(explicit)


def canon(case):
    return json.dumps(case, sort_keys=True, default=str)


def digest(case):
    return hashlib.sha1(canon(case).encode()).hexdigest()[:16]


def fail(msg, *args):
    raise AssertionError(msg % args if args else msg)


def check(cond, msg="", *args, **facts):
    if not cond:
        text = msg % args if args else msg
        raise AssertionError(text + "".join(f"\n  {k}: {v!r}" for k, v in facts.items()))


def same_float(a, b):
    """Equal as floats, NaN equal to NaN."""
    return (a == b) or (isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b))


def same_array(got, want, msg="", dtype=True):
    """Exact equality of shape, dtype and (NaN-aware) content."""
    import numpy as np

    got = np.asarray(got)
    want = np.asarray(want)
    if got.shape != want.shape:
        raise AssertionError(f"{msg}: shape {got.shape}, expected {want.shape}")
    if dtype and got.dtype != want.dtype:
        raise AssertionError(f"{msg}: dtype {got.dtype}, expected {want.dtype}")
    if got.dtype.kind in "fc" and want.dtype.kind in "fc":
        ok = np.array_equal(got, want, equal_nan=True)
    else:
        ok = np.array_equal(got, want)
    if not ok:
        raise AssertionError(f"{msg}: got {_short(got)}, expected {_short(want)}")


def _short(a):
    s = repr(a)
    return s if len(s) < 400 else s[:400] + "..."


def close_array(got, want, rtol, atol, msg=""):
    import numpy as np

    got = np.asarray(got)
    want = np.asarray(want)
    if got.shape != want.shape:
        raise AssertionError(f"{msg}: shape {got.shape}, expected {want.shape}")
    ok = np.isclose(got, want, rtol=rtol, atol=atol, equal_nan=True)
    if not np.all(ok):
        raise AssertionError(f"{msg}: got {_short(got)}, expected {_short(want)}")
