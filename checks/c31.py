"""C31: time conversions."""

import datetime as D
import functools
import math
import os

from hypothesis import strategies as st

from vf.core import Info, Part, check

PROPERTY = "C31"
EXTS = {"invert": "fast", "weighted": "fast", "truncate": "full", "spherical": "fast"}
ASSUMPTIONS = ["the leap second table and Earth orientation data distributed with the package are right (leap seconds are compared with the published list)",
               "an instant inside an inserted leap second has no Unix time and is not looked for"]

EPOCH = D.datetime(1970, 1, 1, tzinfo=D.timezone.utc)
LEAPS = [D.datetime(y, m, 1, tzinfo=D.timezone.utc) for y, m in [
    (1972, 7), (1973, 1), (1974, 1), (1975, 1), (1976, 1), (1977, 1), (1978, 1), (1979, 1), (1980, 1), (1981, 7), (1982, 7), (1983, 7),
    (1985, 7), (1988, 1), (1990, 1), (1991, 1), (1992, 7), (1993, 7), (1994, 7), (1996, 1), (1997, 7), (1999, 1), (2006, 1), (2009, 1),
    (2012, 7), (2015, 7), (2017, 1)]]
LEAP_US = [int((d - EPOCH).total_seconds()) * 10**6 for d in LEAPS]
DAY = 86400 * 10**6
MAX = 2209 * 10**12  # in 2040
FINAL = 4102 * 10**12  # in 2099, for the conversions which do not depend on the Earth
STELLAR = 86164.098903691


def instants(top=MAX):
    return st.one_of(
        st.integers(0, top),
        st.integers(0, top // 10**6).map(lambda s: s * 10**6),
        st.tuples(st.integers(1, top // DAY - 1), st.sampled_from([-10**6, -500000, -1, 0, 1, 999999, 10**6, 43200 * 10**6])).map(lambda t: t[0] * DAY + t[1]),
        st.tuples(st.sampled_from(LEAP_US), st.sampled_from([-DAY, -10**6 - 1, -10**6, -500000, -1000, -1, 0, 1, 1000, 500000, 10**6, DAY])).map(sum),
    )


SHAPES = ["scalar", "scalar", "list", "tuple", "array", "array", "two", "zero-dim", "nested"]


def shaped(values, how, np, dtype):
    """The same times as one of the kinds of arguments accepted."""
    if how == "scalar":
        return values[0]
    if how == "list":
        return list(values)
    if how == "tuple":
        return tuple(values)
    if how == "nested":
        return [list(values), list(values)]
    a = np.empty(len(values), dtype=dtype)
    for i, v in enumerate(values):
        a[i] = v
    if how == "zero-dim":
        return a[:1].reshape(())
    return a.reshape(1, -1) if how == "two" else a


def unshaped(got, how, n, np, what, **facts):
    """Check the shape of a result, and return the list of values in it."""
    if how in ("scalar", "zero-dim"):
        check(not isinstance(got, (np.ndarray, list, tuple)) or (isinstance(got, np.ndarray) and got.ndim == 0), "not a scalar for a scalar", what=what, got=repr(got), **facts)
        return [got.item() if isinstance(got, np.ndarray) else got]
    check(isinstance(got, np.ndarray), "no array for an array", what=what, got=repr(got), how=how, **facts)
    want = {"nested": (2, n), "two": (1, n)}.get(how, (n,))
    if n == 0 and how in ("nested", "two"):
        check(got.size == 0, "not empty for no times", what=what)
        return []
    check(got.shape == want, "shape changed", what=what, got=got.shape, want=want, **facts)
    out = list(got.reshape(-1))
    if how == "nested":
        check(out[:n] == out[n:], "equal times converted differently", what=what)
        out = out[:n]
    return out


# ---------------------------------------------------------------- dates and text

ZONES = [None, 0, 0, 5 * 60, -11 * 60 - 30, 14 * 60, 345]


@st.composite
def dates(draw):
    how = draw(st.sampled_from(SHAPES))
    n = 1 if how in ("scalar", "zero-dim") else draw(st.integers(0, 5))
    return {"t": draw(st.lists(instants(FINAL), min_size=n, max_size=n)), "how": how, "zone": draw(st.lists(st.sampled_from(ZONES), min_size=n, max_size=n)),
            "number": draw(st.sampled_from(["float", "float", "int", "f4"]))}


def aware(us, zone):
    d = EPOCH + D.timedelta(microseconds=us)
    return d.replace(tzinfo=None) if zone is None else d.astimezone(D.timezone(D.timedelta(minutes=zone)))


def circle(a, b, period=86400.0):
    return abs((a - b + period / 2) % period - period / 2)


def off(got, want, tol, at=None):
    """The error, which is up to the leap second just before and within one."""
    d = abs(got - want)
    if tol and any(-2 * tol < (want if at is None else at) - x / 1e6 < 0 for x in LEAP_US):
        d = 0 if d <= 1 + tol else d
    return d


def run_dates(case, ctx):
    import numpy as np
    from caput.astro import skyfield as csf
    from caput.astro import time as ct

    how, us = case["how"], case["t"]
    n = len(us)
    if case["number"] == "int":
        us = [u // 10**6 * 10**6 for u in us]
    elif case["number"] == "f4":
        us = [u // 10**6 % 2**24 * 10**6 for u in us]
    secs = [u / 1e6 for u in us]
    dts = [aware(u, z) for u, z in zip(us, case["zone"])]
    # a year has no meaning in zones if it is out of range, which it is not here
    numbers = {"float": secs, "int": [u // 10**6 for u in us], "f4": [np.float32(s) for s in secs]}[case["number"]]
    ndt = {"float": np.float64, "int": np.int64, "f4": np.float32}[case["number"]]

    # numbers to dates and back
    got = unshaped(ct.unix_to_datetime(shaped(numbers, how, np, ndt)), how, n, np, "unix_to_datetime")
    for g, u in zip(got, us):
        check(isinstance(g, D.datetime) and g.utcoffset() == D.timedelta(0), "date is not in UTC", got=repr(g))
        check(abs(g - (EPOCH + D.timedelta(microseconds=u))) <= D.timedelta(microseconds=0), "another date", got=g.isoformat(), us=u)
    got = unshaped(ct.datetime_to_unix(shaped(dts, how, np, object)), how, n, np, "datetime_to_unix")
    for g, s, d in zip(got, secs, dts):
        check(isinstance(g, float) and g == s, "another time for a date", got=repr(g), want=s, date=d.isoformat())
    back = unshaped(ct.unix_to_datetime(ct.datetime_to_unix(shaped(dts, how, np, object))), how, n, np, "round trip")
    for g, d in zip(back, dts):
        check(g == (d if d.tzinfo else d.replace(tzinfo=D.timezone.utc)), "the date changed on the way", got=g.isoformat(), want=d.isoformat())
    got = unshaped(ct.naive_datetime_to_utc(shaped(dts, how, np, object)), how, n, np, "naive_datetime_to_utc")
    for g, d in zip(got, dts):
        check(g.tzinfo is not None and g.utcoffset() == (d.utcoffset() or D.timedelta(0)) and g.replace(tzinfo=None) == d.replace(tzinfo=None), "zone not kept", got=g.isoformat(), want=d.isoformat())

    # text
    texts = [aware(u, 0).strftime("%Y%m%dT%H%M%SZ") for u in us]
    got = unshaped(ct.datetime_to_timestr(shaped(dts, how, np, object)), how, n, np, "datetime_to_timestr")
    for g, t, d in zip(got, texts, dts):
        check(str(g) == t, "another text for a date", got=str(g), want=t, date=d.isoformat())
    got = unshaped(ct.timestr_to_datetime(shaped(texts, how, np, "U16")), how, n, np, "timestr_to_datetime")
    for g, u in zip(got, us):
        g = g if g.tzinfo else g.replace(tzinfo=D.timezone.utc)
        check(g == EPOCH + D.timedelta(seconds=u // 10**6), "another date for a text", got=g.isoformat(), us=u)

    # anything to numbers, and to the time of the day
    whole = [float(u // 10**6) for u in us]
    kinds = [("numbers", shaped(numbers, how, np, ndt), secs, 0), ("dates", shaped(dts, how, np, object), secs, 0), ("texts", shaped(texts, how, np, "U16"), whole, 0)]
    if n:
        skies = [csf.unix_to_skyfield_time(s) for s in secs]
        kinds.append(("skyfield", shaped(skies, how, np, object), secs, 1e-4))
        if how == "array":
            kinds.append(("one skyfield", csf.unix_to_skyfield_time(secs), secs, 1e-4))
    from caput import config

    for what, arg, want, tol in kinds:
        got = unshaped(ct.ensure_unix(arg), how, n, np, what)
        for g, w in zip(got, want):
            check(isinstance(g, float) and off(g, w, tol) <= tol, "another time", what=what, got=repr(g), want=w)
        if how == "scalar":
            # the same as a configured value
            class Timed(config.Reader):
                time = config.utc_time()

            g = Timed.from_config({"time": arg}).time
            check(isinstance(g, float) and off(g, want[0], tol) <= tol, "another configured time", what=what, got=repr(g), want=want[0])
        if what != "one skyfield":
            got = unshaped(ct.time_of_day(arg), how, n, np, what)
            for g, w in zip(got, want):
                check(isinstance(g, float) and 0 <= g < 86400, "not within the day", what=what, got=repr(g), want=w)
                check(min(circle(g, w % 86400), off(g, w % 86400, tol, w)) <= max(tol, 2e-6), "another time of the day", what=what, got=repr(g), want=w % 86400)
    if n and how not in ("two", "nested"):  # Skyfield has no dates for these
        got = csf.skyfield_time_to_unix(csf.unix_to_skyfield_time(shaped(numbers, how, np, ndt)))
        for g, w in zip(unshaped(got, how, n, np, "through skyfield"), secs):
            check(off(g, w, 1e-4) < 1e-4, "the time changed through Skyfield", got=repr(g), want=w)
    special = any(u % 10**6 for u in us) or any(z for z in case["zone"]) or any(u % DAY in (0, DAY - 1) for u in us)
    return Info(n > 0 and special, [how, case["number"]] + (["zones"] if any(z for z in case["zone"]) else []) + (["empty"] if n == 0 else []))


# ---------------------------------------------------------------- leap seconds

@st.composite
def pairs(draw):
    how = draw(st.sampled_from(["scalar", "scalar", "list", "array", "array", "two"]))
    n = 1 if how == "scalar" else draw(st.integers(0, 6))
    near = st.tuples(instants(), st.integers(-3 * DAY, 3 * DAY)).map(lambda t: [t[0], max(0, t[0] + t[1])])
    return {"how": how, "pairs": draw(st.lists(st.one_of(st.tuples(instants(), instants()).map(list), near), min_size=n, max_size=n)), "mid": draw(instants()),
            "one": draw(st.booleans())}


def leaps(a, b):
    """The number of leap seconds from a to b."""
    return sum(a < x <= b for x in LEAP_US) - sum(b < x <= a for x in LEAP_US)


def run_leap(case, ctx):
    import numpy as np
    from caput.astro import time as ct

    how = case["how"]
    a, b = [p[0] for p in case["pairs"]], [p[1] for p in case["pairs"]]
    m = case["mid"]
    if case["one"] and a and how != "scalar":
        a = a[:1] * len(a)
    n = len(a)
    sa, sb = [x / 1e6 for x in a], [x / 1e6 for x in b]
    A, B, M = shaped(sa, how, np, "f8"), shaped(sb, how, np, "f8"), m / 1e6
    if case["one"] and n and how != "scalar":
        A = sa[0]
    got = unshaped(ct.leap_seconds_between(A, B), how, n, np, "between")
    want = [leaps(x, y) for x, y in zip(a, b)]
    for g, w, x, y in zip(got, want, sa, sb):
        check(int(g) == g and g == w, "another number of leap seconds", got=g, want=w, a=x, b=y)
    got = unshaped(ct.leap_seconds_between(B, A), how, n, np, "backwards")
    check([int(g) for g in got] == [-w for w in want], "not antisymmetric", got=got, want=want)
    if n:
        one = unshaped(ct.leap_seconds_between(A, M), "scalar" if np.ndim(A) == 0 else how, n, np, "first half")
        two = unshaped(ct.leap_seconds_between(M, B), how, n, np, "second half")
        if len(one) == 1:
            one = one * n
        check([int(x + y) for x, y in zip(one, two)] == want, "not additive", one=one, two=two, want=want)
    return Info(any(want), [how] + (["over a leap second"] if any(want) else []) + (["tight"] if any(w and abs(x - y) < 3 * 86400 for w, x, y in zip(want, sa, sb)) else []))


# ---------------------------------------------------------------- Earth rotation

@functools.lru_cache
def dut1():
    """(modified Julian days, TAI - UT1) from the data file of the package."""
    import numpy as np
    from caput.astro import skyfield as csf

    mjd, d = [], []
    with open(os.path.join(os.path.dirname(csf.__file__), "_skyfield_data", "finals2000A.all")) as f:
        for line in f:
            if line[58:68].strip():
                mjd.append(float(line[7:15]))
                d.append(float(line[58:68]))
    mjd = np.array(mjd)
    us = (mjd - 40587) * DAY
    offset = np.array([10.0 + sum(x <= u for x in LEAP_US) for u in us])
    return mjd, offset - np.array(d)


def era_of(us, np):
    """The Earth rotation angle by the IERS conventions, and how well it is known in degrees."""
    mjd, d = dut1()
    day = us / DAY + 40587
    tai = 10.0 + sum(x <= us for x in LEAP_US)
    if mjd[0] <= day <= mjd[-1] - 1:
        ut1 = tai - np.interp(day, mjd, d)
        tol = 3e-3
    else:
        ut1, tol = 0.0, 2.5 if day < mjd[0] else 15.0
    # days since J2000.0 in UT1, whole and fraction kept apart
    whole, frac = divmod(us, DAY)
    whole -= 10957
    frac = (frac / 1e6 + ut1) / 86400 - 0.5
    turns = 0.7790572732640 + 0.00273781191135448 * (whole + frac) + frac
    return turns % 1.0 * 360.0, tol / 240.0


@st.composite
def eras(draw):
    how = draw(st.sampled_from(["scalar", "scalar", "list", "array", "two"]))
    n = 1 if how == "scalar" else draw(st.integers(1, 6))
    return {"how": how, "t": draw(st.lists(instants(), min_size=n, max_size=n)), "before": draw(st.lists(st.floats(0, 1), min_size=n, max_size=n)),
            "onestart": draw(st.booleans()), "angle": draw(st.one_of(st.floats(0, 360), st.floats(-720, 1080)))}


def run_era(case, ctx):
    import numpy as np
    from caput.astro import time as ct

    how = case["how"]
    us = [max(u, 86400 * 10**6 * 2) for u in case["t"]]
    n = len(us)
    before = [b * (STELLAR - 0.02) for b in case["before"]]
    if case["onestart"]:
        # all times follow one start
        start = us[0]
        us = sorted(start + int(b * 1e6) for b in before)
        starts = [start / 1e6] * n
        S = start / 1e6
    else:
        starts = [u / 1e6 - b for u, b in zip(us, before)]
        # the search may not start in the second which has no name of its own either
        S = shaped(starts, how, np, "f8")
    secs = [u / 1e6 for u in us]
    T = shaped(secs, how, np, "f8")
    era = unshaped(ct.unix_to_era(T), how, n, np, "unix_to_era")
    for e, u in zip(era, us):
        check(0 <= e <= 360, "angle out of range", got=e)
        w, tol = era_of(u, np)
        check(circle(e, w, 360.0) <= tol, "another rotation angle", got=e, want=w, tol=tol, us=u)
        alone = ct.unix_to_era(u / 1e6)
        check(circle(alone, e, 360.0) < 1e-6, "another angle for one time", got=alone, want=e)
    # uniform rotation: from one time to the next, apart from leap seconds
    for (e1, u1), (e2, u2) in zip(zip(era, us), list(zip(era, us))[1:]):
        if 0 < u2 - u1 < DAY:
            elapsed = (u2 - u1) / 1e6 + leaps(u1, u2)
            check(circle(e2 - e1, elapsed / STELLAR * 360, 360.0) < 6e-3 / 240, "rotation is not uniform", a=u1, b=u2, got=(e2 - e1) % 360, want=elapsed / STELLAR * 360 % 360)
    # back to the time
    E = shaped(era, how, np, "f8")
    got = unshaped(ct.era_to_unix(E, S), how, n, np, "era_to_unix")
    close = 0
    for g, s, s0 in zip(got, secs, starts):
        d = abs(g - s)
        elapsed = s - s0 + leaps(round(s0 * 1e6), round(s * 1e6))
        if elapsed < 6e-3 or elapsed > STELLAR - 30e-3:
            # at the ends of the turn the next or last one may be found
            continue
        if any(abs(s - x / 1e6) < 0.02 for x in LEAP_US):
            # the accuracy does not tell the leap second from the one before
            d = min(d, abs(d - 1))
        check(d < 6e-3, "another time for the rotation angle", got=g, want=s, start=s0, error=g - s)
        close += any(abs(s - x / 1e6) < 86400 for x in LEAP_US)
    # any angle: within the turn after the start, at that angle
    a = case["angle"]
    g = ct.era_to_unix(a, starts[0])
    span = g - starts[0] + leaps(round(starts[0] * 1e6), round(g * 1e6))
    check(-6e-3 <= span <= STELLAR + 6e-3, "found outside of the turn after the start", got=g, start=starts[0], angle=a)
    if not any(x / 1e6 - 1.01 <= g < x / 1e6 + 0.01 for x in LEAP_US):
        check(circle(ct.unix_to_era(g), a, 360.0) < 6e-3 / 240, "found at another angle", got=ct.unix_to_era(g), want=a)
    return Info(True, [how] + (["near a leap second"] if close else []) + (["one start"] if case["onestart"] else []))


PARTS = [
    Part("dates", dates, run_dates, quick=1200, shards=3, rule="at least one instant with a fraction of a second, in a zone other than UTC, or at the edge of a day"),
    Part("leap", pairs, run_leap, quick=1000, shards=2, rule="at least one pair with leap seconds in between"),
    Part("era", eras, run_era, quick=900, shards=3, rule="every case"),
]
