"""C32: sidereal time and events for an observer."""

import datetime as D
import functools
import math

from hypothesis import strategies as st

from checks.c31 import LEAP_US, STELLAR, circle, instants, leaps, shaped, unshaped
from vf.core import Info, Part, check

PROPERTY = "C32"
EXTS = {"invert": "fast", "weighted": "fast", "truncate": "full", "spherical": "fast"}
ASSUMPTIONS = ["Skyfield's time scales and astrometric positions are right; the orbits of the Earth and the Moon are circles made up here, as no ephemeris is installed",
               "events closer to each other than the initial search step may be missed, as documented",
               "events within a second of the ends of the interval may be found or not"]

EPOCH = D.datetime(1970, 1, 1, tzinfo=D.timezone.utc)


@functools.lru_cache
def sky():
    """A stand-in for the Skyfield data, with circular orbits for the Earth and the Moon."""
    import numpy as np
    from caput.astro import skyfield as csf
    from skyfield.vectorlib import VectorFunction

    class Circle(VectorFunction):
        def __init__(self, center, target, radius, period, phase, tilt):
            self.center, self.target, self.args = center, target, (radius, period, phase, tilt)

        def _at(self, t):
            r, period, phase, tilt = self.args
            w = 2 * np.pi / period
            a = w * (t.tdb - 2451545.0) + phase
            c, s = np.cos(a), np.sin(a)
            ct, sn = np.cos(tilt), np.sin(tilt)
            return r * np.array([c, s * ct, s * sn]), r * w * np.array([-s, c * ct, c * sn]), None, None

    class Sky:
        timescale = csf.skyfield_wrapper.timescale

    eps = math.radians(23.4392911)
    earth = Circle(0, 399, 1.0, 365.2564, 1.75, eps)
    sun = Circle(0, 10, 0.004, 4332.6, 0.3, eps)
    moon = earth + Circle(399, 301, 0.00257, 27.321661, 2.2, eps + 0.09)
    eph = {"earth": earth, "sun": sun, "moon": moon}
    eph[10] = sun
    for code in (5, 6):
        eph[code] = Circle(0, code, 5.2 * (code - 4), 4332.6 * (2.5 * code - 11.5), 0.3 + math.pi, eps)
    earth.ephemeris = sun.ephemeris = moon.ephemeris = eph
    Sky.ephemeris = eph
    return Sky()


# ---------------------------------------------------------------- stellar angle and day

LON = st.one_of(st.floats(-180, 180), st.sampled_from([0.0, 180.0, -180.0, 90.0, -119.62, 1e-9]))
STARTS = [None, None, 0, 78796800, 1483228799, 1.3e9, 1500000000.5, "date", "aware"]


@st.composite
def angles(draw):
    how = draw(st.sampled_from(["scalar", "scalar", "list", "tuple", "array", "two"]))
    n = 1 if how == "scalar" else draw(st.integers(1, 5))
    return {"lon": draw(LON), "lat": draw(st.floats(-89, 89)), "alt": draw(st.sampled_from([0.0, 545.0, 5000.0])), "start": draw(st.sampled_from(STARTS)), "how": how,
            "t": draw(st.lists(instants(), min_size=n, max_size=n)), "turn": draw(st.floats(0, 1)), "step": draw(st.floats(0, 3)), "move": draw(st.booleans()), "lon2": draw(LON),
            "days": draw(st.lists(st.one_of(st.floats(-3000, 12000), st.integers(-3000, 12000).map(float), st.tuples(st.integers(-3000, 12000), st.sampled_from([-1e-7, 1e-7])).map(sum)), min_size=n, max_size=n)),
            "ra": draw(st.floats(0, 360)), "dec": draw(st.floats(-89.9, 89.9))}


def make(case, np, lon=None):
    from caput.astro import observer

    start = case["start"]
    if start == "date":
        start = D.datetime(2013, 11, 15)
    elif start == "aware":
        start = D.datetime(2013, 11, 15, 3, 4, 5, tzinfo=D.timezone(D.timedelta(hours=-8)))
    lon = case["lon"] if lon is None else lon
    if case.get("move"):
        # somewhere else first
        obs = observer.Observer(lon / 2 - 7, -case["lat"] / 3, 1.0, sf_wrapper=sky())
        if start is not None:
            obs.lsd_start_day = start
        obs.transit_RA(1.5e9)
        obs.lsd(1.5e9)
        obs.longitude, obs.latitude, obs.altitude = lon, case["lat"], case["alt"]
        return obs
    return observer.Observer(lon, case["lat"], case["alt"], start, sf_wrapper=sky())


def start_of(start):
    return {None: 946727936, "date": 1384473600.0, "aware": 1384473600.0 + 3 * 3600 + 245 + 8 * 3600}.get(start, start)


def within_leap(s):
    return any(x / 1e6 - 1.02 <= s < x / 1e6 + 0.02 for x in LEAP_US)


def run_angles(case, ctx):
    import numpy as np
    from caput.astro import skyfield as csf
    from caput.astro import time as ct

    obs = make(case, np)
    how, us = case["how"], [max(u, 86400 * 10**6 * 5) for u in case["t"]]
    n = len(us)
    secs = [u / 1e6 for u in us]
    T = shaped(secs, how, np, "f8")
    lon = case["lon"]

    # the angle is the rotation of the Earth and the longitude
    lsa = unshaped(obs.unix_to_lsa(T), how, n, np, "unix_to_lsa")
    era = unshaped(ct.unix_to_era(T), how, n, np, "unix_to_era")
    for a, e in zip(lsa, era):
        check(0 <= a <= 360 and circle(a - e, lon, 360.0) < 1e-9, "angle is not rotation plus longitude", lsa=a, era=e, lon=lon)
    other = make(case, np, case["lon2"])
    for a, b in zip(lsa, unshaped(other.lsa(T), how, n, np, "lsa")):
        check(circle(b - a, case["lon2"] - lon, 360.0) < 1e-9, "longitude does not shift the angle by itself", a=a, b=b)

    # the zero of the day count: the first angle of zero after the start
    start = start_of(case["start"])
    zero = obs.lsd_zero()
    span = zero - start + leaps(round(start * 1e6), round(zero * 1e6))
    check(-6e-3 <= span <= STELLAR + 6e-3, "the count does not begin in the turn after the start", zero=zero, start=start)
    if not within_leap(zero):
        check(circle(obs.lsa(zero), 0, 360.0) < 6e-3 / 240, "the count does not begin at an angle of zero", lsa=obs.lsa(zero))

    # days: the integer count and the fraction of a turn
    lsd = unshaped(obs.unix_to_lsd(T), how, n, np, "unix_to_lsd")
    check(lsd == unshaped(obs.lsd(T), how, n, np, "lsd"), "two names give different days")
    import time

    before = obs.unix_to_lsd(time.time())
    now = obs.get_current_lsd()
    check(before - 1e-6 <= now <= obs.unix_to_lsd(time.time()) + 1e-6, "the current day is not that of the current time", got=now, before=before)
    z = round(zero * 1e6)
    for d, a, u in zip(lsd, lsa, us):
        check(circle(d, a / 360, 1.0) < 1e-9, "fraction of the day is not the angle", lsd=d, lsa=a)
        turns = (u - z) / 1e6 / STELLAR  # Unix time keeps up with the rotation
        check(abs(d - turns) < 1e-4, "another number of days", lsd=d, want=turns)
    # and back
    L = shaped(lsd, how, np, "f8")
    for g, s in zip(unshaped(obs.lsd_to_unix(L), how, n, np, "lsd_to_unix"), secs):
        check(abs(g - s) < 6e-3 or (within_leap(s) and abs(g - s) < 1.006), "day does not lead back to the time", got=g, want=s)
    days = shaped(case["days"], how, np, "f8")
    t2 = obs.lsd_to_unix(days)
    for d, t in zip(case["days"], unshaped(t2, how, n, np, "lsd_to_unix")):
        if not within_leap(t):
            check(abs(obs.lsd(t) - d) < 6e-3 / 86400, "time does not lead back to the day", got=obs.lsd(t), want=d)
    # later is later
    for s in secs:
        e = s + case["step"] * 86400
        if not (within_leap(s) or within_leap(e)):
            d0, d1 = obs.lsd(s), obs.lsd(e)
            want = (e - s + leaps(round(s * 1e6), round(e * 1e6))) / STELLAR
            check(abs(d1 - d0 - want) < 2e-7 * (1 + case["step"]), "days do not advance with the time", a=d0, b=d1, want=want, t=s)

    # angles to times
    starts = [s - case["turn"] * (STELLAR - 2) for s in secs]
    got = obs.lsa_to_unix(shaped(lsa, how, np, "f8"), shaped(starts, how, np, "f8"))
    for g, s, s0 in zip(unshaped(got, how, n, np, "lsa_to_unix"), secs, starts):
        el = s - s0 + leaps(round(s0 * 1e6), round(s * 1e6))
        if 6e-3 < el < STELLAR - 0.03:
            check(abs(g - s) < 6e-3 or (within_leap(s) and abs(g - s) < 1.006), "angle does not lead back to the time", got=g, want=s, start=s0)

    # sidereal time: as the stellar angle, from the moving equinox
    flat = "array" if how == "two" else how  # Skyfield has no nutation for more axes
    lst = unshaped(obs.unix_to_lst(shaped(secs, flat, np, "f8")), flat, n, np, "unix_to_lst")
    ra = unshaped(obs.transit_RA(shaped(secs, flat, np, "f8")), flat, n, np, "transit_RA")
    for a, l, r, s in zip(lsa, lst, ra, secs):
        c = (s - 946728000) / 86400 / 36525
        shift = (0.014506 + 4612.156534 * c + 1.3915817 * c * c) / 3600
        check(0 <= l <= 360 and circle(l - a, shift, 360.0) < 20 / 3600, "sidereal time is not the angle from the equinox", lst=l, lsa=a, shift=shift)
        # the point on the equator of date on the meridian, seen in J2000
        t = csf.unix_to_skyfield_time(s)
        x = np.array([math.cos(math.radians(l)), math.sin(math.radians(l)), 0]) @ t.M
        w = math.degrees(math.atan2(x[1], x[0]))
        check(circle(r, w, 360.0) < 1e-6, "another right ascension on the meridian", got=r, want=w, t=s)

    # coordinates of stars
    t = csf.unix_to_skyfield_time(secs[0])
    star = csf.skyfield_star_from_ra_dec(case["ra"], case["dec"])
    x = unit(case["ra"], case["dec"], np)
    got = obs.object_coords(star, deg=True)
    check(apart(unit(*got, np), x) < 1e-9, "coordinates of a star changed", got=got)
    got = obs.object_coords(star)
    check(apart(unit(math.degrees(got[0]), math.degrees(got[1]), np), x) < 1e-9, "coordinates in radians differ", got=got)
    got = obs.object_coords(star, date=secs[0], deg=True)
    want = t.C @ x
    check(apart(unit(*got, np), want) < 25 / 3600, "apparent coordinates are elsewhere", got=got)
    from skyfield.units import Angle

    icrs = obs.star_cirs(Angle(degrees=case["ra"]), Angle(degrees=case["dec"]), t)
    check(apart(unit(icrs.ra._degrees, icrs.dec.degrees, np), t.C.T @ x) < 1e-6, "star given in CIRS is elsewhere", ra=icrs.ra._degrees, dec=icrs.dec.degrees)
    return Info(True, [how, "start " + str(case["start"])] + (["moved"] if case["move"] else []) + (["near a leap second"] if any(abs(u - x) < 86400 * 10**6 for u in us for x in LEAP_US) else []))


def unit(ra, dec, np):
    ra, dec = math.radians(ra), math.radians(dec)
    return np.array([math.cos(dec) * math.cos(ra), math.cos(dec) * math.sin(ra), math.sin(dec)])


def apart(a, b):
    import numpy as np

    return math.degrees(2 * math.asin(min(1.0, float(np.linalg.norm(a - b)) / 2)))


# ---------------------------------------------------------------- transits, rising and setting

FUNCS = ["transit", "transit", "lower", "riseset", "riseset", "rise", "set", "solar_transit", "lunar_transit", "solar_rising", "solar_setting", "lunar_rising", "lunar_setting"]


@st.composite
def events(draw):
    func = draw(st.sampled_from(FUNCS))
    lat = draw(st.one_of(st.floats(-89, 89), st.sampled_from([0.0, 49.32, -30.7, 66.0, -70.0])))
    source = "sun" if func.startswith("solar") else "moon" if func.startswith("lunar") else draw(st.sampled_from(["star", "star", "star", "sun", "moon"] + ["ra"] * (func in ("transit", "lower"))))
    dec = draw(st.floats(-89.9, 89.9))
    if draw(st.integers(0, 2)) == 0:
        # hardly rises or sets
        dec = math.copysign(90 - abs(lat), lat * draw(st.sampled_from([-1, 1])) or 1) + draw(st.floats(-6, 6))
        dec = max(-89.9, min(89.9, dec))
    length = draw(st.one_of(st.none(), st.floats(0.05, 1.2), st.floats(1.0, 4.0), st.sampled_from([1.0, 2.0, 0.99726957])))
    span = 0.9972 if length is None else length
    frac = draw(st.one_of(st.none(), st.none(), st.floats(0.02, 0.99), st.floats(0.34, 0.99)))
    step = None if frac is None else min(frac * span, draw(st.sampled_from([0.2, 0.45, 0.9])))
    step = step if step is None else max(step, 0.01)
    return {"func": func, "lon": draw(LON), "lat": lat, "alt": draw(st.sampled_from([0.0, 545.0])), "move": draw(st.integers(0, 3)) == 0, "start": None, "source": source,
            "ra": draw(st.floats(0, 360)), "dec": dec, "t0": draw(st.integers(10**8, 2 * 10**9)), "align": draw(st.sampled_from([None, None, "start", "end", "middle", "quarter"])),
            "offset": draw(st.floats(-60, 60)), "length": length, "step": step, "diameter": draw(st.sampled_from([0.0, 0.0, 0.53, 100.0 / 60, -4.0, 30.0])),
            "kind": draw(st.sampled_from(["unix", "unix", "int", "date", "aware", "text", "skyfield"])), "dec_too": draw(st.booleans())}


def run_events(case, ctx):
    import numpy as np
    from caput.astro import skyfield as csf
    from skyfield.api import wgs84

    func = case["func"]
    obs = make(case, np)
    S = sky()
    ts = S.timescale
    if case["source"] in ("star", "ra"):
        src = csf.skyfield_star_from_ra_dec(case["ra"], case["dec"] if case["source"] == "star" else 0.0)
    else:
        src = S.ephemeris[case["source"]]
    transit = "transit" in func or func == "lower"
    lower = func == "lower" or (func.endswith("_transit") and case["offset"] < 0)
    place = S.ephemeris["earth"] + wgs84.latlon(case["lat"], case["lon"], elevation_m=case["alt"])
    lat = math.radians(case["lat"])
    dia = 0.0 if transit else case["diameter"] if func in ("riseset", "rise", "set") else 100.0 / 60

    def place_of(sec):
        """Hour angle, declination and altitude at times, in degrees."""
        t = csf.unix_to_skyfield_time(np.asarray(sec, dtype="f8"))
        x = np.einsum("ij...,j...->i...", t.M, place.at(t).observe(src).position.au)
        x = x / np.linalg.norm(x, axis=0)
        ha = (t.gast * 15 + case["lon"] - np.degrees(np.arctan2(x[1], x[0])) + 180) % 360 - 180
        alt = np.degrees(np.arcsin(np.clip(np.sin(lat) * x[2] + np.cos(lat) * np.hypot(x[0], x[1]) * np.cos(np.radians(ha)), -1, 1)))
        return ha, np.degrees(np.arcsin(x[2])), alt

    def f(sec):
        ha, _, alt = place_of(sec)
        if transit:
            return (ha + 360) % 360 - 180 if lower else ha
        return alt + dia / 2

    def roots(a, b):
        """All times of events of [a, b], whether increasing."""
        grid = np.linspace(a, b, int((b - a) / 480) + 3)
        v = f(grid)
        at = np.nonzero(np.sign(v[:-1]) != np.sign(v[1:]))[0]
        if transit:
            # not where the angle jumps by a turn
            at = at[np.abs(v[at + 1] - v[at]) < 180]
        lo, hi, rising = grid[at], grid[at + 1], v[at + 1] > v[at]
        for _ in range(22 if len(at) else 0):
            mid = (lo + hi) / 2
            up = (f(mid) > 0) == rising
            lo, hi = np.where(up, lo, mid), np.where(up, mid, hi)
        return (lo + hi) / 2, rising

    # the interval, with some event close to some point of it
    t0 = float(case["t0"])
    span = STELLAR if case["length"] is None else case["length"] * 86400
    if case["align"]:
        r, up = roots(t0, t0 + 1.1 * 86400)
        if len(r):
            t0 = float(round(r[0] + case["offset"] - span * {"start": 0, "end": 1, "middle": 0.5, "quarter": 0.25}[case["align"]]))
    t1 = t0 + float(round(span)) if case["length"] is not None else t0 + span
    conv = {"unix": float, "int": int, "date": lambda s: (EPOCH + D.timedelta(seconds=s)).replace(tzinfo=None),
            "aware": lambda s: (EPOCH + D.timedelta(seconds=s)).astimezone(D.timezone(D.timedelta(hours=-7))),
            "text": lambda s: (EPOCH + D.timedelta(seconds=s)).strftime("%Y%m%dT%H%M%SZ"), "skyfield": csf.unix_to_skyfield_time}[case["kind"]]
    args = [conv(t0)]
    kw = {}
    if case["length"] is not None:
        kw["t1"] = conv(t1)
    if case["step"] is not None:
        kw["step"] = case["step"]

    dec = None
    if transit:
        if case["dec_too"]:
            kw["return_dec"] = True
        if lower:
            kw["lower"] = True
        body = float(case["ra"]) if case["source"] == "ra" else src
        got = obs.transit_times(body, *args, **kw) if not func.endswith("_transit") else getattr(obs, func)(*args, **kw)
        if case["dec_too"]:
            got, dec = got
        label = None
    else:
        if func in ("riseset", "rise", "set"):
            kw["diameter"] = dia
            args.insert(0, src)
        name = {"riseset": "rise_set_times", "rise": "rise_times", "set": "set_times"}.get(func, func)
        got = getattr(obs, name)(*args, **kw)
        label = None
        if func == "riseset":
            got, label = got

    # what is there
    every, up = roots(t0 - 7200, t1 + 7200)
    wanted = np.ones(len(every), dtype=bool) if transit or func == "riseset" else (up if func in ("rise",) or func.endswith("rising") else ~up)
    if transit:
        check(bool(up.all()), "oracle: a transit with the angle decreasing")
    step = (case["step"] if case["step"] is not None else min(0.2, span / 86400 / 5)) * 86400
    inside = (every > t0 - 1) & (every < t1 + 1)
    complete = bool(np.all(np.diff(every) > step + 1))
    facts = {"got": list(map(float, got)), "want": every[inside & wanted].tolist(), "t0": t0, "t1": t1, "step": step / 86400, "func": func}
    check(isinstance(got, np.ndarray) and got.dtype == np.float64 and got.ndim == 1, "events are not an array of times", **facts)
    check(bool(np.all(np.diff(got) > 0)), "events are not in order or not once each", **facts)
    tol = 0.02 if transit else 0.3
    used = set()
    for i, g in enumerate(got):
        near = [k for k in np.nonzero(inside & wanted)[0] if abs(every[k] - g) < tol]
        if not near and not transit:
            near = [k for k in np.nonzero(inside & wanted)[0] if abs(every[k] - g) < 300 and abs(f([g])[0]) < 1e-4]
        check(near, "found where there is no such event", event=float(g), value=float(f([g])[0]), **facts)
        k = near[0]
        check(k not in used or not complete, "found twice", event=float(g), **facts)
        used.add(k)
        if label is not None:
            check(bool(label[i]) == bool(up[k]), "rising and setting confused", event=float(g), label=bool(label[i]), **facts)
        if dec is not None:
            want = place_of([g])[1][0]
            check(abs(dec[i] - want) < 1e-5, "another declination at transit", got=dec[i], want=want, event=float(g))
    if label is not None:
        check(len(label) == len(got), "as many labels as events", **facts)
    if dec is not None:
        check(len(dec) == len(got), "as many declinations as events", **facts)
    if complete:
        for k in np.nonzero(inside & wanted)[0]:
            if t0 + 1 < every[k] < t1 - 1:
                check(k in used, "an event was missed", event=float(every[k]), **facts)
    # an interval or a step which cannot be
    for bad in ({"t1": t0}, {"t1": t0 - 5}, {"t1": t0 + 3600, "step": 0.05}):
        try:
            obs.transit_times(src, t0, **bad)
        except ValueError:
            continue
        check(False, "accepted an empty interval, or a step longer than it", args=bad)
    return Info(complete and len(used) > 0, [func, case["source"], "step" if case["step"] is not None else "default step", f"{min(len(got), 5)} events"]
                + (["close to the ends"] if any(abs(g - t0) < 60 or abs(g - t1) < 60 for g in got) else []) + ([] if complete else ["too close together"]))


PARTS = [
    Part("angles", angles, run_angles, quick=250, shards=3, rule="every case"),
    Part("events", events, run_events, quick=330, shards=5, rule="events which are farther apart than the step, at least one in the interval"),
]
