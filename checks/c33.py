"""C33: constants and prefixes."""

from hypothesis import strategies as st

from vf.core import Info, Part, check

PROPERTY = "C33"
EXTS = {}

PREFIX = {
    "yotta": 1e24, "zetta": 1e21, "exa": 1e18, "peta": 1e15, "tera": 1e12, "giga": 1e9, "mega": 1e6,
    "kilo": 1e3, "hecto": 1e2, "deka": 1e1, "deci": 1e-1, "centi": 1e-2, "milli": 1e-3, "micro": 1e-6,
    "nano": 1e-9, "pico": 1e-12, "femto": 1e-15, "atto": 1e-18, "zepto": 1e-21,
    "kibi": 2.0**10, "mebi": 2.0**20, "gibi": 2.0**30, "tebi": 2.0**40, "pebi": 2.0**50, "exbi": 2.0**60,
    "zebi": 2.0**70, "yobi": 2.0**80,
}
C = 299792458.0
KB = 1.380649e-23
H = 6.62607015e-34
PI = 3.141592653589793
SIGMA = 2 * PI**5 * KB**4 / (15 * H**3 * C**2)
UNITS = {
    # SI and time
    "gram": 1e-3, "second": 1.0, "minute": 60.0, "hour": 3600.0, "day": 86400.0, "week": 604800.0,
    "year": 31536000.0, "c": C, "k": KB, "h": H, "hbar": H / (2 * PI), "e": 1.602176634e-19, "eV": 1.602176634e-19,
    "pi": PI, "degree": PI / 180, "arcminute": PI / 180 / 60, "arcmin": PI / 180 / 60, "arcsecond": PI / 180 / 3600,
    "arcsec": PI / 180 / 3600, "angstrom": 1e-10, "micron": 1e-6, "au": 149597870700.0,
    "parsec": 149597870700.0 / (PI / 180 / 3600), "inch": 0.0254, "foot": 0.3048, "mile": 1609.344,
    "bar": 1e5, "atm": 101325.0, "erg": 1e-7, "calorie": 4.184, "G": 6.6743e-11, "N_A": 6.02214076e23,
    "Boltzmann": KB, "Planck": H, "Stefan_Boltzmann": SIGMA, "sigma": SIGMA, "speed_of_light": C,
    "Julian_year": 31557600.0, "light_year": C * 31557600.0, "liter": 1e-3, "hectare": 1e4, "knot": 1852 / 3600.0,
    # added here
    "solar_mass": 1.98892e30, "t_sidereal": 23.9344696 * 3600, "a_rad": 4 * SIGMA / C, "nu21": 1420.40575177,
    "UT1_second": 1.00000000205, "sidereal_second": 1.00000000205 / 1.002737909350795,
    "stellar_second": 1.00000000205 / 1.00273781191135448,
    # aliases
    "stefan_boltzmann": SIGMA, "k_B": KB, "arc_minute": PI / 180 / 60, "arc_second": PI / 180 / 3600,
    "UT1_S": 1.00000000205, "SIDEREAL_S": 1.00000000205 / 1.002737909350795,
    "STELLAR_S": 1.00000000205 / 1.00273781191135448,
}
REL = {"G": 1e-3, "parsec": 1e-9, "Stefan_Boltzmann": 1e-8, "sigma": 1e-8, "stefan_boltzmann": 1e-8, "a_rad": 1e-8}


def same(got, want, name, rel=1e-12):
    check(isinstance(got, float) or isinstance(got, int), "%s is %r", name, got)
    check(abs(got - want) <= rel * abs(want), "%s is %r, expected %r", name, got, want)


def prefixed():
    pairs = [(p, u) for p in PREFIX for u in UNITS if "_" not in u]
    return st.sampled_from(pairs).map(lambda x: {"p": x[0], "u": x[1]})


def run_prefixed(c, ctx):
    from caput.astro import constants

    # the whole table on each visit of a prefix: the table is small
    p = c["p"]
    same(getattr(constants, p), PREFIX[p], p)
    for u, v in UNITS.items():
        same(getattr(constants, u), v, u, REL.get(u, 1e-12))
        if "_" in u:
            continue
        name = f"{p}_{u}"
        same(getattr(constants, name), PREFIX[p] * v, name, REL.get(u, 1e-12))
        unit = getattr(constants, u)
        same(getattr(constants, name), PREFIX[p] * unit, name, 1e-15)
    return Info(True, [p])


@st.composite
def unknown(draw):
    word = st.text("abcdefgxyzKM_0123456789", min_size=1, max_size=8)
    kind = draw(st.sampled_from(["word", "pre", "unit", "three", "typo", "trail"]))
    p = draw(st.sampled_from(sorted(PREFIX)))
    u = draw(st.sampled_from(sorted(x for x in UNITS if "_" not in x)))
    w = draw(word)
    if kind == "word":
        n = w
    elif kind == "pre":
        n = f"{p}_{w}"
    elif kind == "unit":
        n = f"{w}_{u}"
    elif kind == "three":
        n = f"{p}_{draw(st.sampled_from(sorted(PREFIX)))}_{u}"
    elif kind == "trail":
        n = draw(st.sampled_from([f"{u}_", f"{p}_", f"{p}{u}", f"__{u}"]))
    else:
        i = draw(st.integers(0, len(u)))
        n = f"{p}_{u[:i]}{draw(st.sampled_from('qzj'))}{u[i:]}"
    return {"name": n}


def run_unknown(c, ctx):
    import scipy.constants as sc

    from caput.astro import constants

    name = c["name"]

    def known(n):
        return n in UNITS or n in PREFIX or n in vars(sc) or n in vars(constants)

    parts = [x for x in name.split("_") if x]
    if known(name) or (len(parts) == 2 and all(known(x) for x in parts)) or name.startswith("_"):
        return Info(False, ["known"])
    try:
        v = getattr(constants, name)
    except AttributeError:
        pass
    else:
        raise AssertionError(f"unknown name {name} gave {v!r}")
    check(not hasattr(constants, name), "hasattr")
    return Info(len(parts) > 1, ["unknown"])


def run_scipy(c, ctx):
    """Everything scipy exports is there unchanged unless redefined here."""
    import scipy.constants as sc

    from caput.astro import constants

    n = c["name"]
    v = getattr(sc, n)
    if not isinstance(v, (int, float)):
        return Info(False)
    got = getattr(constants, n)
    check(got == v, "%s is %r, scipy has %r", n, got, v)
    p = c["p"]
    if "_" not in n:
        same(getattr(constants, f"{p}_{n}"), PREFIX[p] * v, f"{p}_{n}", 1e-15)
    return Info(True)


def scipy_names():
    import scipy.constants as sc

    return st.fixed_dictionaries({"name": st.sampled_from(sorted(sc.__all__)), "p": st.sampled_from(sorted(PREFIX))})


PARTS = [
    Part("prefixed", prefixed, run_prefixed, quick=150, shards=1,
         rule="prefixes drawn; for each the whole unit table is evaluated against SI values; non-trivial: always"),
    Part("unknown", unknown, run_unknown, quick=1000, shards=1,
         rule="generated names that are no constant; non-trivial: more than one component"),
    Part("scipy", scipy_names, run_scipy, quick=800, shards=1,
         rule="names exported by scipy.constants; non-trivial: numeric"),
]
