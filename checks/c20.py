"""C20: configuration properties."""

import math

from hypothesis import strategies as st

from vf.core import Info, Part, check, fail

PROPERTY = "C20"
EXTS = {"invert": "fast", "weighted": "fast"}
ASSUMPTIONS = ["a conversion that fails with anything but TypeError passes its own exception on"]

NAMES = ["alpha", "beta", "gamma", "delta"]
KEYS = [None, None, "k1", "k2", "k3", "alpha"]
KINDS = ["plain", "int", "float", "str", "double", "enum", "range", "list", "listint", "list2", "max2", "fresh", "freshdict"]


def prop():
    return st.tuples(st.sampled_from(NAMES), st.sampled_from(KINDS), st.sampled_from(KEYS), st.sampled_from([False, True, True, "falsy"])).map(list)


@st.composite
def hier(draw):
    """Classes C0..Cn; each lists its bases and properties."""
    n = draw(st.integers(1, 4))
    classes = []
    for i in range(n):
        bases = draw(st.lists(st.integers(0, i - 1), max_size=2, unique=True)) if i else []
        ps = draw(st.lists(prop(), max_size=3, unique_by=lambda p: p[0]))
        classes.append({"bases": sorted(bases, reverse=True), "props": ps})
    val = st.one_of(st.integers(-3, 12), st.floats(-2, 12), st.sampled_from(["a", "b", "z", "3", "x y"]), st.booleans(),
                    st.none(), st.lists(st.integers(0, 5), max_size=3), st.lists(st.sampled_from(["p", 1]), max_size=3))
    conf = draw(st.dictionaries(st.sampled_from([*NAMES, "k1", "k2", "k3", "other"]), val, max_size=5))
    confs = [conf, draw(st.dictionaries(st.sampled_from([*NAMES, "k1", "k2"]), val, max_size=3))]
    return {"classes": classes, "confs": confs, "compare": draw(st.sampled_from([False, True, ["other"], ["other", "k3"]])),
            "defaults": draw(st.booleans()), "sets": draw(st.lists(st.tuples(st.sampled_from(NAMES), val).map(list), max_size=3))}


class Reject(Exception):
    pass


def conv(kind, v):
    """The reference conversions."""
    if kind == "plain":
        return v
    if kind == "int":
        return int(v)
    if kind == "float":
        return float(v)
    if kind == "str":
        return str(v)
    if kind == "double":
        return v * 2
    if kind == "enum":
        if v not in ["a", "b", 3]:
            raise Reject
        return v
    if kind == "range":
        v = float(v)
        if not (0.5 <= v <= 7.0):
            raise Reject
        return v
    if kind == "fresh":
        return list(v)
    if kind == "freshdict":
        return dict(v)
    if not isinstance(v, (list, tuple)):
        raise Reject
    if kind == "listint" and not all(isinstance(x, int) for x in v):
        raise Reject
    if kind == "list2" and len(v) != 2:
        raise Reject
    if kind == "max2" and len(v) > 2:
        raise Reject
    return v


DEFAULT = {"plain": "dflt", "int": 4.0, "float": "2.5", "str": 5, "double": 21, "enum": "b", "range": 3, "list": [1, "q"],
           "listint": [4], "list2": [1, 2], "max2": [9], "fresh": (3, "f"), "freshdict": [["k", 1]]}


FALSY = {"plain": 0, "int": 0.0, "float": 0, "str": 0, "double": 0.0, "list": [], "listint": [], "max2": [], "fresh": (), "freshdict": []}


def default(kind, has):
    """has: False, True or "falsy"."""
    return None if not has else FALSY[kind] if has == "falsy" and kind in FALSY else DEFAULT[kind]


def mkprop(config, kind, key, has):
    d = default(kind, has)
    if kind == "enum":
        p = config.enum(["a", "b", 3], default=d)
    elif kind == "range":
        p = config.float_in_range(0.5, 7.0, default=d)
    elif kind == "list":
        p = config.list_type(default=d)
    elif kind == "listint":
        p = config.list_type(int, default=d)
    elif kind == "list2":
        p = config.list_type(length=2, default=d)
    elif kind == "max2":
        p = config.list_type(maxlength=2, default=d)
    else:
        t = {"plain": None, "int": int, "float": float, "str": str, "double": lambda v: v * 2, "fresh": list,
             "freshdict": dict}[kind]
        return config.Property(default=d, proptype=t, key=key)
    p.key = key
    return p


def run_hier(c, ctx):
    from caput import config

    cls = []
    for i, k in enumerate(c["classes"]):
        bases = tuple(cls[b] for b in k["bases"]) or (config.Reader,)
        ns = {p[0]: mkprop(config, *p[1:]) for p in k["props"]}
        try:
            cls.append(type(f"C{i}", bases, ns))
        except TypeError:
            return Info(False, ["no mro"])
    K = cls[-1]
    # the nearest declaration of each name, in method resolution order
    decl = {}
    for q in K.__mro__:
        if q in cls:
            for p in c["classes"][cls.index(q)]["props"]:
                decl.setdefault(p[0], p)
    key = {n: (p[2] or n) for n, p in decl.items()}

    def expect(conf, values):
        """Applies conf to the model; the exception types a failure may have."""
        bad = set()
        for n, p in decl.items():
            if key[n] in conf:
                try:
                    values[n] = conv(p[1], conf[key[n]])
                except (Reject, TypeError):
                    bad.add("config")
                except Exception:  # noqa: BLE001
                    bad.add("other")
        return bad

    def look(obj, values):
        for n, p in decl.items():
            want = values[n] if n in values else (conv(p[1], default(p[1], p[3])) if p[3] else None)
            got = getattr(obj, n)
            check(got == want and type(got) is type(want), "%s is %r, expected %r", n, got, want)
        for n in NAMES:
            if n not in decl:
                check(not hasattr(obj, n), "undeclared %s appeared", n)

    objs = []
    overridden = sum(len(k["props"]) for k in c["classes"]) > len(decl)
    for conf in c["confs"]:
        src = {k: (list(v) if isinstance(v, list) else v) for k, v in conf.items()}
        m = {}
        bad = expect(conf, m)
        unused = set(conf) - set(key.values()) - set(c["compare"] if isinstance(c["compare"], list) else ())
        missing = set(key.values()) - set(conf)
        o = K()
        look(o, {})
        want_err = bad or (c["compare"] and unused) or (not c["defaults"] and missing)
        try:
            o.read_config(conf, compare_keys=c["compare"], use_defaults=c["defaults"])
        except config.CaputConfigError:
            check(want_err, "refused: %s", conf)
            m = None
        except Exception as exc:  # noqa: BLE001
            check("other" in bad, "%r for %s", exc, conf)
            m = None
        else:
            check(not want_err, "accepted %s (bad=%s unused=%s missing=%s)", conf, bad, unused, missing)
            look(o, m)
            o2 = K.from_config(conf)
            look(o2, m)
        check(conf == src, "the configuration was changed")
        if m is not None:
            objs.append((o, m))
    # converted to a value of its own, so changing it in place affects no other instance
    o = K()
    for n, p in decl.items():
        if p[1] == "fresh" and p[3]:
            getattr(o, n).append("changed")
        elif p[1] == "freshdict" and p[3]:
            getattr(o, n)["changed"] = True
    for oo, mm in objs:
        look(oo, mm)
    look(K(), {})
    # direct assignment on the last one affects neither the other nor the class
    for n, v in c["sets"]:
        if n not in decl or not objs:
            continue
        o, m = objs[-1]
        try:
            w = conv(decl[n][1], v)
        except Exception:  # noqa: BLE001
            try:
                setattr(o, n, v)
            except Exception:  # noqa: BLE001
                pass
            else:
                fail("%s = %r was accepted", n, v)
        else:
            setattr(o, n, v)
            m[n] = w
        for oo, mm in objs:
            look(oo, mm)
        look(K(), {})
    return Info(bool(objs) and len(decl) > 1 and any(m for _, m in objs), ["overridden" if overridden else "plain"])


# ---------------------------------------------------------------- validators
@st.composite
def valid(draw):
    kind = draw(st.sampled_from(["range", "enum", "list", "log", "format"]))
    c = {"kind": kind}
    if kind == "range":
        a, b = sorted(draw(st.tuples(st.floats(-100, 100), st.floats(-100, 100))))
        c.update(a=a, b=b, v=draw(st.one_of(st.floats(-150, 150), st.sampled_from([a, b, "nan", "inf", "-inf", str((a + b) / 2)]),
                                           st.integers(-120, 120), st.sampled_from([math.nextafter(a, -1e9), math.nextafter(b, 1e9)]))),
                 d=draw(st.one_of(st.none(), st.floats(-150, 150))))
    elif kind == "enum":
        opt = st.one_of(st.integers(0, 6), st.text("ab", max_size=2), st.booleans(), st.none())
        c.update(o=draw(st.lists(opt, min_size=1, max_size=4)), v=draw(opt), d=draw(opt))
    elif kind == "list":
        it = st.one_of(st.integers(0, 3), st.text("ab", max_size=1), st.floats(0, 1), st.booleans())
        c.update(t=draw(st.sampled_from([None, "int", "str", "float"])), n=draw(st.one_of(st.none(), st.integers(0, 3))),
                 m=draw(st.one_of(st.none(), st.integers(0, 3))),
                 v=draw(st.one_of(st.lists(it, max_size=4), st.lists(st.integers(0, 3), max_size=4), st.text("ab", max_size=2), st.integers(0, 3))),
                 tup=draw(st.booleans()), d=draw(st.one_of(st.none(), st.lists(it, max_size=3), st.lists(st.integers(0, 3), max_size=3))))
    elif kind == "log":
        lev = st.sampled_from(["DEBUG", "INFO", "WARNING", "ERROR", "NOTSET", "debug", "Info", "bogus", "", "WARN"])
        c.update(v=draw(st.one_of(lev, st.dictionaries(st.sampled_from(["root", "a.b", "c"]), lev, max_size=3), st.sampled_from([3, None, [1]]))))
    else:
        c.update(v=draw(st.sampled_from(["hdf5", "zarr", "HDF5", "Zarr", "@HDF5", "@Zarr", "fits", 3, "", None, "@int"])),
                 d=draw(st.sampled_from(["hdf5", "zarr", None, "ZARR", "@HDF5", "x", 3])))
    return c


def outcome(f):
    try:
        return True, f()
    except Exception as exc:  # noqa: BLE001
        return False, exc


def same(a, b):
    return a == b and type(a) is type(b)


def run_valid(c, ctx):
    from caput import config

    k = c["kind"]
    v = c["v"]
    d = c.get("d")
    kinderr = config.CaputConfigError
    if k == "range":
        def ref(x):
            x = float(x)
            if not (c["a"] <= x <= c["b"]):
                raise Reject
            return x

        def mk(dd):
            return config.float_in_range(c["a"], c["b"], default=dd)

        checkdefault = False
    elif k == "enum":
        def ref(x):
            if x not in c["o"]:
                raise Reject
            return x

        def mk(dd):
            return config.enum(c["o"], default=dd)

        checkdefault = True
    elif k == "list":
        T = {None: None, "int": int, "str": str, "float": float}[c["t"]]

        def ref(x):
            if not isinstance(x, (list, tuple)):
                raise Reject
            if T and not all(isinstance(y, T) for y in x):
                raise Reject
            if c["n"] is not None and len(x) != c["n"]:
                raise Reject
            if c["m"] is not None and len(x) > c["m"]:
                raise Reject
            return x

        def mk(dd):
            return config.list_type(T, length=c["n"], maxlength=c["m"], default=dd)

        checkdefault = True
        if c["tup"] and isinstance(v, list):
            v = tuple(v)
    elif k == "log":
        kinderr = Exception

        def ref(x):
            if isinstance(x, str):
                x = {"root": x}
            if not isinstance(x, dict):
                raise Reject
            out = {}
            for a, b in x.items():
                if b.upper() not in ("DEBUG", "INFO", "WARNING", "ERROR", "NOTSET"):
                    raise Reject
                out[a] = b.upper()
            return out

        def mk(dd):
            return config.logging_config(dd)

        checkdefault = False
    else:
        from caput.memdata import fileformats
        from caput.pipeline.extensions import file_format

        tr = {"@HDF5": fileformats.HDF5, "@Zarr": fileformats.Zarr, "@int": int}
        v, d = tr.get(v, v), tr.get(d, d)

        def ref(x):
            if x is None:
                return None
            if x in (fileformats.HDF5, fileformats.Zarr):
                return x
            if not isinstance(x, str) or x.lower() not in ("hdf5", "zarr"):
                raise Reject
            return {"hdf5": fileformats.HDF5, "zarr": fileformats.Zarr}[x.lower()]

        def mk(dd):
            return file_format(dd)

        checkdefault = True
    # the default
    okd, wd = outcome(lambda: ref(d))
    if d is not None and checkdefault and not okd:
        ok, r = outcome(lambda: mk(d))
        check(not ok, "default %r was accepted", d)
        d = None
    good, want = outcome(lambda: ref(v))

    class R(config.Reader):
        p = mk(d)

    r = R()
    if d is None:
        check(r.p is None or (k == "log" and r.p == {}), "no default, but %r", r.p)
    elif okd:
        check(same(r.p, wd), "default is %r, expected %r", r.p, wd)
    for how in ("config", "set"):
        r = R()
        ok, e = outcome(lambda: r.read_config({"p": v}) if how == "config" else setattr(r, "p", v))
        check(ok == good, "%s of %r: %s", how, v, "accepted" if ok else f"refused {e!r}")
        if ok:
            check(same(r.p, want), "%r is held as %r, expected %r", v, r.p, want)
        elif isinstance(want, Reject):
            check(isinstance(e, kinderr), "%r refused with %r", v, e)
    return Info(True, [k, "good" if good else "bad"])


# ---------------------------------------------------------------- yaml lines, deprecation
def yaml_tree():
    leaf = st.one_of(st.integers(-5, 5), st.text("abc", min_size=1, max_size=4), st.booleans(), st.none())
    return st.recursive(leaf, lambda ch: st.one_of(st.lists(ch, max_size=3), st.dictionaries(st.text("xyz", min_size=1, max_size=3), ch, max_size=3)),
                        max_leaves=12).map(lambda t: {"doc": {"top": t}})


def run_yaml(c, ctx):
    import yaml

    from caput import config

    txt = yaml.dump(c["doc"], default_flow_style=False)
    got = yaml.load(txt, Loader=config.SafeLineLoader)
    check(got == yaml.safe_load(txt) == c["doc"], "%r, expected %r", got, c["doc"])

    depth = str(c["doc"]).count("{")
    # the line reported for an error is that of the block, where it is known
    for line in (None, 7):
        loc = config._line_dict(got) if hasattr(config, "_line_dict") else None
        if loc is None:
            break
        loc.__line__ = line
        e = str(config.CaputConfigError("msg", file_="f.yml", location=loc))
        check("msg" in e and (("L7" in e and "f.yml" in e) if line else "L7" not in e), "error text %r", e)
    return Info(depth > 2, [])


@st.composite
def dep(draw):
    return {"dep": draw(st.booleans()), "ops": draw(st.lists(st.sampled_from(["get", "set", "conf", "confother"]), min_size=1, max_size=4))}


def run_dep(c, ctx):
    import warnings

    from caput import config

    class R(config.Reader):
        old = config.Property(default=1, proptype=int, deprecated=c["dep"])
        new = config.Property(default=2, proptype=int)

    r = R()
    cur = 1
    for op in c["ops"]:
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            if op == "get":
                check(r.old == cur, "value")
            elif op == "set":
                r.old = "7"
                cur = 7
            elif op == "conf":
                r.read_config({"old": 9})
                cur = 9
            else:
                r.read_config({"new": 9})
        n = sum(issubclass(w.category, FutureWarning) and "old" in str(w.message) for w in ws)
        check((n > 0) == (c["dep"] and op != "confother"), "%s: %d deprecation warnings", op, n)
    return Info(c["dep"])


PARTS = [
    Part("hierarchy", hier, run_hier, quick=1000, shards=3,
         rule="class hierarchies (chains, diamonds, overrides), two configurations, direct assignments, against a reference resolver; non-trivial: several properties and values accepted"),
    Part("validators", valid, run_valid, quick=1500, shards=2, rule="validator arguments, defaults and values on and around the limits; non-trivial: always"),
    Part("yaml", yaml_tree, run_yaml, quick=250, shards=1, rule="nested documents through the line-tracking loader; non-trivial: more than two mappings"),
    Part("deprecated", dep, run_dep, quick=100, shards=1, rule="histories of use of a deprecated property; non-trivial: deprecated"),
]
