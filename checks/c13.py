"""C13: containers are laid out as their class hierarchy declares."""

import copy
import warnings

from hypothesis import strategies as st

from checks import conts as K
from checks import mpihelp as H
from checks import trees as T
from vf.core import Info, Part, check, same_array

PROPERTY = "C13"
EXTS = {}
ASSUMPTIONS = ["an array given by the caller as the definition of an axis may be referenced, not copied",
               "the initial values of a new dataset are not specified"]


@st.composite
def cases(draw):
    h = draw(K.hierarchy(sameaxes=draw(st.booleans())))
    names = K.AXES + ["rows", "tab_index", "src_index"]
    c = {"h": h, "axes": {a: draw(K.axis_value()) for a in names}, "dist": draw(st.sampled_from([None, True, False])),
         "chunked": draw(st.sampled_from([None, None, True, False])), "skip": draw(st.integers(0, 4)) == 0,
         "comm": draw(st.sampled_from([None, None, "world", "self"])),
         "first": draw(st.integers(0, len(h) - 1)),
         "add": draw(st.one_of(st.just(K.NAMES + K.TABLES), st.lists(st.sampled_from(K.NAMES + K.TABLES + ["nothing"]), max_size=4))),
         "slash": draw(st.booleans()), "missing": draw(st.integers(0, 8)) == 0,
         "attrs": [[k, draw(T.attr_value(2))] for k in draw(st.lists(st.sampled_from(["x", "note", "axis_", "tag", "units", "_p", "axes"]), unique=True, max_size=3))],
         "redist": draw(st.sampled_from([None, None, *K.AXES])),
         "how": draw(st.sampled_from(["copy_from", "copy_from", "axes_from", "empty_like", "axes_attrs", "dsets", "mixed"])),
         "cls": draw(st.sampled_from([None, None, draw(st.integers(0, len(h) - 1))])),
         "over": {a: draw(K.axis_value()) for a in draw(st.lists(st.sampled_from(names), unique=True, max_size=2))},
         "dist2": draw(st.sampled_from([None, None, True, False])), "skip2": draw(st.integers(0, 4)) == 0,
         "seed": draw(st.integers(0, 50)), "path": draw(st.integers(0, 3)) == 0,
         "mut": draw(st.booleans()),
         "own": draw(st.sampled_from([None, 0, 1, 2, 3]))}
    return c


def same_attrs(have, want, w, skip=("axis",)):
    a = {k: v for k, v in have.items() if k not in skip and k != "__memh5_subclass"}
    check(T.same_plain(T.plain(a), T.plain(want)), "%s has attributes %s, expected %s", w, a, want)


def verify(x, cls, M, w, np):
    """M: {"axes": {name: array}, "aattrs": {}, "dsets": {name: layout, content or None, axes, attrs}, "attrs": {}}."""
    check(type(x) is cls, "%s is a %s", w, type(x).__name__)
    check(x.axes == tuple(sorted(M["axes"])), "%s has axes %s, declared %s", w, x.axes, sorted(M["axes"]))
    im = x.index_map
    check(sorted(im) == sorted(M["axes"]), "%s has index maps %s, declared %s", w, sorted(im), sorted(M["axes"]))
    for a, v in M["axes"].items():
        same_array(np.asarray(im[a]), v, f"{w}: axis {a}")
        same_attrs(x.index_attrs[a], M["aattrs"].get(a, {}), f"{w}: axis {a}", skip=())
    check(sorted(x.datasets) == sorted(M["dsets"]), "%s has datasets %s, expected %s", w, sorted(x.datasets), sorted(M["dsets"]))
    check(sorted(x) == sorted(M["dsets"]), "%s lists %s, expected %s", w, sorted(x), sorted(M["dsets"]))
    for nm, d in M["dsets"].items():
        K.check_dataset(x[nm], f"{w}: {nm}", d["layout"], np, d["axes"])
        if d["G"] is not None:
            same_array(K.whole(x[nm], np), d["G"], f"{w}: {nm}")
        same_attrs(x[nm].attrs, d["attrs"], f"{w}: {nm}")
    same_attrs(x.attrs, M["attrs"], w)


def snapshot(classes):
    return [copy.deepcopy({k: c.__dict__[k] for k in ("_axes", "_dataset_spec", "_table_spec") if k in c.__dict__}) for c in classes]


def run(c, ctx):
    import numpy as np

    from caput.containers import empty_like

    warnings.simplefilter("ignore")
    h = c["h"]
    comm = H.subcomm(ctx, c["comm"])
    classes = K.build(h, np)
    before = snapshot(classes)
    labels = []

    # Build a container
    def kw_of(axes, vals):
        kw, A = {}, {}
        for a in sorted(axes):
            kw[a], A[a] = K.axis_array(vals[a], np)
        return kw, A

    i = c["first"] if c["cls"] is not None else len(h) - 1
    cls = classes[i]
    axes, spec = K.resolve(h, classes, i)
    kw, A = kw_of(axes, c["axes"])
    dist = c["dist"] if c["dist"] is not None else True
    chunked = c["chunked"] if c["chunked"] is not None else True
    if c["dist"] is not None:
        kw["distributed"] = c["dist"]
    if c["chunked"] is not None:
        kw["allow_chunked"] = c["chunked"]
    if comm is not None:
        kw["comm"] = comm
    if c["skip"]:
        kw["skip_datasets"] = True
    if c["missing"] and axes:
        bad = {k: v for k, v in kw.items() if k != sorted(axes)[0]}
        try:
            cls(**bad)
        except RuntimeError:
            labels.append("missing axis")
        else:
            check(False, "a container without a definition of the axis %s was made", sorted(axes)[0])
    kw0 = copy.deepcopy({k: v for k, v in kw.items() if k in axes})
    x = cls(**kw)
    M = {"axes": A, "aattrs": {}, "attrs": {}, "dsets": {}}

    def add(M, spec, nm, A, dist, chunked):
        M["dsets"][nm] = {"layout": K.want_layout(spec, A, nm, dist, chunked, np), "G": None, "axes": spec[nm]["axes"], "attrs": {}}

    if not c["skip"]:
        for nm, s in spec.items():
            if s.get("initialise"):
                add(M, spec, nm, A, dist, chunked)
    verify(x, cls, M, "new container", np)
    check(sorted(x.dataset_spec) == sorted(spec), "the specification has %s, declared %s", sorted(x.dataset_spec), sorted(spec))
    for nm in c["add"]:
        if nm in M["dsets"]:
            continue
        try:
            d = x.add_dataset(("/" if c["slash"] else "") + nm)
        except RuntimeError:
            check(nm not in spec, "the declared dataset %s cannot be added", nm)
            labels.append("undeclared")
            continue
        check(nm in spec, "the dataset %s was added, but is not declared", nm)
        add(M, spec, nm, A, dist, chunked)
        labels.append("added")
    verify(x, cls, M, "container with datasets added", np)
    if c["own"] is not None and len(spec):
        # What the instance itself declares takes precedence over its classes
        nm = sorted(spec)[c["own"] % len(spec)]
        y = cls(**{**kw, "skip_datasets": True})
        dt = np.int16 if np.dtype(spec[nm]["dtype"]) != np.int16 else np.float32
        own = {**{k: v for k, v in spec[nm].items() if k in ("axes", "distributed", "distributed_axis")}, "dtype": dt}
        y._dataset_spec = {nm: own, "own_": own}
        sp = {**spec, nm: own, "own_": own}
        check(sorted(y.dataset_spec) == sorted(sp), "the specification of an instance has %s, declared %s", sorted(y.dataset_spec), sorted(sp))
        for q in (nm, "own_"):
            K.check_dataset(y.add_dataset(q), f"instance's own {q}", K.want_layout(sp, A, q, dist, chunked, np), np, own["axes"])
        check(sorted(cls(**{**kw, "skip_datasets": True}).dataset_spec) == sorted(spec), "the specification of an instance changed its class")
        labels.append("own")

    # Fill it
    for j, nm in enumerate(sorted(M["dsets"])):
        d = M["dsets"][nm]
        d["G"] = K.content(d["layout"][0], d["layout"][1], c["seed"] + 17 * j, np)
        K.fill(x[nm], d["G"], np)
    for k, v in c["attrs"]:
        x.attrs[k] = T.build_attr(v)
        M["attrs"][k] = T.build_attr(v)
        for nm in sorted(M["dsets"])[::2]:
            x[nm].attrs[k] = T.build_attr(v)
            M["dsets"][nm]["attrs"][k] = T.build_attr(v)
        for a in sorted(A)[::2]:
            x.index_attrs[a][k] = T.build_attr(v)
            M["aattrs"].setdefault(a, {})[k] = T.build_attr(v)
    if c["path"]:
        x.attrs["__memh5_subclass"] = K.MODULE + "." + cls.__name__
    if c["redist"] is not None and dist:
        for nm, d in M["dsets"].items():
            if d["layout"][2] is not None and c["redist"] in d["axes"]:
                L = list(d["layout"])
                L[2] = d["axes"].index(c["redist"])
                d["layout"] = tuple(L)
        x.redistribute(c["redist"])
    verify(x, cls, M, "filled container", np)

    # Make another from it
    i2 = i if c["cls"] is None or c["how"] == "empty_like" else c["cls"]
    cls2 = classes[i2]
    axes2, spec2 = K.resolve(h, classes, i2)
    over = {a: v for a, v in c["over"].items() if a in axes2}
    for a in axes2:
        if a not in A and a not in over:
            over[a] = c["axes"][a]
    how = c["how"]
    src = (M["axes"], x)
    if how == "dsets":
        for a in axes2:
            over.setdefault(a, c["axes"][a])
    kw2, A2 = kw_of(over, over)
    for a in axes2:
        if a not in A2:
            A2[a] = A[a]
    dist2 = c["dist2"] if c["dist2"] is not None else True
    if c["dist2"] is not None:
        kw2["distributed"] = c["dist2"]
    if comm is not None:
        kw2["comm"] = comm
    if c["skip2"]:
        kw2["skip_datasets"] = True
    M2 = {"axes": A2, "aattrs": {a: dict(v) for a, v in M["aattrs"].items() if a in axes2 and a not in over}, "attrs": {}, "dsets": {}}
    if not c["skip2"]:
        for nm, s in spec2.items():
            if s.get("initialise"):
                add(M2, spec2, nm, A2, dist2, True)
    copies = [nm for nm in M["dsets"] if nm in spec2 and not (set(M["dsets"][nm]["axes"]) & set(over))]
    # The data of a dataset that the other class declares with other axes or columns cannot be taken over
    odd = any(M["dsets"][nm]["axes"] != spec2[nm]["axes"] or (M["dsets"][nm]["layout"][1] != np.dtype(spec2[nm]["dtype"]) and M["dsets"][nm]["layout"][1].names)
              for nm in copies)
    dsets = attrs = False
    if how == "empty_like":
        y = empty_like(x, **kw2)
        attrs = True
    elif how == "axes_from" or (how == "mixed" and odd):
        y = cls2(axes_from=x, **kw2)
    elif how == "axes_attrs" or odd:
        y = cls2(axes_from=x, attrs_from=x, **kw2)
        attrs = True
    elif how == "copy_from":
        y = cls2(copy_from=x, **kw2)
        attrs = dsets = True
    elif how == "dsets":
        y = cls2(dsets_from=x, **kw2)
        dsets = True
        M2["aattrs"] = {}
    else:
        y = cls2(copy_from=x, attrs_from=None, **kw2)
        dsets = True
    labels += [how, "other class" if cls2 is not cls else "same class"]
    if dsets:
        for nm in copies:
            if nm not in M2["dsets"]:
                add(M2, spec2, nm, A2, dist2, True)
            d = M2["dsets"][nm]
            G = M["dsets"][nm]["G"]
            d["G"] = G if G.dtype == d["layout"][1] else G.astype(d["layout"][1])
            labels.append("data copied")
    if attrs:
        M2["attrs"] = copy.deepcopy(M["attrs"])
        for nm in M2["dsets"]:
            if nm in M["dsets"]:
                M2["dsets"][nm]["attrs"] = copy.deepcopy(M["dsets"][nm]["attrs"])
    verify(y, cls2, M2, f"container made by {how}", np)
    if c["path"] and attrs:
        p = y.attrs["__memh5_subclass"]
        check(p == K.MODULE + "." + cls2.__name__, "the new container says it is a %s", p)
    verify(x, cls, M, "source afterwards", np)
    same = {k: v for k, v in kw.items() if k in axes}
    for k, v in kw0.items():
        same_array(np.asarray(same[k]), np.asarray(v), f"the argument {k}")

    # Changes of one do not show in the other
    p, Mp, q, clsq, Mq = (y, M2, x, cls, M) if c["mut"] else (x, M, y, cls2, M2)
    for nm in Mp["dsets"]:
        if Mq["dsets"].get(nm, {}).get("G") is not None:
            K.fill(p[nm], K.content(Mp["dsets"][nm]["layout"][0], Mp["dsets"][nm]["layout"][1], 999, np), np)
        p[nm].attrs["x"] = "changed"
    for a in Mp["axes"]:
        p.index_attrs[a]["x"] = "changed"
        m = p.index_map[a]
        # an axis defined by an array of the caller may be that array
        if len(m) and (a not in over if c["mut"] else True) and m.flags.writeable:
            m[:] = m[::-1].copy() if len(m) > 1 else np.zeros(1, m.dtype)
    for v in p.attrs.values():
        if isinstance(v, list):
            v.append(1)
        elif isinstance(v, dict):
            v["changed"] = 1
    p.attrs["x"] = "changed"
    verify(q, clsq, Mq, "the other container after one was changed", np)
    after = snapshot(classes)
    check(after == before, "the declarations of the classes changed: %s, were %s", after, before)
    nt = len(M["dsets"]) > 0 and len(M2["dsets"]) > 0
    return Info(nt, sorted(set(labels)))


# ---------------------------------------------------------------- generic data, weight and frequency access


@st.composite
def basics(draw):
    names = ["vis", "w", "vis_weight", "data", "weight", "grp"]
    have = draw(st.lists(st.sampled_from(names[:5]), unique=True, max_size=4))
    pick = st.sampled_from([None, *names, *have, *have, *have])
    return {"have": have, "data": draw(pick), "weight": draw(pick), "freq": draw(st.one_of(st.integers(0, 5), st.lists(st.floats(0, 1e3), max_size=5), st.just("centre"))),
            "n": draw(st.integers(1, 4)), "sub": draw(st.booleans()), "order": draw(st.booleans())}


def run_basic(c, ctx):
    import numpy as np

    from caput import memdata
    from caput.containers import DataWeightContainer, FreqContainer

    bases = (FreqContainer, DataWeightContainer) if c["order"] else (DataWeightContainer, FreqContainer)
    spec = {n: {"axes": ["freq", "t"], "dtype": np.float64, "initialise": True, "distributed": False} for n in c["have"]}
    cls = type("Basic", bases, {"_axes": ("t",), "_dataset_spec": spec, "_data_dset_name": c["data"], "_weight_dset_name": c["weight"]})
    if c["sub"]:
        cls = type("Sub", (cls,), {})
    if c["freq"] == "centre":
        fr = np.zeros(3, dtype=[("centre", "f8"), ("width", "f8")])
        fr["centre"] = [3.0, 2.0, 1.0]
    else:
        fr = c["freq"] if isinstance(c["freq"], int) else np.array(c["freq"], dtype="f8")
    x = cls(freq=fr, t=c["n"])
    want = np.arange(fr) if isinstance(fr, int) else fr
    check(np.array_equal(x.freq, want) and x.freq.dtype.names == want.dtype.names, "the frequencies are not those of the axis", got=x.freq, want=want)
    for i, nm in enumerate(c["have"]):
        x[nm][:] = i + 1.0
    seen = []
    for which in ("data", "weight"):
        nm = c[which]
        try:
            got = getattr(x, which)
        except RuntimeError:
            got = "undefined"
        except KeyError:
            got = "absent"
        if nm is None:
            check(got == "undefined", "an undefined dataset was given", which=which, got=got)
        elif nm not in c["have"]:
            check(got == "absent", "an absent dataset was given", which=which, name=nm, got=got)
        else:
            check(isinstance(got, memdata.MemDataset) and got.shape == (len(want), c["n"]), "not a dataset", which=which, name=nm, got=got)
            check(np.array_equal(got[:], np.full(got.shape, c["have"].index(nm) + 1.0)), "another dataset is given", which=which, name=nm, got=got[:])
            got[:] = -5.0
            check(np.array_equal(x[nm][:], np.full(got.shape, -5.0)), "the given dataset is not that of the container", which=which, name=nm)
            x[nm][:] = c["have"].index(nm) + 1.0
            seen.append(which)
    return Info(len(seen) == 2 and c["data"] != c["weight"], seen)


PARTS = [
    Part("basic", basics, run_basic, quick=200, shards=1, rule="different data and weight datasets exist"),
    Part("layout", cases, run, quick=130, shards=2, ranks=[1, 2, 3],
         rule="both containers have datasets"),
]
