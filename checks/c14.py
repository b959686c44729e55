"""C14: axis selections apply consistently to every dataset and axis."""

import copy
import os
import warnings

from hypothesis import strategies as st

from checks import conts as K
from checks import mpihelp as H
from checks import trees as T
from vf.core import Info, Part, check, same_array

PROPERTY = "C14"
EXTS = {}
ASSUMPTIONS = ["lists of indices to load are strictly increasing, as the file formats need",
               "strides are positive"]
NAMES = K.AXES + ["rows", "tab_index", "src_index"]


@st.composite
def selection(draw, n, free=False):
    k = draw(st.sampled_from(["slice", "slice", "list", "list", "range"]))
    lim = st.one_of(st.none(), st.integers(-n - 2, n + 2))
    if k == "slice":
        return ["slice", draw(lim), draw(lim), draw(st.sampled_from([None, None, 1, 2, 3]))]
    if k == "range" and n:
        a = draw(st.integers(0, n - 1))
        b = draw(st.integers(a, n - 1))
        return [draw(st.sampled_from(["list", "array", "tuple"] if free else ["list"])), list(range(a, b + 1))]
    if free and n > 2 and draw(st.integers(0, 2)) == 0:
        a = draw(st.integers(0, n - 3))
        return [draw(st.sampled_from(["list", "array"])), list(draw(st.permutations(range(a, draw(st.integers(a + 3, n))))))]
    l = draw(st.lists(st.integers(0, max(n - 1, 0)), unique=not free, max_size=5 if n else 0))
    return [draw(st.sampled_from(["list", "array", "tuple"] if free else ["list"])), l if free else sorted(l)]


def sel_arg(s, np):
    if s[0] == "slice":
        return slice(*s[1:])
    if s[0] == "array":
        return np.array(s[1], dtype=int)
    if s[0] == "tuple":
        return tuple(s[1])
    return list(s[1])


def index(s, n, np):
    return np.arange(n)[slice(*s[1:])] if s[0] == "slice" else np.array(s[1], dtype=int)


def take(G, ax, sels, np):
    for i, a in enumerate(ax):
        if a in sels:
            G = np.take(G, index(sels[a], G.shape[i], np), axis=i)
    return G


@st.composite
def base(draw, free):
    h = draw(K.hierarchy(maxcls=3, tables=True, ints=False, sameaxes=True))
    if not any(c.get("spec") or "tables" in c for c in h):
        h[0]["spec"] = {"vis": draw(K.dspec(h[0]["axes"], False))}
    names = sorted({a for c in h for a in c.get("axes", ())} | ({"rows", "tab_index", "src_index", "time"} if any("tables" in c for c in h) else set()))
    axes = {a: draw(K.axis_value(draw(st.sampled_from([0, 1, 2, 3, 4, 5, 7, 8, 9])))) for a in NAMES}
    sels = {a: draw(selection(axes[a][1], free)) for a in draw(st.lists(st.sampled_from(names), unique=True, min_size=1, max_size=4))}
    return {"h": h, "axes": axes, "sels": sels, "add": draw(st.one_of(st.just(K.NAMES + K.TABLES), st.just(K.NAMES + K.TABLES), st.lists(st.sampled_from(K.NAMES + K.TABLES), unique=True, max_size=4))),
            "attrs": [[k, draw(T.attr_value(1))] for k in draw(st.lists(st.sampled_from(["x", "note"]), unique=True, max_size=2))],
            "seed": draw(st.integers(0, 50)), "redist": draw(st.sampled_from([None, None, *K.AXES]))}


@st.composite
def load_cases(draw):
    c = draw(base(False))
    c.update({"fmt": draw(st.sampled_from(["h5", "zarr"])), "dist": draw(st.booleans()), "ldist": draw(st.sampled_from([None, True, True, False])),
              "via": draw(st.sampled_from(["cls", "cls", "cls", "proto", "cont", "mdg"])), "open": draw(st.integers(0, 4)) == 0, "bad": draw(st.integers(0, 7)) == 0})
    return c


def make(c, classes, h, dist, np):
    i = len(h) - 1
    axes, spec = K.resolve(h, classes, i)
    A, kw = {}, {}
    for a in sorted(axes):
        kw[a], A[a] = K.axis_array(c["axes"][a], np)
    x = classes[i](distributed=dist, **kw)
    for nm in c["add"]:
        if nm in spec and nm not in x:
            x.add_dataset(nm)
    M = {}
    for j, nm in enumerate(sorted(x.datasets)):
        L = K.want_layout(spec, A, nm, dist, True, np)
        G = K.content(L[0], L[1], c["seed"] + 17 * j, np)
        K.fill(x[nm], G, np)
        M[nm] = {"G": G, "axes": spec[nm]["axes"], "attrs": {}, "da": L[2]}
    for k, v in c["attrs"]:
        x.attrs[k] = T.build_attr(v)
        for nm in sorted(M)[::2]:
            x[nm].attrs[k] = T.build_attr(v)
            M[nm]["attrs"][k] = T.build_attr(v)
        for a in sorted(A)[::2]:
            x.index_attrs[a][k] = T.build_attr(v)
    if c["redist"] and dist:
        x.redistribute(c["redist"])
        for d in M.values():
            if d["da"] is not None and c["redist"] in d["axes"]:
                d["da"] = d["axes"].index(c["redist"])
    return x, A, M


def plain(a):
    return T.plain({k: v for k, v in a.items() if k != "axis" and not k.startswith("__memh5")})


def verify(y, c, A, M, sels, w, np, attrs=True, axes=True, only=None):
    if axes:
        check(sorted(y.index_map) == sorted(A), "%s: axes %s, expected %s", w, sorted(y.index_map), sorted(A))
        for a, v in A.items():
            same_array(np.asarray(y.index_map[a]), take(v, [a], sels, np), f"{w}: axis {a}")
            want = {k: T.build_attr(v) for k, v in c["attrs"]} if a in sorted(A)[::2] else {}
            check(T.same_plain(plain(y.index_attrs[a]), T.plain(want)), "%s: axis %s has attributes %s, expected %s", w, a, y.index_attrs[a], want)
        check(T.same_plain(plain(y.attrs), T.plain({k: T.build_attr(v) for k, v in c["attrs"]})), "%s: attributes %s", w, y.attrs)
    check(sorted(y) == sorted(M), "%s: datasets %s, expected %s", w, sorted(y), sorted(M))
    for nm, d in M.items():
        if only is not None and nm not in only:
            continue
        same_array(K.whole(y[nm], np), take(d["G"], d["axes"], sels, np), f"{w}: {nm}")
        check([str(s) for s in y[nm].attrs["axis"]] == d["axes"], "%s: %s has axes %s", w, nm, y[nm].attrs["axis"])
        check(T.same_plain(plain(y[nm].attrs), T.plain(d["attrs"])), "%s: %s has attributes %s, expected %s", w, nm, y[nm].attrs, d["attrs"])


def run_load(c, ctx):
    import h5py
    import numpy as np
    import zarr

    from caput import memdata as md
    from caput.containers import Container, ContainerPrototype

    warnings.simplefilter("ignore")
    h = c["h"]
    classes = K.build(h, np)
    x, A, M = make(c, classes, h, c["dist"], np)
    cls = type(x)
    # axis attributes of text come back as text; axes of text need the conversion that containers have on
    f = os.path.join(ctx.scratch, f"f{ctx.n}.{c['fmt']}")
    ff = md.fileformats.HDF5 if c["fmt"] == "h5" else md.fileformats.Zarr
    if c["dist"]:
        x.save(f, file_format=ff)
    elif ctx.rank == 0:
        x.save(f, file_format=ff)
    ctx.comm.Barrier()
    sels = {a: s for a, s in c["sels"].items() if a in A}
    args = {a + "_sel": sel_arg(s, np) for a, s in sels.items()}
    keep = copy.deepcopy(args)
    if c["ldist"] is not None:
        args["distributed"] = c["ldist"]
    if c["via"] in ("cont", "mdg"):
        # text needs the conversion, which only the declared containers have by default
        args["convert_dataset_strings"] = True
    src = f
    lc = {"cls": cls, "proto": ContainerPrototype, "cont": Container, "mdg": md.MemDiskGroup}[c["via"]]
    handle = None
    if c["open"]:
        handle = src = h5py.File(f, "r") if c["fmt"] == "h5" else zarr.open_group(f, mode="r")
    if c["bad"]:
        try:
            lc.from_file(src, nosuchaxis_sel=slice(0, 1), **args)
        except RuntimeError:
            pass
        else:
            check(False, "selecting from an axis that does not exist was accepted")
    y = lc.from_file(src, **args)
    if c["open"] and c["fmt"] == "h5":
        handle.close()
    check(type(y) is cls, "loaded as a %s", type(y).__name__)
    check({k: v for k, v in args.items() if k.endswith("_sel")} == keep, "the selections were changed to %s", args)
    verify(y, c, A, M, sels, f"loaded by {c['via']}", np)
    for nm, d in M.items():
        dd = getattr(y[nm], "distributed", False)
        want = bool(c["ldist"]) and d["da"] is not None
        check(bool(dd) == want, "%s: distributed is %s, expected %s", nm, dd, want)
        if want:
            check(y[nm].distributed_axis == d["da"], "%s is distributed over %s, expected %s", nm, y[nm].distributed_axis, d["da"])
    verify(x, c, A, M, {}, "source", np)
    ctx.comm.Barrier()
    if ctx.rank == 0:
        import shutil

        shutil.rmtree(f) if os.path.isdir(f) else os.remove(f)
    hit = [nm for nm, d in M.items() if set(d["axes"]) & set(sels)]
    two = any(sum(a in sels for a in d["axes"]) > 1 for d in M.values())
    return Info(bool(hit) and any(M[nm]["G"].size for nm in hit), [c["fmt"], c["via"], "two selected axes" if two else "one"])


@st.composite
def copy_cases(draw):
    c = draw(base(True))
    c.update({"dist": draw(st.sampled_from([True, True, False])), "ddist": draw(st.sampled_from([True, True, False])),
              "how": draw(st.sampled_from(["dict", "dict", "axis", "one"])),
              "rest": draw(st.booleans()), "excl": draw(st.lists(st.sampled_from(K.AXES), unique=True, max_size=2)),
              "skip": draw(st.booleans()), "redist2": draw(st.sampled_from([None, None, *K.AXES]))})
    if c["how"] == "one":
        # one selection for all the axes named: they have the same length
        a0 = next(iter(c["sels"]))
        for a in c["sels"]:
            c["axes"][a][1] = c["axes"][a0][1]
        c["sels"] = {a: c["sels"][a0] for a in c["sels"]}
    return c


def run_copy(c, ctx):
    import numpy as np

    from caput.containers import copy_datasets_filter

    warnings.simplefilter("ignore")
    h = c["h"]
    classes = K.build(h, np)
    x, A, M = make(c, classes, h, c["dist"], np)
    cls = type(x)
    sels = {a: s for a, s in c["sels"].items() if a in A}
    dest = cls(axes_from=x, attrs_from=x, distributed=c["ddist"], skip_datasets=c["skip"],
               **{a: take(A[a], [a], sels, np) for a in sels})
    if c["redist2"] and c["ddist"]:
        dest.redistribute(c["redist2"])
    have = set(dest)
    kw = {"copy_without_selection": c["rest"]}
    if c["excl"]:
        kw["exclude_axes"] = list(c["excl"])
    if c["how"] == "one" and sels:
        kw["axis"] = list(sels) if len(sels) > 1 else next(iter(sels))
        kw["selection"] = sel_arg(next(iter(sels.values())), np)
    else:
        kw["selection"] = {a: sel_arg(s, np) for a, s in sels.items()}
        if c["how"] == "axis":
            kw["axis"] = list(sels)
    keep = copy.deepcopy(kw)
    # What is to be copied
    todo = [nm for nm, d in M.items() if not set(d["axes"]) & set(c["excl"]) and (c["rest"] or set(d["axes"]) & set(sels))]
    spec = K.resolve(h, classes, len(h) - 1)[1]
    refused = False
    for nm in todo:
        d = M[nm]
        if d["da"] is not None:
            isdist = c["ddist"] and spec[nm].get("distributed", True)
            if not isdist:
                refused = True      # documented: not from distributed into common
            elif d["axes"][d["da"]] in sels and all(a in sels for a in d["axes"]):
                refused = True      # no axis is left to distribute over
    try:
        copy_datasets_filter(x, dest, **kw)
    except ValueError:
        if refused:
            return Info(False, ["refused"])
        raise
    W = {nm: M[nm] for nm in set(todo) | have}
    verify(dest, c, A, W, sels, "destination", np, axes=False, only=todo)
    for nm in todo:
        if M[nm]["da"] is not None:
            check(dest[nm].distributed_axis == M[nm]["da"], "the destination's %s is distributed over %s, the source over %s", nm,
                  dest[nm].distributed_axis, M[nm]["da"])
    for k in kw:
        a, b = kw[k], keep[k]
        ok = (a.keys() == b.keys() and all(type(a[q]) is type(b[q]) and np.array_equal(a[q], b[q]) for q in a)) if isinstance(a, dict) else \
            type(a) is type(b) and (np.array_equal(a, b) if isinstance(a, np.ndarray) else a == b)
        check(ok, "the argument %s was changed from %s to %s", k, b, a)
    verify(x, c, A, M, {}, "source", np)
    for nm, d in M.items():
        if d["da"] is not None:
            check(x[nm].distributed_axis == d["da"], "the source's %s is now distributed over %s, was %s", nm, x[nm].distributed_axis, d["da"])
    return Info(any(M[nm]["G"].size and set(M[nm]["axes"]) & set(sels) for nm in todo), ["dist" if c["dist"] else "common", c["how"]])


PARTS = [
    Part("load", load_cases, run_load, quick=100, shards=2, ranks=[1, 2, 3], rule="a dataset with content has a selected axis"),
    Part("copy", copy_cases, run_copy, quick=120, shards=2, ranks=[1, 2, 3], rule="a dataset with content has a selected axis and is copied"),
]
