"""C16: concatenating time-ordered data is the same as joining along time."""

import copy
import os
import shutil
import sys
import types
import warnings

from hypothesis import strategies as st

from checks import conts as K
from checks import trees as T
from vf.core import Info, Part, check, same_array

PROPERTY = "C16"
EXTS = {}
ASSUMPTIONS = ["a dataset has at most one time axis and is not distributed over it", "the time stamps increase"]
DT = ["<f8", "<f4", "<c16", "<i4", "|b1", "S4", "struct"]


@st.composite
def base(draw, files):
    tax = draw(st.sampled_from([["time"], ["time"], ["time", "gate"]]))
    other = draw(st.lists(st.sampled_from(["freq", "prod", "input"]), unique=True, max_size=3))
    np_ = draw(st.integers(1, 5))
    lens = {a: [draw(st.one_of(st.integers(0, 6), st.integers(1, 4))) for _ in range(np_)] for a in tax}
    dsets = {}
    nested = draw(st.integers(0, 2)) == 0
    for nm in draw(st.lists(st.sampled_from(["vis", "gain", "vis_w", "extra", "misc"] + (["flags/f", "flags/vis", "flags/deep/x"] if nested else [])),
                            unique=True, min_size=1, max_size=5 if nested else 4)):
        t = draw(st.sampled_from([*tax, *tax, None]))
        ax = list(draw(st.permutations(other)))[: draw(st.integers(0, len(other)))]
        if t:
            ax.insert(draw(st.integers(0, len(ax))), t)
        dsets[nm] = {"axes": ax, "dtype": draw(st.sampled_from(DT)), "attr": draw(st.booleans()), "noaxis": not t and draw(st.booleans()),
                     "dist": draw(st.booleans()), "da": draw(st.integers(0, 2))}
    tot = {a: sum(v) for a, v in lens.items()}

    def lim():
        n = max(tot.values())
        one = st.one_of(st.none(), st.integers(-n - 3, n + 3), st.integers(0, n))
        if draw(st.integers(0, 3)) == 0:
            return {a: draw(one) for a in draw(st.lists(st.sampled_from(tax), unique=True))}
        return draw(one)

    c = {"tax": tax, "other": {a: draw(st.sampled_from([0, 1, 2, 3, 5])) for a in other}, "lens": lens, "dsets": dsets,
         "start": lim(), "stop": lim(), "hist": draw(st.integers(0, 2)), "rmap": draw(st.booleans()),
         "subset": draw(st.one_of(st.none(), st.none(), st.lists(st.sampled_from(sorted(dsets)), unique=True))),
         "filter": draw(st.sampled_from([None, None, None, "cast", "slice", "turn"])),
         "nested": nested, "ghost": draw(st.sampled_from([None, None, None, "first", "last"])), "oldhist": draw(st.integers(0, 3)) == 0,
         "align": draw(st.sampled_from([None, None, 1, -1, 0, 0.5])), "back": draw(st.integers(0, 4)) == 0, "kind": draw(st.sampled_from(["struct", "float"])),
         "attrs": [[k, draw(T.attr_value(1))] for k in draw(st.lists(st.sampled_from(["x", "note"]), unique=True, max_size=2))],
         "text": draw(st.integers(0, 3)) == 0, "seed": draw(st.integers(0, 20)), "mut": draw(st.booleans())}
    return c


@st.composite
def mem_cases(draw):
    c = draw(base(False))
    c.update(out=draw(st.sampled_from([None, None, "mem"])), dist=draw(st.booleans()), seq=draw(st.sampled_from(["list", "list", "tuple"])))
    if c["filter"] in ("slice", "turn"):
        c["dist"] = False
    return c


@st.composite
def file_cases(draw):
    c = draw(base(True))
    c["back"] = False
    c.update(out=draw(st.sampled_from([None, None, "mem", "h5"])), fmt=draw(st.sampled_from(["h5", "h5", "zarr"])),
             how=draw(st.sampled_from(["mult", "mult", "mult_mem", "glob", "objects", "reader", "reader", "reader_glob"])),
             pre=draw(st.integers(0, 2)), win=[draw(st.one_of(st.none(), st.integers(-2, 60))), draw(st.one_of(st.none(), st.integers(-2, 60)))],
             sel=draw(st.sampled_from(["range", "range", "sel", "none"])))
    return c


def classes(c):
    from caput.containers import tod

    mod = types.ModuleType("vf_generated_tod")
    sys.modules["vf_generated_tod"] = mod
    tax = tuple(c["tax"])
    if c["ghost"]:      # an axis that these data do not have
        tax = ("ghost", *tax) if c["ghost"] == "first" else (*tax, "ghost")
    ns = {"__module__": "vf_generated_tod", "time_axes": tax}
    if c["nested"]:
        ns["group_name_allowed"] = lambda self, name: name.split("/")[1] == "flags"
        ns["dataset_name_allowed"] = lambda self, name: name.count("/") == 1 or name.split("/")[1] == "flags"
    mod.Gen = type("Gen", (tod.TOData,), ns)
    mod.Reader = type("Reader", (tod.TODReader,), {"__module__": "vf_generated_tod", "data_class": mod.Gen})
    return mod.Gen, mod.Reader


def listing(x):
    out = []
    for k in x:
        if hasattr(x[k], "keys"):
            out += [f"{k}/{q}" for q in listing(x[k])]
        else:
            out.append(k)
    return sorted(out)


def dist_axis(c, d):
    free = [i for i, a in enumerate(d["axes"]) if a not in c["tax"]]
    return free[d["da"] % len(free)] if free else None


def gdata(c, np):
    """The whole: axes and datasets over all the pieces."""
    A, D = {}, {}
    for a, l in c["lens"].items():
        n = sum(l)
        if c["kind"] == "struct" and a == "time":
            v = np.zeros(n, dtype=[("fpga_count", np.uint64), ("ctime", np.float64)])
            v["fpga_count"] = np.arange(n) * 3 + 1
            v["ctime"] = np.arange(n) * 2.0 + 10
        else:
            v = np.arange(n) * 2.0 + 10
        A[a] = v[::-1].copy() if c["back"] else v
    for a, n in c["other"].items():
        A[a] = np.array([b"p%d" % i for i in range(n)], dtype="S3") if a == "input" else np.arange(n) * 1.5 + 3
    for j, (nm, d) in enumerate(sorted(c["dsets"].items())):
        shape = tuple(len(A[a]) for a in d["axes"])
        if d["dtype"] == "struct":
            dt = np.dtype([("a", "<i4"), ("b", "<f8")])
        else:
            dt = np.dtype(d["dtype"])
        if dt.kind == "S":
            n = int(np.prod(shape, dtype=int))
            G = np.array([b"%d" % ((i * 7 + j) % 991) for i in range(n)], dtype=dt).reshape(shape)
        else:
            G = K.content(shape, dt, c["seed"] + 31 * j, np)
        D[nm] = G
    return A, D


def pieces(c, Gen, A, D, np, comm=None):
    out = []
    n = len(next(iter(c["lens"].values())))
    pos = dict.fromkeys(c["tax"], 0)
    dist = bool(c.get("dist")) and comm is not None
    for p in range(n):
        x = Gen(distributed=dist) if dist else Gen()
        cut = {a: slice(pos[a], pos[a] + c["lens"][a][p]) for a in c["tax"]}
        for a, v in A.items():
            x.create_index_map(a, v[cut.get(a, slice(None))].copy())
            for k, q in c["attrs"][:1]:
                x.index_attrs[a][k] = T.build_attr(q)
            if a == "time" and c["align"] is not None:
                x.index_attrs[a]["alignment"] = c["align"]
        for nm, d in c["dsets"].items():
            G = np.array(D[nm][tuple(cut.get(a, slice(None)) for a in d["axes"])])
            da = dist_axis(c, d)
            if dist and d["dist"] and da is not None:
                y = x.create_dataset(nm, shape=G.shape, dtype=G.dtype, distributed=True, distributed_axis=da)
                K.fill(y, G, np)
            else:
                x.create_dataset(nm, data=G)
            if not d["noaxis"]:
                x[nm].attrs["axis"] = np.array(d["axes"], dtype="U")
            if d["attr"]:
                for k, q in c["attrs"]:
                    x[nm].attrs[k] = T.build_attr(q)
        for k, q in c["attrs"]:
            x.attrs[k] = T.build_attr(q)
        for i in range(c["hist"]):
            x.add_history(f"h{i}", {"v": i, "w": {"z": [1, 2]}})
        if c["oldhist"]:
            x._data["history"].create_group("old").attrs["y"] = 3
        if c["rmap"]:
            x.create_reverse_map("stack", np.arange(4))
        out.append(x)
        for a in c["tax"]:
            pos[a] += c["lens"][a][p]
    return out


def plain(a):
    return T.plain({k: v for k, v in a.items() if k != "axis" and not k.startswith("__memh5")})


def contains(x, c, A, D, w, np, names=None, text=False):
    """x holds exactly these axes and datasets and what does not depend on time."""
    want = lambda v: v.astype("U") if text and v.dtype.kind == "S" else v
    im = x.index_map
    check(sorted(im) == sorted(A), "%s: axes %s, expected %s", w, sorted(im), sorted(A))
    for a, v in A.items():
        same_array(np.asarray(im[a]), want(v), f"{w}: axis {a}", dtype=not (text and v.dtype.kind == "S"))
        at = {k: T.build_attr(q) for k, q in c["attrs"][:1]}
        if a == "time" and c["align"] is not None:
            at["alignment"] = c["align"]
        check(T.same_plain(plain(x.index_attrs[a]), T.plain(at)), "%s: axis %s has attributes %s, expected %s", w, a, x.index_attrs[a], at)
    names = list(D) if names is None else names
    check(listing(x) == sorted(names), "%s: datasets %s, expected %s", w, listing(x), sorted(names))
    tm = A["time"]["ctime"] if A["time"].dtype.names else A["time"]
    if c["align"] and len(tm) > 1:
        tm = tm + c["align"]        # half of the spacing, 2 seconds, at either end
    if not c["align"] or len(tm) > 1:
        same_array(np.asarray(x.time), tm, f"{w}: time centres")
    for nm in names:
        d = c["dsets"][nm]
        same_array(K.whole(x[nm], np), want(D[nm]), f"{w}: {nm}", dtype=not (text and D[nm].dtype.kind == "S"))
        if text and D[nm].dtype.kind == "S":
            check(x[nm].dtype.kind == "U", "%s: %s is not converted to text", w, nm)
        ax = x[nm].attrs.get("axis")
        check((None if ax is None else [str(s) for s in ax]) == (None if d["noaxis"] else d["axes"]), "%s: %s has axes %s", w, nm, ax)
        at = {k: T.build_attr(q) for k, q in c["attrs"]} if d["attr"] else {}
        check(T.same_plain(plain(x[nm].attrs), T.plain(at)), "%s: %s has attributes %s, expected %s", w, nm, x[nm].attrs, at)
    at = {k: T.build_attr(q) for k, q in c["attrs"]}
    check(T.same_plain(plain(x.attrs), T.plain(at)), "%s: attributes %s, expected %s", w, x.attrs, at)
    h = x.history
    check(h["order"] == [f"h{i}" for i in range(c["hist"])], "%s: order of history %s, expected %d", w, h["order"], c["hist"])
    for i in range(c["hist"]):
        check(T.same_plain(T.plain(h[f"h{i}"]), T.plain({"v": i, "w": {"z": [1, 2]}})), "%s: history %s", w, h)
    check(("old" in h) == c["oldhist"] and (not c["oldhist"] or dict(h["old"]) == {"y": 3}), "%s: old entry in history %s", w, h)
    check(sorted(x.reverse_map) == (["stack"] if c["rmap"] else []), "%s: reverse maps %s", w, sorted(x.reverse_map))
    if c["rmap"]:
        same_array(np.asarray(x.reverse_map["stack"]), np.arange(4), f"{w}: reverse map")


def expected(c, A, D, start, stop, np):
    cut = {}
    for a in c["tax"]:
        s = start.get(a) if isinstance(start, dict) else start
        e = stop.get(a) if isinstance(stop, dict) else stop
        cut[a] = slice(s, e)
    A2 = {a: v[cut.get(a, slice(None))] for a, v in A.items()}
    D2 = {nm: np.asarray(G[tuple(cut.get(a, slice(None)) for a in c["dsets"][nm]["axes"])]) for nm, G in D.items()}
    return A2, D2


def names_of(c):
    """A subset is of the time-ordered datasets."""
    if c["subset"] is None:
        return None, None
    timed = [nm for nm in c["subset"] if set(c["dsets"][nm]["axes"]) & set(c["tax"])]
    return timed, timed + [nm for nm, d in c["dsets"].items() if not set(d["axes"]) & set(c["tax"])]


def filters(c, D2, np):
    from caput import memdata as md

    def cast(d):
        if d.dtype.kind not in "fc":
            return d
        out = md.MemDatasetCommon.from_numpy_array(np.asarray(d[:]).astype("<c8")) if not getattr(d, "distributed", False) else d
        if out is not d:
            for k, v in d.attrs.items():
                out.attrs[k] = v
        return out

    def sliced(d, sl):
        ax = [str(x) for x in (s.decode() if isinstance(s, bytes) else s for s in d.attrs["axis"])]
        i = next(i for i, a in enumerate(ax) if a in c["tax"])
        return np.asarray(d[:])[(slice(None),) * i + (sl,)].copy()

    def turn(d):
        ax = [str(x) for x in (s.decode() if isinstance(s, bytes) else s for s in d.attrs["axis"])]
        out = md.MemDatasetCommon.from_numpy_array(np.ascontiguousarray(np.asarray(d[:]).T))
        for k, v in d.attrs.items():
            out.attrs[k] = v
        out.attrs["axis"] = np.array(ax[::-1], dtype="U")
        return out

    return {None: None, "cast": cast, "slice": sliced, "turn": turn}[c["filter"]]


def turned(c, D2, np):
    """What it should be after the filter that reverses the axes."""
    if c["filter"] != "turn":
        return c, D2
    timed = [nm for nm, d in c["dsets"].items() if set(d["axes"]) & set(c["tax"])]
    ds = {nm: dict(d, axes=d["axes"][::-1]) if nm in timed else d for nm, d in c["dsets"].items()}
    return dict(c, dsets=ds), {nm: np.ascontiguousarray(G.T) if nm in timed else G for nm, G in D2.items()}


def run_mem(c, ctx):
    import numpy as np

    from caput import memdata as md
    from caput.containers import tod

    warnings.simplefilter("ignore")
    Gen, _ = classes(c)
    A, D = gdata(c, np)
    ps = pieces(c, Gen, A, D, np, ctx.comm)
    dist = c["dist"]
    A2, D2 = expected(c, A, D, c["start"], c["stop"], np)
    arg, names = names_of(c)
    kw = {"start": copy.deepcopy(c["start"]), "stop": copy.deepcopy(c["stop"]), "datasets": copy.copy(arg)}
    f = filters(c, D2, np)
    if f is not None:
        kw["dataset_filter"] = f
    if c["out"] == "mem":
        kw["out_group"] = md.MemGroup(distributed=dist)
    if c["text"]:
        kw["convert_dataset_strings"] = True
    lst = list(ps) if c["seq"] == "list" else tuple(ps)
    x = tod.concatenate(lst, **kw)
    check(type(x) is Gen, "the result is a %s", type(x).__name__)
    check(list(lst) == list(ps) and len(lst) == len(ps), "the list was changed")
    for k in ("start", "stop"):
        check(kw[k] == c[k], "the argument %s was changed to %s", k, kw[k])
    check(kw["datasets"] == arg, "the list of datasets was changed")
    if c["filter"] == "cast":
        for nm in D2:
            if D2[nm].dtype.kind in "fc" and set(c["dsets"][nm]["axes"]) & set(c["tax"]) and nm in x and not getattr(x[nm], "distributed", False):
                D2[nm] = D2[nm].astype("<c8")
    c2, D2 = turned(c, D2, np)
    contains(x, c2, A2, D2, "result", np, names, c["text"])
    held = listing(x)
    for nm in held:
        d = c2["dsets"][nm]
        da = dist_axis(c2, d)
        want = da if dist and d["dist"] and da is not None and c["filter"] != "slice" else None
        got = x[nm].distributed_axis if getattr(x[nm], "distributed", False) else None
        check(got == want, "%s is distributed over %s, expected %s", nm, got, want)
    # the sources are untouched, also when the result is changed
    if c["mut"]:
        for nm in held:
            if x[nm].shape:
                K.fill(x[nm], np.zeros(x[nm].shape, x[nm].dtype), np)
        for a in x.index_map:
            v = x.index_map[a]
            v[...] = np.zeros(v.shape, v.dtype)
        for v in x.reverse_map.values():
            v[...] = 0
    p = 0
    pos = dict.fromkeys(c["tax"], 0)
    for p, y in enumerate(ps):
        cut = {a: slice(pos[a], pos[a] + c["lens"][a][p]) for a in c["tax"]}
        contains(y, c, {a: v[cut.get(a, slice(None))] for a, v in A.items()},
                 {nm: np.asarray(G[tuple(cut.get(a, slice(None)) for a in c["dsets"][nm]["axes"])]) for nm, G in D.items()}, f"source {p}", np)
        for a in c["tax"]:
            pos[a] += c["lens"][a][p]
    t = [nm for nm in listing(x) if set(c["dsets"][nm]["axes"]) & set(c["tax"]) and D2[nm].size]
    return Info(bool(t) and len(ps) > 1, ["%d pieces" % len(ps), "dist" if dist else "common", str(c["filter"])])


def run_files(c, ctx):
    import h5py
    import numpy as np

    from caput import memdata as md
    from caput.containers import tod

    warnings.simplefilter("ignore")
    Gen, Reader = classes(c)
    A, D = gdata(c, np)
    ps = pieces(c, Gen, A, D, np)
    ff = md.fileformats.HDF5 if c["fmt"] == "h5" else md.fileformats.Zarr
    root = os.path.join(ctx.scratch, f"t{ctx.n}")
    os.mkdir(root)
    fs = [os.path.join(root, f"p{i:03d}.{c['fmt']}") for i in range(len(ps))]
    for f, p in zip(fs, ps):
        p.save(f, file_format=ff)
    arg, names = names_of(c)
    start, stop = c["start"], c["stop"]
    how = c["how"]
    pat = os.path.join(root, f"p*.{c['fmt']}")
    og = None
    if c["out"] == "mem":
        og = md.MemGroup()
    elif c["out"] == "h5":
        og = h5py.File(os.path.join(root, "out.h5"), "w")
    label = how
    if how in ("reader", "reader_glob"):
        r = Reader(pat if how == "reader_glob" else list(fs))
        check(tuple(r.files) == tuple(fs), "the reader has files %s", r.files)
        tm = A["time"]["ctime"] if A["time"].dtype.names else A["time"]
        if c["align"] and len(tm) > 1:
            tm = tm + c["align"]
        elif c["align"]:
            tm = np.asarray(r.time)     # no spacing
        same_array(np.asarray(r.time), tm, "the reader's times")
        timed = sorted(nm for nm, d in c["dsets"].items() if set(d["axes"]) & set(c["tax"]))
        check(sorted(r.datasets) == timed, "the reader has datasets %s, expected %s", r.datasets, timed)
        check(tuple(r.time_sel) == (0, len(tm)), "the reader selects %s of %d", r.time_sel, len(tm))
        start, stop = 0, len(tm)
        if c["pre"]:
            # an earlier selection is replaced, or kept where nothing new is given
            r.time_sel = (min(1, len(tm)), max(len(tm) - 1, 0))
            if c["pre"] == 2:
                r.dataset_sel = []
            check(tuple(r.time_sel) == (min(1, len(tm)), max(len(tm) - 1, 0)), "the selection set is %s", r.time_sel)
            start, stop = r.time_sel
        if c["sel"] == "range":
            r.select_time_range(*c["win"])
            lo, hi = c["win"]
            ok = np.ones(len(tm), bool)
            ok &= tm >= lo if lo is not None else np.arange(len(tm)) >= start
            ok &= tm < hi if hi is not None else np.arange(len(tm)) < stop
            ix = np.where(ok)[0]
            start, stop = (int(ix[0]), int(ix[-1]) + 1) if len(ix) else (0, 0)
        elif c["sel"] == "sel":
            a, b = sorted(x or 0 for x in c["win"])
            start, stop = max(a, 0), max(b, 0)
            r.time_sel = (start, stop)
        if arg is None and c["pre"] == 2:
            arg = timed
        if arg is not None:
            r.dataset_sel = arg
            check(sorted(r.dataset_sel) == sorted(arg), "the datasets selected are %s", r.dataset_sel)
            try:
                r.dataset_sel = ["nosuch"]
            except ValueError:
                pass
            else:
                check(False, "a dataset that does not exist can be selected")
        x = r.read(og) if og is not None else r.read()
        label += " " + c["sel"]
        c = dict(c, filter=None, text=False)
    else:
        kw = {"start": copy.deepcopy(start), "stop": copy.deepcopy(stop), "datasets": arg}
        if c["fmt"] == "zarr" and how != "mult_mem":
            c = dict(c, filter=None)    # the filters would have to know how zarr stores the names of axes
        fl = filters(c, D, np)
        if fl is not None:
            kw["dataset_filter"] = fl
        if how == "mult_mem":
            kw["ondisk"] = False
        src = {"glob": pat, "objects": [Gen.from_file(f, ondisk=True, mode="r") for f in fs]}.get(how, list(fs))
        if how == "objects":
            kw["out_group"] = og
            x = tod.concatenate(src, **kw)
        else:
            kw["data_group"] = og
            x = Gen.from_mult_files(src, **kw)
        check(kw["start"] == start and kw["stop"] == stop, "the arguments were changed to %s, %s", kw["start"], kw["stop"])
    check(type(x) is Gen, "the result is a %s", type(x).__name__)
    A2, D2 = expected(c, A, D, start, stop, np)
    if c["filter"] == "cast":
        for nm in D2:
            if D2[nm].dtype.kind in "fc" and set(c["dsets"][nm]["axes"]) & set(c["tax"]):
                D2[nm] = D2[nm].astype("<c8")
    if c["out"] == "h5":
        # in a file, so look at it as a container loaded from there
        og.flush()
        og.close()
        x = Gen.from_file(os.path.join(root, "out.h5"))
    c2, D2 = turned(c, D2, np)
    contains(x, c2, A2, D2, "result", np, names)
    for i, f in enumerate(fs):
        y = Gen.from_file(f)
        same_array(np.asarray(y.index_map["time"]), np.asarray(ps[i].index_map["time"]), f"file {i} afterwards")
    shutil.rmtree(root)
    t = [nm for nm in listing(x) if set(c["dsets"][nm]["axes"]) & set(c["tax"]) and D2[nm].size]
    return Info(bool(t) and len(ps) > 1, [label, c["fmt"], "out " + str(c["out"])])


PARTS = [
    Part("concat", mem_cases, run_mem, quick=130, shards=2, ranks=[1, 2], rule="several pieces and a time-ordered dataset with content in the range"),
    Part("files", file_cases, run_files, quick=250, shards=3, rule="several files and a time-ordered dataset with content in the range"),
]
