"""C15: containers reload as the same class with the same content and history."""

import copy
import os
import shutil
import sys
import warnings

from hypothesis import strategies as st

from checks import conts as K
from checks import mpihelp as H
from checks import trees as T
from vf.core import Info, Part, check, same_array

PROPERTY = "C15"
EXTS = {}
ASSUMPTIONS = ["axes and datasets of text are converted from and to text on loading and saving",
               "history entries are what JSON can hold"]
NAMES = K.AXES + ["rows", "tab_index", "src_index"]

text = st.text(st.characters(blacklist_categories=("Cs",), blacklist_characters="\0"), max_size=5)
scalar = st.one_of(st.integers(-9, 9), st.booleans(), st.none(), text, st.floats(-1e3, 1e3))
json_ = st.recursive(scalar, lambda x: st.one_of(st.lists(x, max_size=3), st.dictionaries(text, x, max_size=3)), max_leaves=6)
hname = st.one_of(st.sampled_from(["task", "Load", "acq.hdf5", "a'b", 'c"d', "α", "t/1", "order"]), text.filter(bool))


@st.composite
def op(draw):
    k = draw(st.sampled_from(["hist", "hist", "hist", "redist", "redist", "reload", "reload", "reload", "copy", "attr", "imap", "rmap", "delmap", "add", "write", "ro"]))
    o = {"k": k, "i": draw(st.integers(0, 20))}
    if k == "hist":
        o.update(name=draw(hname), val=draw(st.one_of(st.none(), st.dictionaries(text, json_, max_size=3))))
    elif k == "redist":
        one = st.one_of(st.sampled_from([*K.AXES, "nosuch", "rows"]), st.sampled_from(K.AXES), st.integers(-4, 3))
        o["axis"] = draw(st.one_of(one, one, st.lists(one, min_size=1, max_size=3)))
        o["tuple"] = draw(st.booleans())
    elif k == "reload":
        o.update(fmt=draw(st.sampled_from(["h5", "zarr"])), dist=draw(st.sampled_from([True, True, None, False])),
                 via=draw(st.sampled_from(["cls", "cls", "proto", "cont", "mdg", "mdg_nodetect", "group", "gone"])),
                 append=draw(st.integers(0, 5)) == 0)
    elif k == "attr":
        o.update(key=draw(st.sampled_from(["x", "note"])), val=draw(T.attr_value(1)), where=draw(st.sampled_from(["root", "dset", "axis"])))
    elif k in ("imap", "rmap"):
        o.update(name=draw(st.sampled_from(["m0", "m1"])), val=draw(K.axis_value()))
    return o


@st.composite
def cases(draw):
    h = draw(K.hierarchy(maxcls=3, tables=True, ints=False, sameaxes=True))
    axes = {a: draw(K.axis_value()) for a in NAMES}
    return {"h": h, "axes": axes, "dist": draw(st.sampled_from([True, True, True, False])),
            "plain": draw(st.integers(0, 4)) == 0,
            "add": draw(st.one_of(st.just(K.NAMES + K.TABLES), st.just([]))),
            "seed": draw(st.integers(0, 50)), "ops": draw(st.lists(op(), min_size=2, max_size=9))}


def plain(a):
    return T.plain({k: v for k, v in a.items() if k != "axis" and not k.startswith("__memh5")})


def verify(x, M, w, np):
    check(type(x) is M["cls"], "%s: is a %s, expected %s", w, type(x).__name__, M["cls"].__name__)
    im, rm = x.index_map, x.reverse_map
    check(sorted(im) == sorted(M["axes"]), "%s: axes %s, expected %s", w, sorted(im), sorted(M["axes"]))
    for a, v in M["axes"].items():
        same_array(np.asarray(im[a]), v, f"{w}: axis {a}")
        check(T.same_plain(plain(x.index_attrs[a]), T.plain(M["aattrs"].get(a, {}))), "%s: axis %s has attributes %s, expected %s", w, a, x.index_attrs[a], M["aattrs"].get(a, {}))
    check(sorted(rm) == sorted(M["rmap"]), "%s: reverse maps %s, expected %s", w, sorted(rm), sorted(M["rmap"]))
    for a, v in M["rmap"].items():
        same_array(np.asarray(rm[a]), v, f"{w}: reverse map {a}")
    check(sorted(x) == sorted(M["dsets"]), "%s: datasets %s, expected %s", w, sorted(x), sorted(M["dsets"]))
    for nm, d in M["dsets"].items():
        y = x[nm]
        dd = bool(getattr(y, "distributed", False))
        check(dd == (d["da"] is not None), "%s: %s distributed is %s, expected %s", w, nm, dd, d["da"] is not None)
        if dd:
            check(y.distributed_axis == d["da"], "%s: %s is distributed over axis %s, expected %s", w, nm, y.distributed_axis, d["da"])
        same_array(K.whole(y, np), d["G"], f"{w}: {nm}")
        ax = y.attrs.get("axis")
        check((None if ax is None else [str(s) for s in ax]) == d["axes"], "%s: %s has axes %s, expected %s", w, nm, ax, d["axes"])
        check(T.same_plain(plain(y.attrs), T.plain(d["attrs"])), "%s: %s has attributes %s, expected %s", w, nm, y.attrs, d["attrs"])
    check(T.same_plain(plain(x.attrs), T.plain(M["attrs"])), "%s: attributes %s, expected %s", w, x.attrs, M["attrs"])
    hs = x.history
    check(hs["order"] == M["order"], "%s: order of history %s, expected %s", w, hs["order"], M["order"])
    have = {k: v for k, v in hs.items() if k != "order"}
    check(T.same_plain(T.plain(have), T.plain(M["hist"])), "%s: history %s, expected %s", w, have, M["hist"])


def run(c, ctx):
    import h5py
    import numpy as np
    import zarr

    from caput import memdata as md
    from caput.containers import Container, ContainerPrototype

    warnings.simplefilter("ignore")
    h = c["h"]
    classes = K.build(h, np)
    dist = c["dist"]
    axes, spec = K.resolve(h, classes, len(h) - 1)
    A, kw = {}, {}
    for a in sorted(axes):
        kw[a], A[a] = K.axis_array(c["axes"][a], np)
    M = {"axes": A, "aattrs": {}, "rmap": {}, "dsets": {}, "attrs": {}, "order": [], "hist": {}}
    if c["plain"]:
        cls = Container
        x = Container(distributed=dist)
        for a in A:
            x.create_index_map(a, np.array(A[a]))
    else:
        cls = classes[-1]
        x = cls(distributed=dist, **kw)
    M["cls"] = cls

    def add(nm, j):
        L = K.want_layout(spec, A, nm, dist, True, np)
        if c["plain"]:
            x.create_dataset(nm, shape=L[0], dtype=L[1], distributed=L[2] is not None, distributed_axis=L[2])
            if j % 2:
                x[nm].attrs["axis"] = np.array(spec[nm]["axes"])
        elif nm not in x:
            x.add_dataset(nm)
        G = K.content(L[0], L[1], c["seed"] + 17 * j, np)
        K.fill(x[nm], G, np)
        M["dsets"][nm] = {"G": G, "axes": None if c["plain"] and not j % 2 else [str(s) for s in spec[nm]["axes"]], "attrs": {}, "da": L[2]}

    for j, nm in enumerate(sorted(spec)):
        if nm in x or nm in c["add"]:
            add(nm, j)
    verify(x, M, "new", np)
    labels = []
    reloads = redists = 0
    for i, o in enumerate(c["ops"]):
        k = o["k"]
        w = f"step {i} {k}"
        labels.append(k)
        if k == "hist":
            val = copy.deepcopy(o["val"])
            try:
                x.add_history(o["name"], val) if val is not None or i % 2 else x.add_history(o["name"])
            except ValueError:
                check(o["name"] == "order", "%s: the name %r was refused", w, o["name"])
            else:
                check(o["name"] != "order", "%s: an entry called order was accepted", w)
                M["order"].append(o["name"])
                M["hist"][o["name"]] = copy.deepcopy(o["val"]) or {}
            check(val == o["val"], "%s: the entry passed was changed", w)
        elif k == "redist":
            ax = o["axis"]
            tries = ax if isinstance(ax, list) else [ax]
            arg = tuple(ax) if isinstance(ax, list) and o["tuple"] else copy.copy(ax)
            x.redistribute(arg)
            for d in M["dsets"].values():
                if d["da"] is None:
                    continue
                nd = d["G"].ndim
                for t in tries:
                    if isinstance(t, str):
                        if d["axes"] is None or t not in d["axes"]:
                            continue
                        t = d["axes"].index(t)
                    elif t < 0:
                        t += nd
                    if not 0 <= t < nd:
                        continue
                    redists += t != d["da"]
                    d["da"] = t
                    break
        elif k == "reload":
            f = os.path.join(ctx.scratch, f"f{ctx.n}_{i}.{o['fmt']}")
            ff = md.fileformats.HDF5 if o["fmt"] == "h5" else md.fileformats.Zarr
            args = {}
            if c["plain"]:
                args["convert_dataset_strings"] = True
            if dist or ctx.rank == 0:
                x.save(f, file_format=ff, **args)
            ctx.comm.Barrier()
            lc = {"cls": cls, "proto": ContainerPrototype, "cont": Container}.get(o["via"], md.MemDiskGroup)
            args = {"convert_dataset_strings": True} if not issubclass(lc, ContainerPrototype) else {}
            if o["dist"] is not None:
                args["distributed"] = o["dist"]
            want = cls
            if o["via"] == "mdg_nodetect":
                y = md.MemDiskGroup.from_file(f, detect_subclass=False, **args)
                check(type(y) is md.MemDiskGroup, "%s: loaded as a %s without detection", w, type(y).__name__)
                y = md.MemDiskGroup.from_group(y._data)
            elif o["via"] == "gone" and not c["plain"]:
                # the class cannot be found: loaded as what was asked for, and warned about
                mod = sys.modules[K.MODULE]
                delattr(mod, cls.__name__)
                with warnings.catch_warnings(record=True) as ws:
                    warnings.simplefilter("always")
                    y = Container.from_file(f, **args)
                setattr(mod, cls.__name__, cls)
                check(type(y) is Container, "%s: loaded as a %s", w, type(y).__name__)
                check(any(cls.__name__ in str(v.message) for v in ws), "%s: no warning", w)
                y = md.MemDiskGroup.from_group(y._data)
            elif o["via"] == "group":
                g = md.MemGroup.from_file(f, distributed=bool(o["dist"]), convert_dataset_strings=True, file_format=ff)
                y = md.MemDiskGroup.from_group(g)
            else:
                y = lc.from_file(f, **args)
            ctx.comm.Barrier()
            if ctx.rank == 0:
                shutil.rmtree(f) if os.path.isdir(f) else os.remove(f)
            verify(x, M, w + ": the source", np)
            x = y
            was, dist = dist, bool(o["dist"])
            if dist and not was:
                # how the datasets were distributed before is remembered in the file or not
                for nm, d in M["dsets"].items():
                    d["da"] = x[nm].distributed_axis if x[nm].distributed else None
            if not dist:
                for d in M["dsets"].values():
                    d["da"] = None
            reloads += 1
            check(bool(x.distributed) == dist, "%s: distributed is %s", w, x.distributed)
        elif k == "copy":
            y = x.copy()
            verify(x, M, w + ": the source", np)
            x = y
        elif k == "attr":
            v = T.build_attr(o["val"])
            if o["where"] == "root" or not M["dsets"] or not M["axes"]:
                x.attrs[o["key"]] = v
                M["attrs"][o["key"]] = T.build_attr(o["val"])
            elif o["where"] == "dset":
                nm = sorted(M["dsets"])[o["i"] % len(M["dsets"])]
                x[nm].attrs[o["key"]] = v
                M["dsets"][nm]["attrs"][o["key"]] = T.build_attr(o["val"])
            else:
                a = sorted(M["axes"])[o["i"] % len(M["axes"])]
                x.index_attrs[a][o["key"]] = v
                M["aattrs"].setdefault(a, {})[o["key"]] = T.build_attr(o["val"])
        elif k == "imap":
            v = K.axis_array(o["val"], np)[1]
            if o["name"] not in M["axes"]:
                x.create_index_map(o["name"], v)
                M["axes"][o["name"]] = v.copy()
        elif k == "rmap":
            v = K.axis_array(o["val"], np)[1]
            if o["name"] not in M["rmap"]:
                x.create_reverse_map(o["name"], v)
                M["rmap"][o["name"]] = v.copy()
        elif k == "delmap":
            for n in ("m0", "m1"):
                if n in M["axes"] and o["i"] % 2:
                    x.del_index_map(n)
                    del M["axes"][n]
                    M["aattrs"].pop(n, None)
                if n in M["rmap"] and o["i"] % 3:
                    x.del_reverse_map(n)
                    del M["rmap"][n]
        elif k == "add" and not c["plain"]:
            left = [nm for nm in sorted(spec) if nm not in M["dsets"]]
            if left:
                add(left[o["i"] % len(left)], i)
        elif k == "write" and M["dsets"]:
            nm = sorted(M["dsets"])[o["i"] % len(M["dsets"])]
            d = M["dsets"][nm]
            d["G"] = K.content(d["G"].shape, d["G"].dtype, 500 + i, np)
            K.fill(x[nm], d["G"], np)
        elif k == "ro":
            for m in (x.history, x.index_map, x.index_attrs, x.reverse_map):
                for what in ("set", "del"):
                    try:
                        if what == "set":
                            m["new"] = np.arange(3)
                        else:
                            del m[next(iter(m), "new")]
                    except (TypeError, AttributeError):
                        continue
                    check(False, "%s: the mapping returned can be changed", w)
            x.history["order"].append("spurious")
        verify(x, M, w, np)
    return Info(bool(reloads or redists) and bool(M["dsets"] or M["order"]), sorted(set(labels)))


PARTS = [
    Part("history", cases, run, quick=110, shards=2, ranks=[1, 2, 3], rule="reloaded or redistributed, with data or history"),
]
