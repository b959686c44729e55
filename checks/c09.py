"""C09: deep copies are independent, shallow copies and views share data."""

import copy
import os
import tempfile
import warnings

from hypothesis import strategies as st

from checks import trees as T
from vf.core import Info, Part, check, same_array

PROPERTY = "C09"
EXTS = {}
ASSUMPTIONS = ["the attributes of datasets shared between copies may be shared or not"]

HOW = ["from_group", "dgc", "dgc", "mdg", "deepcopy", "mdg_shallow", "shallow", "shared", "mdg_shared", "select", "select", "select_load", "select_save"]


@st.composite
def mutation(draw):
    k = draw(st.sampled_from(["write", "write", "write", "data", "attr", "inplace", "inplace", "delattr", "del", "create", "replace", "group"]))
    return {"k": k, "side": draw(st.integers(0, 1)), "i": draw(st.integers(0, 30)), "seed": draw(st.integers(0, 1000)),
            "key": draw(st.sampled_from(["u", "v", "w"]))}


@st.composite
def index1(draw, n):
    k = draw(st.sampled_from(["slice", "slice", "list", "bool", "int", "all"]))
    if k == "all" or n == 0:
        return ["slice", None, None, None]
    if k == "slice":
        return ["slice", draw(st.one_of(st.none(), st.integers(-n - 1, n + 1))), draw(st.one_of(st.none(), st.integers(-n - 1, n + 1))),
                draw(st.sampled_from([None, None, 1, 2, 3]))]
    if k == "list":
        return ["list", draw(st.lists(st.integers(0, n - 1), max_size=4))]
    if k == "bool":
        return ["bool", draw(st.lists(st.booleans(), min_size=n, max_size=n))]
    return ["int", draw(st.integers(0, n - 1))]


@st.composite
def cases(draw):
    how = draw(st.sampled_from(HOW))
    file = how in ("select_load", "select_save")
    t = draw(T.trees(zarr=file, strings=not file, maxn=6))
    ds = [(p, d) for p, d, _ in t["ents"] if d is not None]
    c = {"tree": t, "how": how, "muts": draw(st.lists(mutation(), min_size=1, max_size=8)), "slash": draw(st.booleans())}
    if how in ("shared", "mdg_shared"):
        c["shared"] = draw(st.lists(st.sampled_from([p for p, _ in ds]), unique=True)) if ds else []
    if file:
        c["fmt"] = draw(st.sampled_from(["h5", "zarr"]))
    if how.startswith("select"):
        c["sel"] = {}
        for p, d in ds:
            if d["shape"] and draw(st.integers(0, 2)):
                nd = draw(st.integers(1, len(d["shape"])))
                ix = [draw(index1(d["shape"][a])) for a in range(nd)]
                # only one fancy axis, as numpy and h5py combine several differently
                if sum(x[0] in ("list", "bool", "int") for x in ix) > 1:
                    ix = ix[:1]
                if file:
                    # what both formats can read: increasing lists, and slices only for zarr
                    ix = [["list", sorted(set(x[1]))] if x[0] == "list" else x for x in ix]
                    if c["fmt"] == "zarr" and how == "select_load":
                        ix = [x if x[0] in ("slice", "int") else ["slice", None, 2, None] for x in ix]
                c["sel"][p] = ix
    return c


def index(ix, np):
    out = []
    for x in ix:
        if x[0] == "slice":
            out.append(slice(*x[1:]))
        elif x[0] == "list":
            out.append(np.array(x[1], dtype=int) if len(x[1]) % 2 else list(x[1]))
        elif x[0] == "bool":
            out.append(np.array(x[1], dtype=bool))
        else:
            out.append(x[1])
    return out[0] if len(out) == 1 else tuple(out)


def do_copy(c, g, np):
    """Returns the copy and the set of shared paths."""
    from caput import memdata as md

    how = c["how"]
    sl = "/" if c["slash"] else ""
    if how == "from_group":
        return md.MemGroup.from_group(g), set()
    if how == "dgc":
        n = md.MemGroup()
        md.deep_group_copy(g, n)
        return n, set()
    if how == "mdg":
        return md.MemDiskGroup(g).copy()._data, set()
    if how == "deepcopy":
        return copy.deepcopy(md.MemDiskGroup(g))._data, set()
    alld = {"/" + p for p, d, _ in c["tree"]["ents"] if d is not None}
    if how == "mdg_shallow":
        return md.MemDiskGroup(g).copy(shallow=True)._data, alld
    if how == "shallow":
        n = md.MemGroup()
        md.deep_group_copy(g, n, shallow=True)
        return n, alld
    if how in ("shared", "mdg_shared"):
        sh = [sl + p for p in c["shared"]]
        keep = list(sh)
        if how == "shared":
            n = md.MemGroup()
            md.deep_group_copy(g, n, shared=sh)
        else:
            n = md.MemDiskGroup(g).copy(shared=sh)._data
        check(sh == keep, "the list of names was changed")
        return n, {"/" + p for p in c["shared"]}
    if how != "select":
        sel = {sl + p: index(ix, np) for p, ix in c["sel"].items()}
        ff = md.fileformats.HDF5 if c["fmt"] == "h5" else md.fileformats.Zarr
        with tempfile.TemporaryDirectory(dir=os.getcwd()) as tmp:
            fn = os.path.join(tmp, "f." + c["fmt"])
            if how == "select_load":
                g.to_file(fn)
                return md.MemGroup.from_file(fn, selections=sel), set()
            with ff.open(fn, mode="w") as f:
                md.deep_group_copy(g, f, selections=sel, file_format=ff)
            return md.MemGroup.from_file(fn), set()
    n = md.MemGroup()
    sel = {sl + p: index(ix, np) for p, ix in c["sel"].items()}
    keep = dict(sel)
    md.deep_group_copy(g, n, selections=sel)
    check(sel.keys() == keep.keys() and all(sel[k] is keep[k] for k in sel), "the selections were changed")
    return n, set()


def mutate_value(v, seed, np):
    """Change a mutable attribute value in place; returns whether it could."""
    if isinstance(v, list):
        v.append(seed)
    elif isinstance(v, dict):
        inner = [x for x in v.values() if isinstance(x, (list, dict))]
        if inner and seed % 2:
            return mutate_value(inner[0], seed, np)
        v["new%d" % (seed % 3)] = seed
    elif isinstance(v, np.ndarray) and v.size and v.dtype.kind in "if":
        v.flat[0] = seed
    else:
        return False
    return True


def compare(real, models, loose, where):
    for s in (0, 1):
        got = T.walk(real[s])
        want = models[s]
        check(set(got) == set(want), "%s: side %d has %s, expected %s", where, s, sorted(got), sorted(want))
        for p in want:
            if want[p][0] is not None:
                same_array(T.native(got[p][0], None), T.native(want[p][0], None), f"{where}: side {s} {p}")
            if p not in loose:
                T.compare({p: [None, got[p][1]]}, {p: [None, want[p][1]]}, f"{where}: side {s}", exact_attrs=True)


def run(c, ctx):
    import numpy as np

    from caput import memdata as md

    warnings.simplefilter("ignore")
    t = c["tree"]
    g = md.MemGroup()
    T.make(t, g)
    src = T.walk(g)
    new, shared = do_copy(c, g, np)
    check(new is not g, "the copy is the same object")
    T.compare(T.walk(g), src, "the source after copying", exact_attrs=True)
    left = {p: [None if a is None else a.copy(), dict(at)] for p, (a, at) in T.model(t).items()}
    left = {p: [left[p][0], copy.deepcopy(src[p][1])] for p in left}
    right = {p: [None if a is None else a.copy(), copy.deepcopy(at)] for p, (a, at) in left.items()}
    for p, ix in c.get("sel", {}).items():
        a = right["/" + p][0]
        right["/" + p][0] = np.array(a[index(ix, np)], dtype=a.dtype)
    for p in shared:
        right[p][0] = left[p][0]
    # attributes of the copy hold the same values
    got = T.walk(new)
    T.compare(got, {p: [v[0], v[1]] for p, v in right.items()}, "the copy")
    for p in right:
        right[p][1] = copy.deepcopy(got[p][1])
    loose = set(shared)
    sides, models = [g, new], [left, right]
    effective = 0
    for m in c["muts"]:
        s, k = m["side"], m["k"]
        r, mo = sides[s], models[s]
        ds = sorted(p for p, v in mo.items() if v[0] is not None)
        every = sorted(mo)
        where = f"after {c['how']} and {m}"
        if k in ("write", "data"):
            if not ds:
                continue
            p = ds[m["i"] % len(ds)]
            a = mo[p][0]
            v = value(a, m["seed"], np)
            if k == "write":
                r[p][...] = v
            else:
                r[p].data[...] = v
            a[...] = v
            effective += a.size > 0
        elif k == "attr":
            p = every[m["i"] % len(every)]
            r[p].attrs[m["key"]] = m["seed"]
            mo[p][1][m["key"]] = m["seed"]
            effective += 1
        elif k == "delattr":
            p = every[m["i"] % len(every)]
            if m["key"] in mo[p][1] and p not in loose:
                del r[p].attrs[m["key"]]
                del mo[p][1][m["key"]]
                effective += 1
        elif k == "inplace":
            cand = sorted((p, a) for p in mo if p not in loose for a in mo[p][1])
            cand = [x for x in cand if isinstance(mo[x[0]][1][x[1]], (list, dict, np.ndarray))]
            if not cand:
                continue
            p, a = cand[m["i"] % len(cand)]
            v = r[p].attrs[a]
            if mutate_value(v, m["seed"], np):
                mutate_value(mo[p][1][a], m["seed"], np)
                effective += 1
        elif k == "del":
            cand = [p for p in every if p != "/"]
            if not cand:
                continue
            p = cand[m["i"] % len(cand)]
            del r[p]
            for q in every:
                if q == p or q.startswith(p + "/"):
                    del mo[q]
            effective += 1
        elif k in ("create", "replace", "group"):
            p = "/fresh%d" % (m["i"] % 3)
            if k == "replace":
                if not ds:
                    continue
                p = ds[m["i"] % len(ds)]
            if k == "group":
                p = "/grp%d" % (m["i"] % 3)
                r.require_group(p)
                mo.setdefault(p, [None, {}])
            else:
                a = np.arange(m["seed"] % 5 + 1) * 1.5
                r.create_dataset(p, data=a.copy())
                mo[p] = [a, {}]
            effective += 1
        compare(sides, models, loose, where)
    nd = sum(1 for _, d, _ in t["ents"] if d is not None)
    return Info(effective > 0 and nd > 0, [c["how"]] + [m["k"] for m in c["muts"]])


def value(a, seed, np):
    """Something to write into the array a."""
    if a.dtype.names or a.dtype.kind in "SU":
        v = np.zeros(a.shape, a.dtype)
        if not a.dtype.names:
            v[...] = str(seed % 100)
        return v
    if a.dtype.kind == "b":
        return np.full(a.shape, seed % 2 == 0)
    return np.full(a.shape, seed % 100).astype(a.dtype)


# -- single datasets ---------------------------------------------------------


@st.composite
def dcases(draw):
    d = draw(T.dataset(strings=True))
    d["obj"] = draw(st.sampled_from([0, 0, 0, 1, 2]))
    return {"d": d, "attrs": draw(T.attrs(False)), "how": draw(st.sampled_from(["copy", "copy", "deepcopy", "view", "shallow", "order"])),
            "order": draw(st.sampled_from("CFAK")), "muts": draw(st.lists(mutation(), min_size=1, max_size=6)), "alone": draw(st.booleans())}


def run_dset(c, ctx):
    import numpy as np

    from caput import memdata as md

    d = c["d"]
    a = T.content(d["shape"], d["dtype"], d["seed"])
    if d["F"] and a.ndim:
        a = np.asfortranarray(a)
    if d["obj"] and a.ndim == 1:
        n = len(a)
        if d["obj"] == 1:
            a = np.empty(n, dtype=object)
            for i in range(n):
                a[i] = [i, d["seed"]]
        else:
            a = np.empty(n, dtype=[("o", object), ("x", "<f8"), ("o2", object)])
            for i in range(n):
                a[i] = ([i, d["seed"]], i, {"k": [i]})
    isobj = a.dtype.hasobject
    g = md.MemGroup()
    ds = md.MemDatasetCommon.from_numpy_array(a) if c["alone"] else g.create_dataset("x", data=a)
    if d.get("chunks"):
        ds.chunks = tuple(d["chunks"])
    for k, v in c["attrs"]:
        ds.attrs[k] = T.build_attr(v)
    how = c["how"]
    cp = {"copy": lambda: ds.copy(), "deepcopy": lambda: copy.deepcopy(ds), "view": lambda: ds.view(), "shallow": lambda: ds.copy(shallow=True),
          "order": lambda: ds.copy(order=c["order"])}[how]()
    share = how in ("view", "shallow")
    check(type(cp) is type(ds), "the copy is a %s", type(cp))
    check(cp.chunks == ds.chunks and cp.compression == ds.compression and cp.compression_opts == ds.compression_opts, "storage options changed")
    left = copy.deepcopy(np.array(ds[...]))
    check(np.array_equal(left, a) or left.dtype.kind in "fc" or a.dtype.names, "content of the dataset")
    sides = [ds, cp]
    models = [left, left if share else copy.deepcopy(left)]
    at = copy.deepcopy(dict(ds.attrs))
    amod = [at, at if share else copy.deepcopy(at)]
    for m in [None, *c["muts"]]:
        if m is not None:
            s, k = m["side"], m["k"]
            if k in ("write", "data") and not isobj:
                v = value(models[s], m["seed"], np)
                if k == "write":
                    sides[s][...] = v
                else:
                    sides[s].data[...] = v
                models[s][...] = v
            elif k in ("write", "data") and models[s].size:
                f = (lambda x: x["o"]) if models[s].dtype.names else (lambda x: x)
                i = m["i"] % len(models[s])
                f(sides[s][...])[i].append(m["seed"])
                f(models[s])[i].append(m["seed"])
                if models[s].dtype.names:
                    sides[s][...]["o2"][i]["k"].append(m["seed"])
                    models[s]["o2"][i]["k"].append(m["seed"])
            elif k == "attr":
                sides[s].attrs[m["key"]] = m["seed"]
                amod[s][m["key"]] = m["seed"]
            elif k == "inplace" and m["key"] in amod[s]:
                if mutate_value(sides[s].attrs[m["key"]], m["seed"], np):
                    mutate_value(amod[s][m["key"]], m["seed"], np)
        for s in (0, 1):
            got = np.array(sides[s][...])
            if isobj:
                check(got.tolist() == models[s].tolist(), "%s then %s: side %d is %s, expected %s", how, m, s, got, models[s])
            else:
                same_array(got, models[s], f"{how} then {m}: side {s}")
            check(T.same_exact(dict(sides[s].attrs), amod[s]), "%s then %s: side %d has attributes %s, expected %s", how, m, s, dict(sides[s].attrs), amod[s])
    return Info(a.size > 0, [how, "object" if isobj else "plain"])


PARTS = [
    Part("trees", cases, run, quick=250, shards=5,
         rule="a generated tree copied in one of the ways, then up to 8 changes on either side; non-trivial: a dataset exists and a change took effect"),
    Part("datasets", dcases, run_dset, quick=400, shards=2, rule="a dataset copied or viewed, then changes on either side; non-trivial: not empty"),
]
