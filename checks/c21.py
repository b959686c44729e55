"""C21: loading and saving tasks deliver the right files with the right content."""

import os

from hypothesis import strategies as st

from vf.core import Info, Part, check

from . import trees as T

PROPERTY = "C21"
EXTS = {"invert": "fast", "weighted": "fast", "truncate": "full"}
ASSUMPTIONS = [
    "a name with *, ? or [ in the configuration is a pattern; the matches of a pattern come in sorted order",
    "7z, which is not installed here, is replaced by a stand-in which zips the same directory under the same name",
]

# ---------------------------------------------------------------- files, patterns and groups

FILES = ["f1.h5", "f2.h5", "f3.h5", "f10.h5", "f[1].h5", "f[3].h5", "f?.h5", "n*.h5", "f 4.h5", "g1.h5", "g2.h5", ".hidden.h5", "[ab].h5", "a.h5", "f1.zarr.zip"]
ZARRS = ["z1.zarr", "z2.zarr", "z[1].zarr"]
DIRS = ["", "", "d0/", "d1/", "d[0]/"]
PATTERNS = ["*.h5", "f*.h5", "f?.h5", "f[1-3].h5", "f[13]*.h5", "*", "[fg]1.h5", "*.zarr", "z[12].zarr", "*[*]*.h5", "f[[]*.h5", "nothing*", "?.h5", "[!f]*.h5",
            ".*.h5", "f*", "*[0-9].h5", "*.zarr.zip"]
PDIRS = ["", "", "", "d0/", "d?/", "d*/", "*/", "d[01]/"]


@st.composite
def expansions(draw):
    files = draw(st.lists(st.tuples(st.sampled_from(DIRS), st.sampled_from(FILES)).map("".join), min_size=1, max_size=10, unique=True))
    zarrs = draw(st.lists(st.tuples(st.sampled_from(DIRS), st.sampled_from(ZARRS)).map("".join), max_size=3, unique=True))
    other = draw(st.lists(st.sampled_from(["f4.h5", "sub", "d0/g1.h5", "z2.zarr"]), max_size=1))
    if draw(st.integers(0, 5)) == 0:
        files.append(draw(st.sampled_from(["z3.zarr", "d0/z1.zarr"])))
        zarrs = [z for z in zarrs if z not in files]
    plain = [f for f in files + zarrs if not any(ch in f for ch in "*?[")]
    one = st.one_of(st.tuples(st.sampled_from(PDIRS), st.sampled_from(PATTERNS)).map("".join),
                    *([st.sampled_from(plain)] * 2 if plain else []), *([st.just("missing.h5")] if draw(st.integers(0, 6)) == 0 else []))
    nest = st.recursive(one, lambda x: st.lists(x, max_size=4), max_leaves=8)
    group = st.fixed_dictionaries({"files": st.lists(one, min_size=1, max_size=4)}, optional={"tag": st.sampled_from(["a", "b", "group_x"])})
    return {"files": files, "zarrs": zarrs, "other": other, "spec": draw(nest), "lists": draw(st.lists(nest, max_size=4)),
            "groups": draw(st.one_of(group, st.lists(group, min_size=1, max_size=3)))}


def ref_glob(pattern):
    """The existing paths which a pattern matches, sorted (written from the rules of shell patterns)."""
    import fnmatch

    def there(d):
        return os.listdir(d or ".") if os.path.isdir(d or ".") else []

    found = [""]
    parts = pattern.split("/")
    for i, p in enumerate(parts):
        nxt = []
        for base in found:
            for name in there(base):
                if fnmatch.fnmatchcase(name, p) and (p.startswith(".") or not name.startswith(".")):
                    full = os.path.join(base, name)
                    if i == len(parts) - 1 or os.path.isdir(full):
                        nxt.append(full)
        found = nxt
    return sorted(found)


class Missing(Exception):
    pass


def ref_expand(spec):
    if isinstance(spec, list):
        return [f for s in spec for f in ref_expand(s)]
    out = ref_glob(spec) if any(ch in spec for ch in "*?[") else [spec]
    for f in out:
        if not (os.path.isdir(f) if f.endswith(".zarr") else os.path.isfile(f)):
            raise Missing(f)
    return out


def attempt(f, *a):
    from caput import config

    try:
        return f(*a)
    except config.CaputConfigError:
        return Missing


def ref(f, *a):
    try:
        return f(*a)
    except Missing:
        return Missing


def run_expand(case, ctx):
    import copy
    import shutil

    from caput.pipeline.tasklib import io

    where = os.path.join(ctx.scratch, f"e{ctx.n}")
    shutil.rmtree(where, ignore_errors=True)
    os.makedirs(where)
    os.chdir(where)
    for d in ("d0", "d1", "d[0]"):
        os.makedirs(d)
    for z in case["zarrs"] + case["other"]:
        if not os.path.exists(z) and z not in case["files"]:
            os.makedirs(z)
    for f in case["files"]:
        open(f, "w").close()
    try:
        spec = copy.deepcopy(case["spec"])
        want = ref(ref_expand, spec)
        got = attempt(io.list_or_glob, spec)
        check(got == want, "a list of files and patterns expanded wrongly", spec=case["spec"], got=got, want=want)
        check(spec == case["spec"], "expanding changed the configuration", got=spec)
        got = attempt(lambda: io.FindFiles._from_config({"files": spec}).setup())
        check(got == want, "the task for finding files gave others", spec=case["spec"], got=got, want=want)
        lists = copy.deepcopy(case["lists"])
        lwant = ref(ref_expand, lists)
        got = attempt(io.list_of_filelists, lists)
        check(got == lwant, "a list of file lists expanded wrongly", spec=case["lists"], got=got, want=lwant)
        check(lists == case["lists"], "expanding changed the configuration", got=lists)
        groups = copy.deepcopy(case["groups"])
        gl = groups if isinstance(groups, list) else [groups]
        gwant = ref(lambda: [ref_expand(g["files"]) for g in gl])
        if gwant is not Missing and any(not g for g in gwant):
            gwant = Missing
        got = attempt(io.list_of_filegroups, groups)
        check((got is Missing) == (gwant is Missing), "file groups with and without missing files", spec=case["groups"], got=got, want=gwant)
        check(groups == case["groups"], "expanding changed the configuration", got=groups)
        if gwant is not Missing:
            check([g["files"] for g in got] == gwant, "a file group expanded wrongly", spec=case["groups"], got=got, want=gwant)
            tags = [g["tag"] for g in got]
            check(all(isinstance(t, str) and t.startswith("group_") if "tag" not in g else t == g["tag"] for t, g in zip(tags, gl)),
                  "tags of file groups", spec=case["groups"], got=tags)
            dflt = [t for t, g in zip(tags, gl) if "tag" not in g]
            check(len(set(dflt)) == len(dflt), "groups without a tag share one", got=tags)
    finally:
        os.chdir(ctx.scratch)
        shutil.rmtree(where, ignore_errors=True)
    n = 0 if want is Missing else len(want)
    return Info(n > 1 or (lwant is not Missing and len(lwant) > 1) or gwant is not Missing,
                [k for k, v in {"missing": want is Missing, "special names": any(ch in f for f in (want if n else []) for ch in "*?[ "),
                                "zarr": any(f.endswith(".zarr") for f in (want if n else [])), "groups": gwant is not Missing}.items() if v])


# ---------------------------------------------------------------- containers


def container_class():
    import sys
    import types

    from caput.containers import ContainerPrototype as Container

    if "vf_io_containers" in sys.modules:
        return sys.modules["vf_io_containers"].IOCont
    mod = types.ModuleType("vf_io_containers")

    class IOCont(Container):
        _axes = ("x", "y", "b_x")
        _dataset_spec = {
            "data": {"axes": ["x", "y"], "dtype": "f8", "initialise": True, "distributed": True, "distributed_axis": "x", "chunks": (2, 3)},
            "cube": {"axes": ["x", "b_x", "y"], "dtype": "c8", "initialise": True, "distributed": True, "distributed_axis": "x",
                     "chunks": (3, 2, 2), "compression": "gzip", "compression_opts": 4, "truncate": {"weight_dataset": "wcube"}},
            "wcube": {"axes": ["y", "x"], "dtype": "f4", "initialise": True, "distributed": True, "distributed_axis": "x"},
            "flat": {"axes": ["b_x"], "dtype": "f4", "initialise": True, "distributed": False, "truncate": True},
            "prec": {"axes": ["y"], "dtype": "f8", "initialise": True, "distributed": False, "truncate": 0.01},
            "num": {"axes": ["y"], "dtype": "i4", "initialise": True, "distributed": False},
            "opt": {"axes": ["y"], "dtype": "f4", "initialise": False, "distributed": False, "truncate": True},
        }

        @property
        def precision_weight(self):
            import numpy as np

            return np.abs(self.datasets["wcube"][:].view(np.ndarray)).T[:, None, :] + 1.0

    IOCont.__module__ = mod.__name__
    IOCont.__qualname__ = "IOCont"
    mod.IOCont = IOCont
    sys.modules[mod.__name__] = mod
    return IOCont


AXES = {"data": ["x", "y"], "cube": ["x", "b_x", "y"], "wcube": ["y", "x"], "flat": ["b_x"], "prec": ["y"], "num": ["y"]}
DISTS = ["data", "cube", "wcube"]


def content(seed, shape, bad=False):
    import numpy as np

    rng = np.random.default_rng(seed)
    n = dict(zip(("x", "y", "b_x"), shape))
    out = {}
    for nm, ax in AXES.items():
        sh = tuple(n[a] for a in ax)
        v = rng.standard_normal(sh) * 10.0 ** rng.integers(-3, 4, sh)
        if nm == "cube":
            v = (v + 1j * rng.standard_normal(sh) * 10.0 ** rng.integers(-3, 4, sh)).astype("c8")
        elif nm == "wcube":
            v = np.abs(v).astype("f4") * (rng.random(sh) > 0.2)
            v = v.astype("f4")
        elif nm == "flat":
            v = v.astype("f4")
        elif nm == "num":
            v = rng.integers(-9, 9, sh).astype("i4")
        out[nm] = v
    out["axis:x"] = rng.standard_normal(shape[0])
    out["axis:y"] = np.arange(shape[1]) * 2.5
    out["axis:b_x"] = np.arange(shape[2]) + seed % 7
    return out


def build(full, tag=None, attrs=None, dist=False, comm=None):
    cls = container_class()
    kw = {"distributed": dist}
    if comm is not None:
        kw["comm"] = comm
    c = cls(x=full["axis:x"], y=full["axis:y"], b_x=full["axis:b_x"], **kw)
    for nm in AXES:
        d = c.datasets[nm][:]
        if hasattr(d, "local_offset"):
            sl = tuple(slice(o, o + n) for o, n in zip(d.local_offset, d.local_shape))
            d.local_array[:] = full[nm][sl]
        else:
            d[:] = full[nm]
    for k, v in (attrs or {}).items():
        c.attrs[k] = v
    if tag is not None:
        c.attrs["tag"] = tag
    return c


def fmt(name):
    from caput.memdata import fileformats

    return fileformats.Zarr if name.endswith(".zarr") else fileformats.HDF5


def whole(c, comm=None):
    """The global content, on every rank."""
    import numpy as np

    out = {}
    for nm in c.datasets:
        d = c.datasets[nm][:]
        if hasattr(d, "local_offset"):
            parts = comm.allgather((tuple(d.local_offset), np.array(d.view(np.ndarray)))) if comm is not None else [(tuple(d.local_offset), np.array(d.view(np.ndarray)))]
            a = np.zeros(d.global_shape, d.dtype)
            for off, p in parts:
                a[tuple(slice(o, o + n) for o, n in zip(off, p.shape))] = p
            out[nm] = a
        else:
            out[nm] = np.array(d)
    for a in c.axes:
        out["axis:" + a] = np.array(c.index_map[a][:])
    return out


def take(full, sel):
    import numpy as np

    out = {}
    for nm, v in full.items():
        axes = [nm[5:]] if nm.startswith("axis:") else AXES[nm]
        for i, a in enumerate(axes):
            if a in sel:
                v = v[(slice(None),) * i + (sel[a],)]
        out[nm] = np.ascontiguousarray(v)
    return out


def differing(a, b):
    import numpy as np

    return sorted(set(a) ^ set(b)) + [k for k in a if k in b and not (a[k].shape == b[k].shape and a[k].dtype == b[k].dtype and np.array_equal(a[k], b[k]))]


@st.composite
def selection(draw, shape):
    sel = {}
    for a, n in zip(("x", "y", "b_x"), shape):
        kind = draw(st.sampled_from([None, None, "range", "index", "both"]))
        if kind in ("range", "both"):
            lo = draw(st.integers(-n, n - 1))
            hi = draw(st.integers(0, n + 2))
            sel[a + "_range"] = [lo, hi] if draw(st.booleans()) else [lo, hi, draw(st.integers(1, 3))]
        if kind in ("index", "both"):
            sel[a + "_index"] = sorted(draw(st.lists(st.integers(0, n - 1), unique=True, min_size=1, max_size=n)))
    return dict(draw(st.permutations(list(sel.items()))))


@st.composite
def loads(draw):
    shape = [draw(st.integers(1, 6)), draw(st.integers(1, 5)), draw(st.integers(1, 4))]
    n = draw(st.integers(1, 4))
    mode = draw(st.sampled_from(["params", "params", "glob", "setup", "pathtag", "attrs", "select", "selectkey"]))
    files = [{"seed": draw(st.integers(0, 10**6)), "fmt": draw(st.sampled_from(["h5", "h5", "zarr"])), "tag": draw(st.sampled_from([None, None, f"t{j}", "same", "", 0])),
              "lsd": draw(st.integers(0, 3))} for j in range(n)]
    return {"shape": shape, "files": files, "mode": mode, "sel": draw(selection(shape)), "order": list(draw(st.permutations(range(n)))),
            "repeat": draw(st.booleans()), "dist": draw(st.sampled_from([True, True, False, None])), "redist": draw(st.sampled_from([None, None, None, "x", "y", "b_x"])),
            "inputs": [draw(st.integers(0, 4)) for _ in range(draw(st.integers(0, 6)))], "ntags": draw(st.integers(1, 2)),
            "dot": draw(st.booleans()), "conv": draw(st.sampled_from([None, None, True, False])),
            "wrong": draw(st.sampled_from([None] * 9 + [{"x_range": [1]}, {"x_range": [0, 1, 1, 1]}, {"y_range": [0, 1.5]}, {"x_index": []}, {"x_index": [0.5]},
                                                       {"y_index": 1}, {"x_rnge": [0, 1]}, {"x": [0, 1]}, {"b_x_map": [0]}]))}


def run_load(case, ctx):
    import logging
    import shutil
    import warnings

    import numpy as np
    import yaml

    from caput.pipeline import Manager, local_tasks
    from caput.pipeline import Task as PTask
    from caput.pipeline import exceptions

    warnings.simplefilter("ignore")
    logging.getLogger("caput").setLevel(logging.ERROR)
    comm = ctx.comm
    cls = container_class()
    where = os.path.join(ctx.scratch, f"l{ctx.n}")
    mode, fl = case["mode"], case["files"]
    if mode == "attrs":
        fl = [dict(f, fmt="h5") for f in fl]
    if mode == "pathtag":
        # every combination of path and tag exists
        nt = case["ntags"]
        fl = [dict(f, fmt="h5" if (i // nt) % 2 == 0 else "zarr") for i, f in enumerate(fl[: max(len(fl) // nt, 1) * nt])]
        if len(fl) < nt:
            nt = len(fl)
    dot = ".d" if case["dot"] else ""
    names = [f"f{j}{dot}_{f['lsd']}.{f['fmt']}" for j, f in enumerate(fl)]
    if mode == "pathtag":
        names = [f"p{i // nt}_t{i % nt}.{f['fmt']}" for i, f in enumerate(fl)]
    if mode == "attrs":
        names = [f"m_{j:02d}.h5" for j in range(len(fl))]
    fulls = [content(f["seed"], case["shape"]) for f in fl]
    if comm.rank == 0:
        shutil.rmtree(where, ignore_errors=True)
        os.makedirs(where)
    comm.Barrier()
    os.chdir(where)
    for nm, f, full in zip(names, fl, fulls):
        build(full, f["tag"], {"lsd": f["lsd"], "note": "n", "words": np.array([b"ab", b"c"])}, True, comm).save(nm, file_format=fmt(nm))
    comm.Barrier()
    params = {}
    if case["dist"] is not None:
        params["distributed"] = case["dist"]
    if case["redist"] is not None and case["dist"] is not False:
        params["redistribute"] = case["redist"]
    if case["conv"] is not None:
        params["convert_strings"] = case["conv"]
    if case["sel"]:
        params["selections"] = dict(case["sel"])
    if case["wrong"]:
        params["selections"] = {**params.get("selections", {}), **case["wrong"]}
    order = list(case["order"]) if len(case["order"]) == len(fl) else list(range(len(fl)))
    if case["repeat"]:
        order.append(order[0])
    got, want, needs_input = [], [], False
    ins = [i for i in case["inputs"]]
    tasks = []
    if mode == "params":
        params["files"] = [names[i] for i in order]
        want = order
        tasks.append({"type": "caput.pipeline.tasklib.io.LoadFilesFromParams", "params": params, "out": "c"})
    elif mode == "glob":
        params["files"] = ["f*_[0-9].h5", "f*_?.zarr"] if len(fl) > 1 else "f0*_*"
        srt = sorted(range(len(fl)), key=lambda i: names[i])
        want = [i for i in srt if names[i].endswith(".h5")] + [i for i in srt if names[i].endswith(".zarr")]
        tasks.append({"type": "caput.pipeline.tasklib.io.LoadFilesFromParams", "params": params, "out": "c"})
    elif mode == "setup":
        want = order
        tasks.append({"type": "caput.pipeline.tasklib.io.FindFiles", "params": {"files": [names[i] for i in order]}, "out": "files"})
        tasks.append({"type": "caput.pipeline.tasklib.io.LoadFiles", "params": params, "requires": "files", "out": "c"})
    elif mode == "pathtag":
        paths = []
        for i in range(0, len(fl), nt):
            p = names[i].replace("_t0.", "_{tag}.")
            paths.append(p)
        params.update(paths=paths, tags=[f"t{k}" for k in range(nt)])
        want = list(range(len(fl)))
        tasks.append({"type": "caput.pipeline.tasklib.io.LoadFilesFromPathAndTag", "params": params, "out": "c"})
    else:
        needs_input = True
        tasks.append({"type": "VfIn", "out": "inp"})
        if mode == "attrs":
            ins = [i % len(fl) for i in ins]
            params["filename"] = "{kind}_{which:02d}.h5"
            want = ins
            kind = "LoadFilesFromAttrs"
        elif mode == "select":
            params["files"] = [names[i] for i in order]
            want = [order[k % len(order)] for k in range(len(ins))]
            kind = "LoadFilesAndSelect"
        else:
            params.update(files=[names[i] for i in order], key_format="k{lsd}")
            last = {fl[i]["lsd"]: i for i in order}
            want = [last[i] for i in ins if i in last]
            kind = "LoadFilesAndSelect"
        tasks.append({"type": "caput.pipeline.tasklib.io." + kind, "params": params, "in": "inp", "out": "c"})
    tasks.append({"type": "VfSink", "in": "c"})

    class VfIn(PTask):
        k = 0

        def next(self):
            if self.k >= len(ins):
                raise exceptions.PipelineStopIteration
            self.k += 1
            return build(content(1, (2, 2, 2)), None, {"lsd": ins[self.k - 1], "which": ins[self.k - 1], "kind": "m"}, False, comm)

    class VfSink(PTask):
        def next(self, a):
            got.append((a, whole(a, comm), dict(a.attrs), {k: (a.datasets[k].distributed, getattr(a.datasets[k], "distributed_axis", None)) for k in a.datasets}))

    local = {"VfIn": VfIn, "VfSink": VfSink}
    failed = None
    try:
        local_tasks.update(local)
        Manager.from_yaml_str(yaml.safe_dump({"pipeline": {"logging": "ERROR", "tasks": tasks}}, sort_keys=False)).run()
    except ValueError as e:
        failed = e
    finally:
        for k in local:
            local_tasks.pop(k, None)
        comm.Barrier()
        os.chdir(ctx.scratch)
        if comm.rank == 0:
            shutil.rmtree(where, ignore_errors=True)
    if case["wrong"]:
        check(failed is not None and not got, "an impossible selection was accepted", selections=params["selections"], mode=mode)
        return Info(False, ["refused"])
    check(failed is None, "loading failed", error=repr(failed), mode=mode, params=params)
    check(len(got) == len(want), "not the configured number of files was loaded", mode=mode, got=len(got), want=len(want))
    sel = {}
    for k, v in sorted(case["sel"].items(), key=lambda kv: kv[0].endswith("_range")):
        a, kind = k.rsplit("_", 1)
        sel[a] = slice(*v) if kind == "range" else v
    isdist = case["dist"] is not False
    for n, ((a, w, attrs, dist), i) in enumerate(zip(got, want)):
        check(type(a) is cls, "a loaded container has another class", got=type(a))
        d = differing(w, take(fulls[i], sel))
        check(not d, "loaded content is not that of the configured file and selection", position=n, file=names[i], selections=case["sel"], differs=d)
        check(int(attrs["lsd"]) == fl[i]["lsd"] and attrs["note"] == "n", "attributes of a loaded file", got=attrs)
        if fl[i]["fmt"] == "h5":
            # text arrays are bytes in a file, and text in memory if they are converted
            check(list(attrs["words"]) == ([b"ab", b"c"] if case["conv"] is False else ["ab", "c"]), "text of attributes", got=attrs["words"], convert=case["conv"])
        if fl[i]["tag"] is not None:
            check(str(attrs["tag"]) == str(fl[i]["tag"]), "tag of a loaded file", got=attrs["tag"], want=fl[i]["tag"])
        elif not needs_input:
            check(attrs["tag"] == names[i].rsplit(".", 1)[0], "an untagged file is not tagged by its name", got=attrs["tag"], file=names[i])
        for nm in AXES:
            on = isdist and nm in DISTS
            check(bool(dist[nm][0]) == on, "distribution of a loaded dataset", dataset=nm, got=dist[nm])
            if on:
                ax = "x"
                if case["redist"] in AXES[nm]:
                    ax = case["redist"]
                check(AXES[nm][dist[nm][1]] == ax, "axis over which a loaded dataset is distributed", dataset=nm, got=dist[nm], want=ax)
    return Info(len(want) > 1, [mode, *(["selection"] if sel else []), *(["both kinds"] if any(a + "_index" in case["sel"] and a + "_range" in case["sel"] for a in sel) else []),
                                *(["redistributed"] if "redistribute" in params else [])])


# ---------------------------------------------------------------- truncation


@st.composite
def truncs(draw):
    shape = [draw(st.integers(1, 5)), draw(st.integers(1, 5)), draw(st.integers(1, 4))]
    spec = {}
    for nm in ("data", "cube", "flat", "prec", "wcube"):
        if draw(st.integers(0, 2)):
            continue
        opts = [True, False, 1e-3, 0.1, 1e-6, {"fixed_precision": 0.01}, {}]
        if nm in ("data", "cube"):
            opts += [{"weight_dataset": w, "variance_increase": v, "fixed_precision": p} for w in ("wcube", "wcube") for v in (1e-3, 0.1) for p in (1e-4, 0.05)]
            opts += [{"weight_dataset": "wcube"}]
        if nm == "data":
            opts += [{"weight_dataset": "data2", "variance_increase": 0.01}]
        if nm == "cube":
            opts += [{"weight_dataset": "precision_weight", "variance_increase": 0.03}]
        spec[nm] = draw(st.sampled_from(opts))
    return {"shape": shape, "seed": draw(st.integers(0, 10**6)), "dataset": draw(st.sampled_from([spec, spec, spec, None])), "chunked": draw(st.booleans()),
            "chunks": {nm: draw(st.sampled_from(["declared", "none", "own"])) for nm in ("data", "cube")}, "dist": draw(st.booleans())}


def run_trunc(case, ctx):
    import logging
    import warnings

    import numpy as np

    from caput.pipeline.tasklib.io import Truncate

    warnings.simplefilter("ignore")
    logging.getLogger("caput").setLevel(logging.ERROR)
    comm = ctx.comm
    full = content(case["seed"], case["shape"])
    spec = case["dataset"] or {}
    if isinstance(spec.get("data"), dict) and spec["data"].get("weight_dataset") == "data2":
        spec = {**spec, "data": {**spec["data"], "weight_dataset": "prec"}}
    c = build(full, "t", None, case["dist"], comm)
    if isinstance(spec.get("data"), dict) and spec["data"].get("weight_dataset") == "prec":
        full["prec"] = np.abs(full["prec"])
        c.datasets["prec"][:] = full["prec"]
        spec["prec"] = False
    if isinstance(spec.get("cube"), dict) and spec["cube"].get("weight_dataset") or "cube" not in spec:
        # the weights are not truncated before they are used
        spec = {**spec, "wcube": False}
    if isinstance(spec.get("data"), dict) and spec["data"].get("weight_dataset") == "wcube":
        spec = {**spec, "wcube": False}
    t = Truncate._from_config({"ensure_chunked": case["chunked"], **({"dataset": spec} if case["dataset"] is not None else {})})
    before = {}
    for nm, how in case["chunks"].items():
        d = c[nm]
        if how != "declared":
            old = d[:].copy()
            del c[nm]
            own = {"chunks": (1,) * len(old.shape), "compression": "gzip", "compression_opts": 7} if how == "own" else {}
            d = c.create_dataset(nm, shape=full[nm].shape, dtype=old.dtype, distributed=case["dist"], distributed_axis=0 if case["dist"] else None, **own)
            d[:] = old
            d.attrs["axis"] = np.array(AXES[nm])
        before[nm] = (d.chunks, d.compression, d.compression_opts)
    r = t.process(c)
    for nm, how in case["chunks"].items():
        got = (c[nm].chunks, c[nm].compression, c[nm].compression_opts)
        decl = {"data": ((2, 3), None, None), "cube": ((3, 2, 2), "gzip", 4)}[nm]
        decl = (tuple(map(min, decl[0], c[nm].shape)), *decl[1:])
        want = decl if case["chunked"] and how == "none" else before[nm]
        check(got == want, "chunking of a truncated dataset", dataset=nm, got=got, want=want, ensured=case["chunked"])
    check(r is c, "truncation did not return the container")
    new = whole(c, comm)
    check(sorted(new) == sorted(full), "datasets changed", got=sorted(new))
    preset = {"cube": {"weight_dataset": "wcube"}, "flat": True, "prec": 0.01}
    used = changed = 0
    for nm, old in full.items():
        v = spec[nm] if nm in spec else preset.get(nm)
        now = new[nm]
        check(now.shape == old.shape and now.dtype == old.dtype, "the form of a dataset changed", dataset=nm)
        if not v and v != {} or nm.startswith("axis:"):
            check(now.tobytes() == np.ascontiguousarray(old).tobytes(), "a dataset which was not configured changed", dataset=nm, spec=spec)
            continue
        p = {"weight_dataset": None, "fixed_precision": 1e-4, "variance_increase": 1e-3}
        if isinstance(v, dict):
            p.update(v)
        elif isinstance(v, float):
            p["fixed_precision"] = v
        used += 1
        cmplx = old.dtype.kind == "c"
        parts = [(old.real, now.real), (old.imag, now.imag)] if cmplx else [(old, now)]
        w = None
        if p["weight_dataset"] == "precision_weight":
            w = np.abs(full["wcube"]).T[:, None, :] + 1.0
        elif p["weight_dataset"] is not None:
            src = full[p["weight_dataset"]]
            wax = AXES[p["weight_dataset"]]
            w = np.transpose(src, [wax.index(a) for a in AXES[nm] if a in wax])
            w = w[tuple(slice(None) if a in wax else None for a in AXES[nm])]
        for o, q in parts:
            err = np.abs(o.astype("f8") - q.astype("f8"))
            bound = p["fixed_precision"] * np.abs(o.astype("f8"))
            if w is not None:
                ww = np.broadcast_to(w, o.shape).astype("f8") * (2.0 if cmplx else 1.0)
                with np.errstate(divide="ignore"):
                    bound = np.where(ww > 0, np.sqrt(3 * p["variance_increase"] / ww), bound)
            bad = err > bound * (1 + 1e-5)
            check(not bad.any(), "truncation went beyond the configured precision", dataset=nm, parameters=p,
                  value=float(o[bad][0]) if bad.any() else None, result=float(q[bad][0]) if bad.any() else None, allowed=float(bound[bad][0]) if bad.any() else None)
            # the truncation is worth having: where a bit of slack allows it, low bits are cleared
            room = (bound > 64 * np.spacing(np.abs(o)).astype("f8")) & (o != 0)
            bits = np.abs(q.astype("f8"))[room]
            step = np.abs(bound[room]) / 4
            unit = 2.0 ** np.floor(np.log2(step)) if room.any() else step
            check((bits % unit == 0).all() if room.any() else True, "low bits are left although the precision allows clearing them", dataset=nm, parameters=p)
            changed += int((err > 0).sum())
    return Info(used > 0 and changed > 0, [*(["weights"] if any(isinstance(v, dict) and v.get("weight_dataset") for v in spec.values()) else []),
                                          *(["presets"] if case["dataset"] is None else [])])


# ---------------------------------------------------------------- saving

STAND_IN = """#!{py}
import os, sys, time, zipfile
assert sys.argv[1] == "a" and sys.argv[2] == "-tzip", sys.argv
dest, src = [a for a in sys.argv[3:] if not a.startswith("-")]
assert src.endswith("/."), src
fail, which = os.environ.get("VF_ZIP_FAIL", "0:").split(":", 1)
fail = fail if which in dest else "0"
slow = os.environ.get("VF_ZIP_SLOW")
if slow and slow in dest:
    time.sleep(0.3)
if fail == "1":
    sys.exit(2)
src = src[:-2]
with zipfile.ZipFile(dest, "w", zipfile.ZIP_STORED) as z:
    for root, _, files in os.walk(src):
        for f in files:
            p = os.path.join(root, f)
            z.write(p, os.path.relpath(p, src))
if fail == "2":
    sys.exit(2)
"""


@st.composite
def saves(draw):
    n = draw(st.integers(0, 3) | st.integers(4, 6))
    return {"how": draw(st.sampled_from(["save", "savezip", "savezip", "zip"])), "failure": draw(st.sampled_from([1, 2])), "only": draw(st.none() | st.integers(0, 5)),
            "slow": draw(st.none() | st.integers(0, 5)), "invalid": draw(st.sampled_from([None, None, None, None, "name", "file", "missing"])),
            "items": [{"seed": draw(st.integers(0, 10**6)), "tag": draw(st.sampled_from([None, f"t{j}", f"t {j}", f"a'{j}", f"x;{j}", f"$y{j}"]))} for j in range(n)],
            "root": draw(st.sampled_from(["out", "o u t", "d/out"])), "remove": draw(st.booleans()), "fail": draw(st.integers(0, 5)) == 0,
            "shape": [draw(st.integers(1, 4)), draw(st.integers(1, 3)), draw(st.integers(1, 3))]}


def run_save(case, ctx):
    import logging
    import shutil
    import stat
    import sys
    import warnings

    import yaml

    from caput.pipeline import Manager, local_tasks
    from caput.pipeline import Task as PTask
    from caput.pipeline import exceptions

    warnings.simplefilter("ignore")
    logging.getLogger("caput").setLevel(logging.CRITICAL)
    cls = container_class()
    where = os.path.join(ctx.scratch, f"s{ctx.n}")
    shutil.rmtree(where, ignore_errors=True)
    os.makedirs(where + "/bin")
    os.makedirs(where + "/work/d")
    with open(where + "/bin/7z", "w") as f:
        f.write(STAND_IN.format(py=sys.executable))
    os.chmod(where + "/bin/7z", stat.S_IRWXU)
    path = os.environ["PATH"]
    os.environ["PATH"] = where + "/bin:" + path
    how, root = case["how"], case["root"]
    fail = case["fail"] and how != "save"
    os.chdir(where + "/work")
    fulls = [content(it["seed"], case["shape"]) for it in case["items"]]
    names = [f"{root}_{it['tag'] if it['tag'] is not None else j}" for j, it in enumerate(case["items"])]
    got = []

    class VfIn(PTask):
        k = 0

        def next(self):
            if self.k >= len(fulls):
                raise exceptions.PipelineStopIteration
            self.k += 1
            return build(fulls[self.k - 1], case["items"][self.k - 1]["tag"], {"n": self.k})

    class VfSink(PTask):
        def next(self, a):
            got.append(a)

    local = {"VfIn": VfIn, "VfSink": VfSink}
    sep = "/" if root.endswith("/") else "_"
    tasks = [{"type": "VfIn", "out": "c"}]
    if how == "save":
        # untagged ones are numbered among themselves
        k, names = 0, []
        for it in case["items"]:
            names.append(f"{root}_{it['tag'] if it['tag'] is not None else k}")
            k += it["tag"] is None
        names = [n + ".h5" for n in names]
        tasks += [{"type": "caput.pipeline.tasklib.io.Save", "params": {"root": root}, "in": "c", "out": "d"}, {"type": "VfSink", "in": "d"}]
    elif how == "savezip":
        case = {**case, "items": [{**it, "tag": it["tag"] or "none"} for it in case["items"]]}
        # the operation is counted by the number of the item
        tasks += [{"type": "caput.pipeline.tasklib.io.SaveZarrZip", "params": {"output_name": root + sep + "{tag}{n}.zarr.zip", "remove": case["remove"]}, "in": "c", "out": "h"},
                  {"type": "caput.pipeline.tasklib.io.WaitZarrZip", "in": "h"}]
        names = [f"{root}{sep}{it['tag']}{j + 1}.zarr.zip" for j, it in enumerate(case["items"])]
        names = [os.path.expandvars(n) for n in names]
    else:
        names = [n + ".zarr.zip" for n in names]
        for f, full in zip(names, fulls):
            build(full).save(f[:-4], file_format=fmt(f[:-4]))
        tasks = [{"type": "caput.pipeline.tasklib.io.ZipZarrContainers", "params": {"containers": sorted({f[:-4] for f in names}), "remove": case["remove"]}}]
        if case["invalid"]:
            # something which is not a zarr container is never zipped, nor removed
            odd = {"name": "dir.other", "file": "plain.zarr", "missing": "not_there.zarr"}[case["invalid"]]
            if case["invalid"] == "name":
                build(content(1, case["shape"])).save(odd, file_format=fmt("x.zarr"))
            elif case["invalid"] == "file":
                with open(odd, "w") as f:
                    f.write("plain")
            tasks[0]["params"]["containers"].append(odd)
    if fail and fulls:
        bad = names[case["only"] % len(names)] if case["only"] is not None else ""
        os.environ["VF_ZIP_FAIL"] = f"{case['failure']}:{bad}"
    if case["slow"] is not None and fulls:
        os.environ["VF_ZIP_SLOW"] = names[case["slow"] % len(names)]
    err = None
    try:
        local_tasks.update(local)
        Manager.from_yaml_str(yaml.safe_dump({"pipeline": {"logging": "ERROR", "tasks": tasks}})).run()
    except (RuntimeError, ValueError) as e:
        err = e
    finally:
        for k in local:
            local_tasks.pop(k, None)
        os.environ["PATH"] = path
        os.environ.pop("VF_ZIP_FAIL", None)
        os.environ.pop("VF_ZIP_SLOW", None)
    try:
        if how == "zip" and case["invalid"]:
            check(err is not None and (fail or isinstance(err, ValueError)), "something other than a zarr container was accepted", kind=case["invalid"], error=repr(err))
            check(os.path.exists(odd) == (case["invalid"] != "missing") and not os.path.exists(odd + ".zip"), "something other than a zarr container was zipped or removed", kind=case["invalid"])
            return Info(False, ["invalid"])
        if fail and fulls:
            check(err is not None, "a failure of the zipping went unnoticed", how=how, failure=case["failure"], file=bad)
            for f in names:
                if bad in f:
                    check(os.path.isdir(f[:-4]), "a container was removed although it could not be zipped", file=f)
                elif not os.path.isdir(f[:-4]):
                    check(os.path.exists(f), "a container was lost when another could not be zipped", file=f)
            return Info(False, ["failure"])
        check(err is None, "saving failed", how=how, error=repr(err), names=names)
        there = []
        for r, dirs, fs in os.walk("."):
            for d in list(dirs):
                if d.endswith(".zarr"):
                    there.append(os.path.normpath(os.path.join(r, d)))
                    dirs.remove(d)
            there += [os.path.normpath(os.path.join(r, f)) for f in fs]
        want = set(names)
        if how != "save" and not case["remove"]:
            want |= {f[:-4] for f in names}
        check(sorted(there) == sorted(want), "the files written are not those asked for", how=how, got=sorted(there), want=sorted(want))
        if how == "save":
            check(len(got) == len(fulls), "not every container was passed on", got=len(got))
        last = dict(zip(names, range(len(names))))
        for f, j in last.items():
            c = cls.from_file(f)
            d = differing(whole(c), fulls[j])
            check(not d, "a file does not hold what was to be saved", file=f, differs=d)
            if how != "zip":
                check(int(c.attrs["n"]) == j + 1, "attributes of a saved file", file=f)
        for j, c in enumerate(got):
            check(not differing(whole(c), fulls[j]) and int(c.attrs["n"]) == j + 1, "what was passed on is not what was saved", item=j)
    finally:
        os.chdir(ctx.scratch)
        shutil.rmtree(where, ignore_errors=True)
    return Info(len(fulls) > 0, [how, *(["special names"] if any(ch in f for f in names for ch in " ';$") else [])])


# ---------------------------------------------------------------- groups written and read by the mixin


@st.composite
def groupios(draw):
    return {"tree": draw(T.trees(zarr=True)), "kind": draw(st.sampled_from(["mem", "mem", "h5", "h5same", "zarr", "zarrsame"])),
            "name": draw(st.sampled_from(["g.h5", "a/b/g.h5", "./g.h5", "g.zarr", "a/g.zarr", "g.hdf5"])), "fmt": draw(st.sampled_from([None, None, "match"])),
            "exists": draw(st.booleans()), "old": draw(T.trees(zarr=True))}


def run_groupio(case, ctx):
    import shutil
    import warnings

    import h5py
    import zarr

    from caput import memdata as md
    from caput.pipeline.extensions import GroupIOMixin

    warnings.simplefilter("ignore")
    where = os.path.join(ctx.scratch, f"g{ctx.n}")
    shutil.rmtree(where, ignore_errors=True)
    os.makedirs(where)
    os.chdir(where)
    kind, name = case["kind"], case["name"]
    if kind.startswith("h5"):
        name = name.replace(".zarr", ".h5")
    if kind.startswith("zarr"):
        name = name.replace(".h5", ".zarr").replace(".hdf5", ".zarr")
    isz = name.endswith(".zarr")
    ff = {None: None, "match": md.fileformats.Zarr if isz else md.fileformats.HDF5}[case["fmt"]]
    try:
        g = md.MemGroup()
        T.make(case["tree"], g)
        want = T.walk(g)
        same = kind.endswith("same")
        if same:
            if os.path.dirname(name):
                os.makedirs(os.path.dirname(name), exist_ok=True)
            src = name
        else:
            src = "source.zarr" if kind == "zarr" else "source.h5"
        if case["exists"] and not same and not isz:
            if os.path.dirname(name):
                os.makedirs(os.path.dirname(name), exist_ok=True)
            o = md.MemGroup()
            T.make(case["old"], o)
            o.to_file(name, file_format=md.fileformats.Zarr if isz else md.fileformats.HDF5)
        handle = None
        if kind == "mem":
            out = g
        else:
            g.to_file(src, file_format=md.fileformats.Zarr if kind.startswith("zarr") else md.fileformats.HDF5)
            out = handle = zarr.open_group(src, mode="r+") if kind.startswith("zarr") else h5py.File(src, "r+")
            if same:
                handle.attrs["added"] = 5
                want["/"][1]["added"] = 5
        GroupIOMixin.write_output(name, out, **({"file_format": ff} if ff is not None else {}))
        if kind == "mem":
            T.compare(T.walk(g), want, "the group itself")
        if same and not isz:
            # what was changed through the open file is on the disk
            with open(name, "rb") as a, open("copy.h5", "wb") as b:
                b.write(a.read())
            name_r = "copy.h5"
        else:
            name_r = name
        if handle is not None and not isz:
            handle.close()
        r = GroupIOMixin.read_input(name_r)
        check(isinstance(r, md.MemGroup), "reading gives another type", got=type(r))
        T.compare(T.walk(r), want, f"{kind} written to {name} and read")
        T.compare(T.walk(GroupIOMixin.read_output(name_r)), want, f"{kind} written to {name} and read as output")
    finally:
        os.chdir(ctx.scratch)
        shutil.rmtree(where, ignore_errors=True)
    return Info(any(d is not None for _, d, _ in case["tree"]["ents"]), [kind, "zarr file" if isz else "hdf5 file"])


PARTS = [
    Part("expand", expansions, run_expand, quick=700, shards=2, rule="more than one file, or a group, is found"),
    Part("load", loads, run_load, quick=80, shards=2, ranks=[1, 2, 3], rule="at least two files are loaded"),
    Part("truncate", truncs, run_trunc, quick=300, ranks=[1, 3], rule="a configured dataset lost some bits"),
    Part("groups", groupios, run_groupio, quick=200, rule="the group has a dataset"),
    Part("save", saves, run_save, quick=60, shards=2, rule="at least one container is saved"),
]
