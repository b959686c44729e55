"""C37: tasks that read or write files handle exactly the files they name."""

import os
import shutil
import warnings

from hypothesis import strategies as st

from checks import trees as T
from vf.core import Info, Part, check

PROPERTY = "C37"
EXTS = {"invert": "fast", "weighted": "fast", "truncate": "full"}
ASSUMPTIONS = ["a non-iterating task is given at most one input", "every item of an iterating task with an output file has a name"]

ROOTS = ["", "d/", "pre_", "a/b/c_", "~/", "~/sub/x", "./"]
MIDDLES = ["m0", "m1", "sub/m2", "x y", "m.3", "é", "m[1]"]
EXTS_ = ["", ".h5", ".hdf5", ".zarr", "_o.h5"]


def value():
    """What goes through the pipeline; falsy ones and ones without a truth value included."""
    return st.one_of(st.integers(-2, 5).map(lambda v: ["int", v]), st.text("ab", max_size=2).map(lambda v: ["str", v]),
                     st.lists(st.integers(0, 3), max_size=3).map(lambda v: ["list", v]), st.lists(st.integers(0, 3), max_size=3).map(lambda v: ["arr", v]),
                     st.dictionaries(st.sampled_from("ab"), st.integers(0, 2), max_size=2).map(lambda v: ["dict", v]))


@st.composite
def cases(draw):
    it = draw(st.booleans())
    src = draw(st.sampled_from(["files", "files", "in", "in", "none"]))
    n = draw(st.integers(0, 4)) if it else (draw(st.integers(0, 1)) if src == "in" else 1)
    mids = draw(st.lists(st.sampled_from(MIDDLES), unique=True, min_size=n, max_size=n))
    out = draw(st.one_of(st.none(), st.sampled_from(ROOTS)))
    return {"iter": it, "src": src, "vals": [draw(value()) for _ in range(n)], "mids": mids, "iroot": draw(st.sampled_from(ROOTS)),
            "iext": draw(st.sampled_from(["", ".in", ".x.in"])), "oroot": out, "oext": draw(st.sampled_from(EXTS_)),
            "drop": draw(st.lists(st.integers(0, 3), max_size=2)), "key": draw(st.booleans()), "cast": draw(st.booleans()),
            "extra": draw(st.sampled_from([0, 0, 1])), "setup": draw(st.booleans()), "finish": draw(st.booleans()), "explicit": draw(st.booleans())}


def build(v):
    import numpy as np

    return np.array(v[1], dtype=int) if v[0] == "arr" else list(v[1]) if v[0] == "list" else dict(v[1]) if v[0] == "dict" else v[1]


def run(c, ctx):
    import yaml

    from caput.pipeline import Manager, Task, exceptions
    from caput.pipeline import _pipeline as pp
    from caput.pipeline.extensions import _extensions as ex

    warnings.simplefilter("ignore")
    where = os.path.join(ctx.scratch, f"f{ctx.n}")
    shutil.rmtree(where, ignore_errors=True)
    os.makedirs(os.path.join(where, "home"))
    log = []
    vals = [build(v) for v in c["vals"]]
    n = len(vals)
    mids = c["mids"] + [f"unused{i}" for i in range(c["extra"] if c["src"] != "files" and c["iter"] else 0)]

    def tok(x):
        return repr(x)

    class Source(Task):
        def __init__(self):
            self.i = 0

        def next(self):
            if self.i >= n:
                raise exceptions.PipelineStopIteration
            self.i += 1
            return (vals[self.i - 1],)

    class Sink(Task):
        def next(self, x):
            log.append(("got", tok(x)))

    count = {"i": 0}

    def handle(self, x):
        j = count["i"]
        count["i"] += 1
        log.append(("process", tok(x)))
        return None if j in c["drop"] else ["done", j, tok(x)]

    base = ex.IterBase if c["iter"] else ex.SingleBase
    ns = {}

    def read_input(self, filename):
        log.append(("read", filename))
        with open(filename) as fh:
            return "content " + fh.read()

    def write_output(filename, output, file_format=None, **kw):
        log.append(("write", filename, tok(output)))
        check(os.path.isdir(os.path.dirname(os.path.abspath(filename))), "the directory of the output %s is not there", filename)

    ns["read_input"] = read_input
    ns["write_output"] = staticmethod(write_output)
    if c["cast"]:
        ns["cast_input"] = lambda self, x: ("cast", tok(x))
    if c["src"] == "none":
        def process(self):
            if count["i"] >= n:
                raise exceptions.PipelineStopIteration
            return handle(self, None)
    else:
        def process(self, x):
            return handle(self, x)
    ns["process"] = process
    if c["setup"]:
        ns["setup"] = lambda self: log.append(("setup",))
    if c["finish"]:
        ns["finish"] = lambda self: log.append(("finish",))
    cls = type("Filer", (base,), ns)

    params = {}
    if c["iter"]:
        params["file_middles"] = mids
        params["input_ext"], params["output_ext"] = c["iext"], c["oext"]
    names = [m + c["iext"] for m in c["mids"]]
    if not c["iter"] and c["mids"]:
        params["input_filename"] = names[0]
        params["output_filename"] = c["mids"][0] + c["oext"]
    if c["src"] == "files":
        params["input_root"] = c["iroot"]
    elif c["explicit"]:
        params["input_root"] = "None"
    if c["oroot"] is not None:
        params["output_root"] = c["oroot"]
    elif c["explicit"]:
        params["output_root"] = "None"
    tasks = [{"type": "VfFiler", "params": params}]
    if c["src"] == "in":
        tasks.insert(0, {"type": "VfSource", "out": "a"})
        tasks[1]["in"] = "a"
    if c["key"]:
        tasks[-1]["out"] = "b"
        tasks.append({"type": "VfSink", "in": "b"})
    home = os.environ.get("HOME")
    os.chdir(where)
    os.environ["HOME"] = os.path.join(where, "home")
    try:
        if c["src"] == "files":
            for i, nm in enumerate(names):
                f = os.path.expanduser(c["iroot"] + nm)
                if os.path.dirname(f):
                    os.makedirs(os.path.dirname(f), exist_ok=True)
                with open(f, "w") as fh:
                    fh.write(str(i))
        pp.local_tasks.update({"VfSource": Source, "VfFiler": cls, "VfSink": Sink})
        m = Manager.from_yaml_str(yaml.dump({"pipeline": {"logging": {"root": "ERROR"}, "tasks": tasks}}))
        m.run()
        # ---- what should have happened
        want = [("setup",)] if c["setup"] else []
        for j in range(n):
            if c["src"] == "files":
                f = os.path.expanduser(c["iroot"] + names[j])
                want.append(("read", f))
                x = f"content {j}"
            elif c["src"] == "in":
                x = ("cast", tok(vals[j])) if c["cast"] else vals[j]
            else:
                x = None
            want.append(("process", tok(x)))
            if j in c["drop"]:
                continue
            out = ["done", j, tok(x)]
            if c["oroot"] is not None:
                want.append(("write", os.path.expanduser(c["oroot"] + c["mids"][j] + c["oext"]), tok(out)))
            if c["key"]:
                want.append(("got", tok(out)))
        if c["finish"]:
            want.append(("finish",))
        got = [x for x in log if x[0] not in ("setup", "finish")]
        # consumers may run later, but see everything in order
        for kinds in (("read", "process", "write"), ("got",)):
            a = [x for x in got if x[0] in kinds]
            b = [x for x in want if x[0] in kinds]
            check(a == b, "the task did %s, expected %s", a, b)
        for k in ("setup", "finish"):
            check(log.count((k,)) == want.count((k,)), "%s was called %d times", k, log.count((k,)))
        if c["setup"] and len(log) and c["src"] != "in":
            check(log[0] == ("setup",), "the task did not start with its setup: %s", log)
    finally:
        for k in ("VfSource", "VfFiler", "VfSink"):
            pp.local_tasks.pop(k, None)
        os.chdir(ctx.scratch)
        if home is None:
            os.environ.pop("HOME", None)
        else:
            os.environ["HOME"] = home
        shutil.rmtree(where, ignore_errors=True)
    return Info(n > 1 or (not c["iter"] and n == 1 and c["src"] != "none"), ["iter" if c["iter"] else "single", c["src"], "written" if c["oroot"] is not None else "not written"])


# ---------------------------------------------------------------- groups, from file to file


@st.composite
def groups(draw):
    it = draw(st.booleans())
    n = draw(st.integers(1, 3)) if it else 1
    return {"iter": it, "trees": [draw(T.trees(zarr=True)) for _ in range(n)], "iext": draw(st.sampled_from([".h5", ".zarr"])),
            "oext": draw(st.sampled_from([".h5", ".zarr", ".dat"])), "oroot": draw(st.sampled_from(["o_", "out/", "out/deep/"])),
            "fmt": draw(st.sampled_from([None, "match", "zarr", "zarr"])), "src": draw(st.sampled_from(["files", "files", "in"])), "tag": draw(st.integers(0, 5)),
            "old": draw(st.booleans())}


def run_groups(c, ctx):
    import yaml

    from caput import memdata as md
    from caput.pipeline import Manager, Task, exceptions
    from caput.pipeline import _pipeline as pp
    from caput.pipeline.extensions import _extensions as ex

    warnings.simplefilter("ignore")
    where = os.path.join(ctx.scratch, f"h{ctx.n}")
    if ctx.rank == 0:
        shutil.rmtree(where, ignore_errors=True)
        os.makedirs(where)
    ctx.comm.Barrier()
    os.chdir(where)
    base = ex.IterH5Base if c["iter"] else ex.SingleH5Base
    names = [f"g{i}" for i in range(len(c["trees"]))]
    F = md.fileformats
    try:
        gs = []
        for nm, t in zip(names, c["trees"]):
            g = md.MemGroup()
            T.make(t, g)
            gs.append(g)
            if ctx.rank == 0:
                g.to_file(nm + c["iext"], file_format=F.Zarr if c["iext"] == ".zarr" else F.HDF5)
                if c["old"] and c["oext"] == ".h5":
                    os.makedirs(os.path.dirname(c["oroot"]) or ".", exist_ok=True)
                    o = md.MemGroup()
                    o.create_dataset("stale", data=[1, 2])
                    o.to_file(c["oroot"] + nm + c["oext"])
        ctx.comm.Barrier()

        class Source(Task):
            def __init__(self):
                self.i = 0

            def next(self):
                if self.i >= len(gs):
                    raise exceptions.PipelineStopIteration
                self.i += 1
                return gs[self.i - 1]

        seen = []

        class Filer(base):
            def process(self, g):
                seen.append(T.walk(g))
                g.attrs["tag_"] = c["tag"]
                return g

        params = {"output_root": c["oroot"]}
        if c["src"] == "files":
            params["input_root"] = "./"
        zout = c["oext"] == ".zarr"
        if c["fmt"] is not None:
            # the name does not tell the format, so the option does
            zout = zout or (c["oext"] == ".dat" and c["fmt"] == "zarr")
            params["output_format"] = "zarr" if zout else "hdf5"
        if c["iter"]:
            params.update(file_middles=names, input_ext=c["iext"], output_ext=c["oext"])
        else:
            params.update(input_filename=names[0] + c["iext"], output_filename=names[0] + c["oext"])
        tasks = [{"type": "VfFiler", "params": params}]
        if c["src"] == "in":
            tasks.insert(0, {"type": "VfSource", "out": "a"})
            tasks[1]["in"] = "a"
        want = [T.walk(g) for g in gs]
        pp.local_tasks.update({"VfSource": Source, "VfFiler": Filer})
        Manager.from_yaml_str(yaml.dump({"pipeline": {"logging": {"root": "ERROR"}, "tasks": tasks}})).run()
        ctx.comm.Barrier()
        check(len(seen) == len(want), "%d groups were processed, expected %d", len(seen), len(want))
        for i, nm in enumerate(names):
            T.compare(seen[i], want[i], f"the group read from {nm}")
            want[i]["/"][1]["tag_"] = c["tag"]
            check(os.path.isdir(c["oroot"] + nm + c["oext"]) == zout, "the output %s is not in the format asked for", nm)
            r = md.MemGroup.from_file(c["oroot"] + nm + c["oext"], file_format=F.Zarr if zout else F.HDF5)
            T.compare(T.walk(r), want[i], f"the group written for {nm}")
        there = sorted(f for f in os.listdir(os.path.dirname(c["oroot"]) or ".") if os.path.basename(c["oroot"] + "g") in f and f.startswith(os.path.basename(c["oroot"]) + "g"))
        wf = sorted(os.path.basename(c["oroot"]) + nm + c["oext"] for nm in names)
        if os.path.dirname(c["oroot"]):
            check(there == wf, "the output has files %s, expected %s", there, wf)
    finally:
        for k in ("VfSource", "VfFiler"):
            pp.local_tasks.pop(k, None)
        os.chdir(ctx.scratch)
        ctx.comm.Barrier()
        if ctx.rank == 0:
            shutil.rmtree(where, ignore_errors=True)
    return Info(any(d is not None for t in c["trees"] for _, d, _ in t["ents"]), ["iter" if c["iter"] else "single", c["iext"] + " to " + c["oext"], c["src"]])


# ---------------------------------------------------------------- open groups written from several processes


def run_open(c, ctx):
    import h5py
    import zarr

    from caput import memdata as md
    from caput.pipeline.extensions import GroupIOMixin

    warnings.simplefilter("ignore")
    where = os.path.join(ctx.scratch, f"o{ctx.n}")
    if ctx.rank == 0:
        shutil.rmtree(where, ignore_errors=True)
        os.makedirs(where)
    ctx.comm.Barrier()
    os.chdir(where)
    try:
        g = md.MemGroup()
        T.make(c["tree"], g)
        want = T.walk(g)
        F = md.fileformats
        z = c["kind"] == "zarr" or ctx.size > 1     # groups which are not distributed cannot be written to HDF5 by several processes
        if ctx.rank == 0:
            g.to_file("s.zarr" if z else "s.h5", file_format=F.Zarr if z else F.HDF5)
        ctx.comm.Barrier()
        h = zarr.open_group("s.zarr", mode="r") if z else h5py.File("s.h5", "r")
        f = c["dir"] + ("t.zarr" if z else "t.h5")
        GroupIOMixin.write_output(f, h)
        if z:
            # everybody finds it afterwards
            T.compare(T.walk(GroupIOMixin.read_input(f)), want, "the copy of an open group")
        ctx.comm.Barrier()
        if not z:
            h.close()
        T.compare(T.walk(GroupIOMixin.read_input(f)), want, "the copy of an open group")
    finally:
        os.chdir(ctx.scratch)
        ctx.comm.Barrier()
        if ctx.rank == 0:
            shutil.rmtree(where, ignore_errors=True)
    return Info(any(d is not None for _, d, _ in c["tree"]["ents"]), [c["kind"]])


# ---------------------------------------------------------------- refused set-ups


@st.composite
def wrong(draw):
    return {"iter": draw(st.booleans()), "args": draw(st.sampled_from(["none", "one", "two", "var", "default", "kwonly"])), "in": draw(st.integers(0, 2)),
            "root": draw(st.sampled_from([None, "None", "x/", ""]))}


def run_wrong(c, ctx):
    from caput import config
    from caput.pipeline import Manager
    from caput.pipeline.extensions import _extensions as ex

    fs = {"none": lambda self: None, "one": lambda self, a: a, "two": lambda self, a, b: a, "var": lambda self, *a: a, "default": lambda self, a=1: a,
          "kwonly": lambda self, a, *, k=1: a}
    cls = type("T", (ex.IterBase if c["iter"] else ex.SingleBase,), {"process": fs[c["args"]]})
    n = {"none": 0, "one": 1}.get(c["args"])
    if n is None:
        good = False
    elif c["root"] in (None, "None"):
        good = c["in"] == n
    else:
        good = c["in"] == 0 and n == 1
    try:
        t = cls._from_config({} if c["root"] is None else {"input_root": c["root"]})
        keys = ["a", "b"][: c["in"]]
        Manager().add_task(t, {"in": keys} if keys else {})
    except config.CaputConfigError:
        check(not good, "a valid task was refused")
    else:
        check(good, "a task with %s arguments, %d inputs and the root %s was accepted", c["args"], c["in"], c["root"])
    return Info(True, ["good" if good else "bad"])


def opens():
    return st.fixed_dictionaries({"tree": T.trees(zarr=True), "kind": st.sampled_from(["zarr", "zarr", "h5"]), "dir": st.sampled_from(["", "d/e/"])})


PARTS = [
    Part("tasks", cases, run, quick=500, shards=2, rule="several items, or one that is read or received"),
    Part("groups", groups, run_groups, quick=100, shards=2, ranks=[1], rule="a group has a dataset"),
    Part("open groups", opens, run_open, quick=60, ranks=[1, 2, 3], rule="the group has a dataset"),
    Part("refused", wrong, run_wrong, quick=200, rule="always"),
]
