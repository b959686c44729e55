"""C19: container tasks process, tag, check and save every item as configured."""

import os

from hypothesis import strategies as st

from vf.core import Info, Part, check

PROPERTY = "C19"
EXTS = {"invert": "fast", "weighted": "fast", "truncate": "full"}
ASSUMPTIONS = [
    "an item for which processing gives nothing is not counted; one dropped for its NaNs is counted, but not towards the limit of outputs",
    "files of the same name replace each other in the order of the items",
]

TAGS = ["{tag}", "{tag}", "{tag}", "cat{count}", "{tag}_{task}", "{key}-{tag}", "fixed", "{kind}{count:02d}", "{output_root}{tag}"]
NAMES = [None, "{output_root}{tag}.h5", "out/{key}_{tag}_{count}.h5", "{task}{count}.zarr", "$VFDIR/{tag}.h5", "{kind}.h5", "a/b/{input_tags[0]}.h5"]
ATTRS = [None, {}, {"note": "n{count}_{tag}"}, {"num": 5, "lst": [1, 2], "txt": "{key}{task}"}, {"kind": "over{kind}"}, {"tag": "ignored"}]


@st.composite
def item(draw, j):
    return {"tag": draw(st.sampled_from([None, None, f"t{j}", f"t{j}", "same"])), "kind": draw(st.sampled_from(["k", "mm"])),
            "bad": draw(st.sampled_from([None, None, None, "nan", "inf", "-inf"])), "where": draw(st.sampled_from(["data", "weight", "axis", "single", "level"])),
            "act": draw(st.sampled_from(["same", "same", "new", "newtag", "newbad", "none", "tuple"])), "seed": draw(st.integers(0, 10**6))}


@st.composite
def cases(draw):
    n = draw(st.integers(0, 5))
    pair = draw(st.integers(0, 3)) == 0
    save = draw(st.sampled_from([False, True, True])) if not pair else draw(st.sampled_from([False, True, [True, False], [False, True], [True, True]]))
    name = draw(st.sampled_from(NAMES)) if not pair else draw(st.sampled_from([*NAMES[2:5], ["{tag}_a.h5", "b/{tag}_b.h5"], ["x{count}.h5", "y{tag}.zarr"]]))
    nin, finish = draw(st.sampled_from([0, 1, 1, 1, 2])), draw(st.sampled_from([None, None, "new", "newtag", "newbad"]))
    if isinstance(name, str) and "input_tags" in name and (nin == 0 or finish is not None):
        name = None
    return {
        "items": [draw(item(j)) for j in range(n)], "pair": pair, "inputs": nin,
        "stop": draw(st.sampled_from(["raise", "done"])), "finish": finish,
        "out": draw(st.booleans()) or pair, "save": save, "name": name, "root": draw(st.sampled_from([None, "", "pre_", "dir/"])),
        "tagfmt": draw(st.sampled_from(TAGS)), "attrs": draw(st.sampled_from(ATTRS)), "limit": draw(st.sampled_from([None, None, None, 1, 2, 3])),
        "nan_check": draw(st.sampled_from([True, True, True, False])), "nan_skip": draw(st.booleans()), "nan_dump": draw(st.booleans()),
        "compression": draw(st.sampled_from([None, None, True, False, {}, {"data": {"compression": None, "chunks": None}},
                                             {"data": {"compression": "gzip", "compression_opts": 7, "chunks": [2, 2]}, "nothere": {"chunks": None}},
                                             {"data": {"compression": "bitshuffle", "compression_opts": None, "chunks": [2, 2]}, "weight": {"chunks": [2], "compression": "gzip", "compression_opts": 1}},
                                             {"data": {"compression": "bitshuffle", "compression_opts": [64, 2], "chunks": [3, 1]}},
                                             {"weight": {"compression": "bitshuffle", "chunks": [2]}}])),
        "versions": draw(st.sampled_from([[], ["yaml"]])), "config": draw(st.booleans()),
    }


def container_class():
    import sys
    import types

    from caput.containers import ContainerPrototype as Container

    if "vf_task_containers" in sys.modules:
        return sys.modules["vf_task_containers"].TCont
    mod = types.ModuleType("vf_task_containers")

    class TCont(Container):
        _axes = ("x", "y")
        _dataset_spec = {
            "data": {"axes": ["x", "y"], "dtype": "f8", "initialise": True, "distributed": True, "distributed_axis": "x",
                     "chunks": (2, 3), "compression": "gzip", "compression_opts": 3},
            "weight": {"axes": ["y"], "dtype": "c8", "initialise": True, "distributed": False},
            "count": {"axes": ["x"], "dtype": "i4", "initialise": True, "distributed": False},
            "single": {"axes": ["x"], "dtype": "f4", "initialise": True, "distributed": False},
        }

    TCont.__module__ = mod.__name__
    TCont.__qualname__ = "TCont"
    mod.TCont = TCont
    sys.modules[mod.__name__] = mod
    return TCont


BADVALUE = {"nan": "nan", "inf": "inf", "-inf": "-inf"}


def make(seed, tag, kind, bad=None, where="data", comm=None):
    import numpy as np

    cls = container_class()
    rng = np.random.default_rng(seed)
    nx, ny = 4, 3
    x, y = np.arange(nx) + 0.5, np.arange(ny) * 2.0
    v = float(bad) if bad else None
    if bad and where == "axis":
        x[int(rng.integers(nx))] = v
    kw = {} if comm is None else {"comm": comm}
    c = cls(x=x, y=y, **kw)
    full = rng.standard_normal((nx, ny))
    w = (rng.standard_normal(ny) + 1j * rng.standard_normal(ny)).astype("c8")
    s = rng.standard_normal(nx).astype("f4")
    if bad and where == "data":
        full[int(rng.integers(nx)), int(rng.integers(ny))] = v
    if bad and where == "weight":
        j = int(rng.integers(ny))
        w[j] = complex(0, v) if seed % 2 else complex(v, 0)
    if bad and where == "single":
        s[int(rng.integers(nx))] = v
    d = c.datasets["data"][:]
    if hasattr(d, "local_offset"):
        o, n = d.local_offset[0], d.local_shape[0]
        d.local_array[:] = full[o : o + n]
    else:
        d[:] = full
    c.datasets["weight"][:] = w
    c.datasets["count"][:] = rng.integers(0, 9, nx)
    c.datasets["single"][:] = s
    c.create_dataset("level", data=np.array(v if bad and where == "level" else 1.5))
    c.attrs["kind"] = kind
    if tag is not None:
        c.attrs["tag"] = tag
    return c


def snap(c):
    """Datasets and axes, as plain arrays of this rank."""
    import numpy as np

    out = {k: np.array((c.datasets[k][:] if c.datasets[k].shape else c.datasets[k][...]).view(np.ndarray)) for k in c.datasets}
    out.update({"axis:" + a: np.array(c.index_map[a][:]) for a in c.axes})
    return out


def same(a, b):
    import numpy as np

    def eq(x, y):
        if x.shape != y.shape or x.dtype != y.dtype:
            return False
        if x.dtype.kind == "c":
            return eq(x.real, y.real) and eq(x.imag, y.imag)
        return bool(np.array_equal(x, y, equal_nan=x.dtype.kind == "f"))

    return set(a) == set(b) and all(eq(a[k], b[k]) for k in a)


def nonfinite(s):
    import numpy as np

    return any(not np.isfinite(v).all() for v in s.values())


def outputs_of(act, it, inp, j, comm=None):
    """What the processing of item j gives: a list of containers, or None."""
    if act == "none":
        return None
    if act == "same" and inp:
        return [inp[0]]
    tag = f"new{j}" if act == "newtag" else None
    bad = "nan" if act == "newbad" else None
    return [make(it["seed"] + 77, tag, it["kind"] + "n", bad, comm=comm)]


def run(case, ctx):
    import json
    import logging
    import shutil

    import numpy as np
    import yaml

    from caput.pipeline import Manager, exceptions, local_tasks
    from caput.pipeline import Task as PTask
    from caput.pipeline.tasklib.base import ContainerTask

    logging.getLogger("caput").setLevel(logging.ERROR)
    TCont = container_class()
    where = os.path.join(ctx.scratch, f"c{ctx.n}")
    shutil.rmtree(where, ignore_errors=True)
    os.makedirs(where + "/env")
    os.chdir(where)
    os.environ["VFDIR"] = where + "/env"
    items, nin, pair = case["items"], case["inputs"], case["pair"]
    calls, made, got = [], [], {"ka": [], "kb": []}

    sources = [[make(it["seed"] + s, it["tag"] if s == 0 else f"second{j}", it["kind"], it["bad"], it["where"]) for j, it in enumerate(items)]
               for s in range(nin)]

    def process_item(self, inp):
        j = len(calls)
        if nin == 0 and j >= len(items):
            raise exceptions.PipelineStopIteration
        it = items[j]
        calls.append([id(x) for x in inp])
        if nin == 0 and case["stop"] == "done" and j == len(items) - 1:
            self.done = True
        out = outputs_of(it["act"], it, inp, j)
        if out is None:
            return None
        if pair:
            out.append(make(it["seed"] + 5, None, "second"))
        made.append([(o, snap(o), dict(o.attrs)) for o in out])
        return out[0] if not pair and it["act"] != "tuple" else tuple(out)

    body = {0: lambda self: process_item(self, []), 1: lambda self, a: process_item(self, [a]), 2: lambda self, a, b: process_item(self, [a, b])}[nin]

    def fin(self):
        out = outputs_of(case["finish"], {"seed": 5, "kind": "f"}, [], "fin")
        if pair:
            out.append(make(6, None, "second"))
        made.append([(o, snap(o), dict(o.attrs)) for o in out])
        return out[0] if not pair else tuple(out)

    members = {"process": body}
    if case["finish"] is not None:
        members["process_finish"] = fin
    Work = type("VfWork", (ContainerTask,), members)

    def source(s):
        class Source(PTask):
            i = 0

            def next(self):
                if self.i >= len(items):
                    raise exceptions.PipelineStopIteration
                self.i += 1
                return sources[s][self.i - 1]

        return Source

    class Sink(PTask):
        def next(self, a):
            got[self._in_keys[0]].append(a)

    local = {"VfWork": Work, "VfSink": Sink, "VfS0": source(0), "VfS1": source(1)}
    params = {"tag": case["tagfmt"], "save": case["save"], "nan_check": case["nan_check"], "nan_skip": case["nan_skip"], "nan_dump": case["nan_dump"]}
    for k, p in (("name", "output_name"), ("root", "output_root"), ("attrs", "attrs"), ("limit", "limit_outputs"), ("compression", "compression")):
        if case[k] is not None:
            params[p] = case[k]
    if not nin and not items and case["stop"] == "done":
        return Info(False, [])
    outkeys = (["ka", "kb"] if pair else "ka") if case["out"] else None
    tasks = [{"type": f"VfS{s}", "out": f"in{s}"} for s in range(nin)]
    tasks.append({"type": "VfWork", "params": params, **({"in": [f"in{s}" for s in range(nin)]} if nin else {}), **({"out": outkeys} if outkeys else {})})
    for k in ([outkeys] if isinstance(outkeys, str) else outkeys or []):
        tasks.append({"type": "VfSink", "in": k})
    doc = {"pipeline": {"logging": "ERROR", "save_versions": case["versions"], "save_config": case["config"], "tasks": tasks}}
    ids = [[id(sources[s][j]) for s in range(nin)] for j in range(len(items))]
    try:
        local_tasks.update(local)
        Manager.from_yaml_str(yaml.safe_dump(doc)).run()
    finally:
        for k in local:
            local_tasks.pop(k, None)

    # ------------------------------------------------ what should have happened
    want_calls, want_pass, files, count, passed, mi = [], {"ka": [], "kb": []}, {}, 0, 0, 0
    dumped = dropped = 0
    work = [("item", j) for j in range(len(items))] + ([("finish", None)] if case["finish"] is not None else [])
    stopped = False
    for what, j in work:
        if what == "item":
            if stopped:
                continue
            want_calls.append(ids[j])
            if items[j]["act"] == "none":
                continue
        check(mi < len(made), "an item was not processed", item=j, calls=len(calls))
        outs = made[mi]
        mi += 1
        any_passed = False
        for ii, (o, s, attrs) in enumerate(outs):
            attrs = dict(attrs)
            if what == "item":
                tags = [str(items[j]["tag"]) if items[j]["tag"] is not None else "", f"second{j}"][:nin]
                attrs["input_tags"] = tags
            key = "" if not case["out"] else ["ka", "kb"][ii]
            names = {**attrs, "count": count, "task": "VfWork", "key": key, "output_root": case["root"] or ""}
            names["tag"] = attrs["tag"] if "tag" in attrs else attrs["input_tags"][0] if attrs.get("input_tags") and attrs["input_tags"][0] else count
            for k, v in {**(case["attrs"] or {}), "tag": case["tagfmt"]}.items():
                attrs[k] = v.format(**names) if isinstance(v, str) else v
            full = {**names, **attrs, "count": count, "task": "VfWork", "key": key}
            found = case["nan_check"] and nonfinite(s)
            if found and case["nan_dump"]:
                files[f"nandump_VfWork_{attrs['tag']}.h5"] = (s, attrs, "dump")
                dumped += 1
            if found and case["nan_skip"]:
                dropped += 1
                continue
            any_passed = True
            want_pass[["ka", "kb"][ii]].append((o, s, attrs))
            save = case["save"][ii] if isinstance(case["save"], list) else case["save"]
            if save:
                nm = case["name"] or "{output_root}{tag}.h5"
                nm = nm[ii] if isinstance(nm, list) else nm
                files[nm.format(**full).replace("$VFDIR", "env")] = (s, attrs, "save")
        if what == "item":
            count += 1
            if any_passed or pair:
                passed += 1
                if case["limit"] is not None and passed >= case["limit"]:
                    stopped = True
    check(calls == want_calls, "processing was not called once per input, in order", calls=len(calls), want=len(want_calls))
    check(mi == len(made), "more items were processed than expected")
    for k in ("ka", "kb"):
        if not case["out"] or (k == "kb" and not pair):
            continue
        check([id(x) for x in got[k]] == [id(o) for o, _, _ in want_pass[k]], "the results passed on are not those of the processing",
              key=k, got=len(got[k]), want=len(want_pass[k]))
        for g, (o, s, attrs) in zip(got[k], want_pass[k]):
            if sum(o is o2 for o2, _, _ in want_pass[k]) == 1:
                check(same(snap(g), s), "the content of a result changed on its way")
                ga = {a: v for a, v in g.attrs.items() if not a.startswith("__")}
                check({a: str(v) for a, v in ga.items()} == {a: str(v) for a, v in attrs.items()}, "metadata of a result", got=ga, want=attrs)
    # ------------------------------------------------ files
    there = []
    for root, dirs, fs in os.walk("."):
        for d in list(dirs):
            if d.endswith(".zarr"):
                there.append(os.path.normpath(os.path.join(root, d)))
                dirs.remove(d)
        there += [os.path.normpath(os.path.join(root, f)) for f in fs]
    check(sorted(there) == sorted(os.path.normpath(f) for f in files), "the files written are not those asked for", got=sorted(there), want=sorted(files))
    for f, (s, attrs, how) in files.items():
        c = TCont.from_file(f)
        check(same(snap(c), s), "a file does not hold what was to be saved", file=f, how=how)
        for a in attrs:
            check(a in c.attrs and str(plain(c.attrs[a])) == str(attrs[a]), "metadata of a file", attribute=a, got=c.attrs.get(a), want=attrs[a], how=how)
        if how == "save":
            h = c.history
            check("versions" in h and "config" in h, "no record of the versions and configuration in a file", got=list(h))
            check(dict(h["versions"]) == {m: __import__(m).__version__ for m in case["versions"]}, "recorded versions", got=h["versions"])
            check(plain(h["config"]) == (doc if case["config"] else {}), "recorded configuration", got=h["config"], want=doc)
        if f.endswith(".h5") and how == "save":
            check_compression(f, case["compression"])
    os.chdir(ctx.scratch)
    shutil.rmtree(where, ignore_errors=True)
    labels = {"saved": any(h == "save" for _, _, h in files.values()), "dumped": dumped, "dropped": dropped, "pair": pair, "limited": stopped,
              "finish": case["finish"] is not None, "no inputs": nin == 0, "two inputs": nin == 2}
    return Info(len(made) > 1, [k for k, v in labels.items() if v])


def plain(v):
    import numpy as np

    if isinstance(v, np.ndarray):
        return v.tolist()
    if isinstance(v, np.generic):
        return v.item()
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v


def check_compression(f, conf):
    import h5py

    with h5py.File(f) as h:
        d = h["data"]
        got = (d.chunks, d.compression, d.compression_opts)
        shuffled = [k for k in ("data", "weight") if isinstance(conf, dict) and conf.get(k, {}).get("compression") == "bitshuffle"]
        for k in ("data", "weight"):
            check(("32008" in h[k]._filters) == (k in shuffled), "bitshuffle on a saved dataset", dataset=k, got=dict(h[k]._filters))
        for k in shuffled:
            want = conf[k].get("compression_opts") or [0, 2]
            check(h[k].chunks == tuple(conf[k]["chunks"]) and list(h[k]._filters["32008"][-2:]) == want, "options of bitshuffle", dataset=k,
                  got=(h[k].chunks, h[k]._filters), want=conf[k])
        if isinstance(conf, dict) and "weight" in conf and "weight" not in shuffled:
            check(h["weight"].chunks == (2,) and h["weight"].compression == "gzip", "the compression of another dataset", got=h["weight"]._filters)
        if "data" in shuffled:
            return
        if conf is False:
            want = (None, None, None)
        elif isinstance(conf, dict) and "data" in conf:
            x = conf["data"]
            want = (None, None, None) if x["chunks"] is None else (tuple(x["chunks"]), x["compression"], x["compression_opts"])
        else:
            want = ((2, 3), "gzip", 3)
        check(got == want, "the compression of a saved dataset is not the one configured", got=got, want=want)


# ---------------------------------------------------------------- NaN handling over several processes


@st.composite
def mpicases(draw):
    n = draw(st.integers(1, 3))
    return {"items": [draw(item(j)) for j in range(n)], "nan_skip": draw(st.booleans()), "nan_dump": draw(st.booleans()), "save": draw(st.booleans())}


def run_mpi(case, ctx):
    import glob
    import logging
    import shutil

    from caput.pipeline import Manager, extensions
    from caput.pipeline.tasklib.base import ContainerTask

    logging.getLogger("caput").setLevel(logging.ERROR)
    comm = ctx.comm
    where = os.path.join(ctx.scratch, f"m{ctx.n}")
    if comm.rank == 0:
        os.makedirs(where)
    comm.Barrier()
    os.chdir(where)

    class VfMpi(ContainerTask):
        def process(self, a):
            return a

    conts = [make(it["seed"], f"t{j}", "k", it["bad"], it["where"], comm) for j, it in enumerate(case["items"])]
    before = [snap(c) for c in conts]
    t = VfMpi()
    t.save, t.nan_skip, t.nan_dump = case["save"], case["nan_skip"], case["nan_dump"]
    m, sink = Manager(), extensions.Output()
    m.add_task(extensions.Input(conts), out="a")
    m.add_task(t, in_="a", out="b")
    m.add_task(sink, in_="b")
    m.run()
    bad = [it["bad"] is not None for it in case["items"]]
    want = [c for c, b in zip(conts, bad) if not (b and case["nan_skip"])]
    check([id(c) for c in sink.outputs] == [id(c) for c in want], "not exactly the items without NaN were passed on", rank=comm.rank,
          got=len(sink.outputs), want=len(want))
    for c, s in zip(conts, before):
        check(same(snap(c), s), "an item changed")
    comm.Barrier()
    files = {f"t{j}.h5" for j, b in enumerate(bad) if case["save"] and not (b and case["nan_skip"])}
    files |= {f"nandump_VfMpi_t{j}.h5" for j, b in enumerate(bad) if b and case["nan_dump"]}
    got = set(glob.glob("*"))
    check(got == files, "the files written are not those asked for", got=sorted(got), want=sorted(files))
    for j, c in enumerate(conts):
        for f in (f"t{j}.h5", f"nandump_VfMpi_t{j}.h5"):
            if f in files:
                r = container_class().from_file(f, distributed=True, comm=comm)
                check(same(snap(r), before[j]), "a file does not hold what was to be saved", file=f)
    comm.Barrier()
    os.chdir(ctx.scratch)
    if comm.rank == 0:
        shutil.rmtree(where)
    comm.Barrier()
    return Info(any(bad), ["dump" if case["nan_dump"] else "no dump"])


# ---------------------------------------------------------------- groups


@st.composite
def groups(draw):
    kinds = ["add", "scale", "drop", "new", "setup1", "setup2", "optset"]
    return {"members": draw(st.lists(st.sampled_from(kinds), min_size=1, max_size=4, unique=True)), "n": draw(st.integers(0, 4)),
            "seed": draw(st.integers(0, 1000)), "amount": draw(st.integers(-3, 3)), "factor": draw(st.integers(-2, 4)), "every": draw(st.integers(1, 3)),
            "req": draw(st.lists(st.integers(1, 9), min_size=5, max_size=5))}


def member_classes():
    from caput import config
    from caput.pipeline.tasklib.base import ContainerTask

    class Add(ContainerTask):
        amount = config.Property(proptype=int, default=1)

        def process(self, a):
            a.datasets["data"][:] += self.amount
            return a

    class Scale(ContainerTask):
        factor = config.Property(proptype=int, default=2)

        def process(self, b):
            b.datasets["data"][:] *= self.factor
            return b

    class Drop(ContainerTask):
        every = config.Property(proptype=int, default=2)
        drop_count = 0

        def process(self, c):
            self.drop_count += 1
            return None if self.drop_count % (self.every + 1) == 0 else c

    class New(ContainerTask):
        def process(self, d):
            e = make(int(abs(d.datasets["data"][0, 0]) * 1000) % 97, d.attrs["tag"], "new")
            e.datasets["data"][:] += d.datasets["data"][:]
            return e

    class Setup1(ContainerTask):
        def setup(self, one):
            self.one = one

        def process(self, f):
            f.datasets["data"][:] += self.one
            return f

    class Setup2(ContainerTask):
        def setup(self, left, right):
            self.both = left * 10 + right

        def process(self, g):
            g.datasets["data"][:] -= self.both
            return g

    class OptSet(ContainerTask):
        def setup(self, extra=None):
            self.extra = 5 if extra is None else extra

        def process(self, h):
            h.datasets["data"][:] += 100 * self.extra
            return h

    return {"add": (Add, 0, "amount"), "scale": (Scale, 0, "factor"), "drop": (Drop, 0, "every"), "new": (New, 0, None),
            "setup1": (Setup1, 1, None), "setup2": (Setup2, 2, None), "optset": (OptSet, 1, None)}


def run_groups(case, ctx):
    import logging

    from caput.pipeline import Manager, extensions
    from caput.pipeline.tasklib.base import group_tasks

    logging.getLogger("caput").setLevel(logging.ERROR)
    cls = member_classes()
    ms = [cls[k] for k in case["members"]]

    def inputs():
        return [make(case["seed"] + i, f"t{i}", "k") for i in range(case["n"])]

    def config(t):
        for k in ("amount", "factor", "every"):
            if hasattr(type(t), k):
                setattr(t, k, case[k])
        return t

    results = []
    for grouped in (False, True):
        m, sink = Manager(), extensions.Output()
        m.add_task(extensions.Input(inputs()), out="s0")
        reqs, r = [], 0
        for c, need, _ in ms:
            ks = []
            for _ in range(need):
                m.add_task(extensions.Input([case["req"][r]]), out=f"r{r}")
                ks.append(f"r{r}")
                r += 1
            reqs.append(ks)
        if grouped:
            Group = type("Group", (group_tasks(*[c for c, _, _ in ms]),), {})
            m.add_task(config(Group()), in_="s0", out="end", requires=[k for ks in reqs for k in ks])
            last = "end"
        else:
            for i, (c, _, _) in enumerate(ms):
                m.add_task(config(c()), in_=f"s{i}", out=f"s{i + 1}", requires=reqs[i])
            last = f"s{len(ms)}"
        m.add_task(sink, in_=last)
        m.run()
        results.append([(str(c.attrs["tag"]), snap(c)) for c in sink.outputs])
    chain, group = results
    check([t for t, _ in chain] == [t for t, _ in group], "a group does not pass on the items its members would", got=[t for t, _ in group], want=[t for t, _ in chain])
    for (_, a), (_, b) in zip(chain, group):
        check(same(a, b), "a group does not give the result of its members one after the other")
    return Info(case["n"] > 1 and len(ms) > 1, [*case["members"]])


# ---------------------------------------------------------------- flow tasks

FLOW = ["AccumulateList", "GatherInputs", "Delete", "MakeCopy", "PassOn", "WaitUntil", "Print"]


@st.composite
def flows(draw):
    val = st.one_of(st.integers(0, 9), st.lists(st.integers(0, 3), max_size=3), st.text("ab", max_size=3),
                    st.dictionaries(st.sampled_from("ab"), st.lists(st.integers(0, 2), max_size=2), max_size=2), st.just("array"), st.just("container"))
    return {"task": draw(st.sampled_from(FLOW)), "items": draw(st.lists(val, max_size=7)), "other": draw(st.lists(val, max_size=5)),
            "size": draw(st.sampled_from([None, 1, 2, 3, 10])), "n": draw(st.integers(1, 3)), "late": draw(st.integers(0, 3)), "given": draw(st.booleans())}


def equal(a, b):
    import numpy as np

    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return type(a) is type(b) and np.array_equal(a, b)
    if type(a).__name__ == "TCont":
        return type(b) is type(a) and same(snap(a), snap(b)) and dict(a.attrs) == dict(b.attrs)
    return type(a) is type(b) and a == b


def run_flow(case, ctx):
    import contextlib
    import copy
    import io
    import logging

    import numpy as np

    from caput.pipeline import Manager, Task, exceptions, extensions
    from caput.pipeline.tasklib import debug, flow

    logging.getLogger("caput").setLevel(logging.ERROR)

    def realise(vals):
        out = []
        for i, v in enumerate(vals):
            out.append(np.arange(4) + i if v == "array" else make(i, f"t{i}", "k") if v == "container" else copy.deepcopy(v))
        return out

    xs, others = realise(case["items"]), realise(case["other"])
    name, log = case["task"], []
    t = getattr(debug if name == "Print" else flow, name)()
    m = Manager()
    sink = extensions.Output(lambda x: log.append("out") or x)
    m.add_task(extensions.Input(xs), out="x")
    ident, want = True, None
    if name == "AccumulateList":
        if case["size"] is not None:
            t.group_size = case["size"]
            g = case["size"]
            want = [xs[i : i + g] for i in range(0, len(xs) - g + 1, g)]
        else:
            want = [list(xs)]
        m.add_task(t, in_="x", out="y")
    elif name == "GatherInputs":
        n = case["n"]
        ks = ["x", "w", "x"][:n]
        m.add_task(extensions.Input(others), out="w")
        m.add_task(t, in_=ks, out="y")
        want = [list(z) for z in zip(*[{"x": xs, "w": others}[k] for k in ks])]
    elif name == "WaitUntil":

        class Late(Task):
            """Gives its product after some iterations, or not at all."""

            i = 0

            def next(self):
                self.i += 1
                if self.i <= case["late"]:
                    return None
                if self.i == case["late"] + 1 and case["given"]:
                    log.append("ready")
                    return "product"
                raise exceptions.PipelineStopIteration

        m.add_task(Late(), out="r")
        m.add_task(t, in_="x", out="y", requires="r")
        want = xs if case["given"] else []
    else:
        m.add_task(t, in_="x", out="y")
        want = [] if name == "Delete" else xs
    m.add_task(sink, in_="y")
    ref = copy.deepcopy(xs)
    text = io.StringIO()
    with contextlib.redirect_stdout(text):
        m.run()
    got = sink.outputs
    check(len(got) == len(want), f"{name}: wrong number of outputs", got=len(got), want=len(want))
    for a, b in zip(got, want):
        if name in ("AccumulateList", "GatherInputs"):
            check(type(a) is list and len(a) == len(b) and all(p is q for p, q in zip(a, b)), f"{name}: a list does not hold the inputs in order")
        elif name == "MakeCopy":
            check(equal(a, b), "a copy differs")
            if isinstance(b, (list, dict)) or hasattr(b, "shape") or type(b).__name__ == "TCont":
                check(a is not b, "not a copy")
            if isinstance(b, np.ndarray):
                a += 1
            elif isinstance(b, list):
                a.append(1)
            elif type(b).__name__ == "TCont":
                a.datasets["data"][:] += 1
                a.attrs["tag"] = "changed"
        else:
            check(a is b, f"{name}: an input was not passed on")
    for a, b in zip(xs, ref):
        check(equal(a, b), f"{name}: an input changed")
    if name == "Print":
        check(text.getvalue() == "".join(f"{x}\n" for x in xs), "what was printed")
    if name == "WaitUntil" and case["given"]:
        check("out" not in log[: log.index("ready")], "an input was forwarded before the requirement was there")
    return Info(len(xs) > 1, [name])


# ---------------------------------------------------------------- records of the configuration


@st.composite
def records(draw):
    extra = draw(st.dictionaries(st.sampled_from(["one", "two", "three"]), st.one_of(
        st.integers(0, 99), st.text("ab: #'\n", max_size=6), st.lists(st.floats(0, 1), max_size=2),
        st.dictionaries(st.sampled_from(["k", "l"]), st.none() | st.booleans(), max_size=2)), max_size=3))
    return {"extra": extra, "versions": draw(st.lists(st.sampled_from(["numpy", "yaml", "h5py"]), unique=True)), "root": draw(st.sampled_from(["r", "sub_x"])),
            "save": draw(st.booleans()), "order": draw(st.booleans())}


def run_records(case, ctx):
    import importlib

    import yaml

    from caput.pipeline import Manager

    root = os.path.join(ctx.scratch, f"{case['root']}{ctx.n}")
    tasks = [{"type": f"caput.pipeline.tasklib.debug.{t}", "params": {"root": root}} for t in ("SaveModuleVersions", "SaveConfig")]
    doc = {**case["extra"], "pipeline": {"logging": "ERROR", "tasks": tasks[::-1] if case["order"] else tasks, "save_versions": case["versions"],
                                         "save_config": case["save"]}}
    Manager.from_yaml_str(yaml.safe_dump(doc)).run()
    with open(root + "_versions.yml") as f:
        got = yaml.safe_load(f)
    check(got == {m: importlib.import_module(m).__version__ for m in case["versions"]}, "saved versions", got=got)
    with open(root + "_config.yml") as f:
        got = yaml.safe_load(f)
    check(got == (doc if case["save"] else {}), "saved configuration", got=got, want=doc)
    os.remove(root + "_versions.yml")
    os.remove(root + "_config.yml")
    return Info(bool(case["extra"]), ["saved" if case["save"] else "not saved"])


PARTS = [
    Part("tasks", cases, run, quick=280, shards=4, rule="at least two items gave a result"),
    Part("mpi", mpicases, run_mpi, quick=40, ranks=[2, 3], rule="at least one item holds NaN or infinity"),
    Part("groups", groups, run_groups, quick=150, shards=1, rule="at least two members and two items"),
    Part("flow", flows, run_flow, quick=300, shards=1, rule="at least two items"),
    Part("records", records, run_records, quick=60, shards=1, rule="the configuration has other sections"),
]
