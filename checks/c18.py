"""C18: invalid pipelines are rejected before anything runs; valid ones are accepted."""

import copy

from hypothesis import strategies as st

from vf.core import Info, Part, check, fail

PROPERTY = "C18"
EXTS = {"invert": "fast", "weighted": "fast", "truncate": "full"}
ASSUMPTIONS = [
    "a configuration error is CaputConfigError; a value which its own conversion refuses may raise the error of that conversion (ValueError)",
    "the number of outputs is only known when a task runs, so it belongs to C17",
]

# (name, fewest, most) arguments of setup and next; most None: any number
CLASSES = {
    "Plain": ((0, 0), (0, 0)),
    "OneIn": ((0, 0), (1, 1)),
    "MaybeIn": ((0, 1), (0, 2)),
    "TwoIn": ((1, 1), (2, 2)),
    "Open": ((0, None), (1, None)),
    "ReqOpt": ((1, 2), (0, 1)),
    "Shared": ((0, 1), (0, 1)),
}
PARAMS = ["count", "ratio", "label", "items", "opts", "mode", "limit_outputs", "base_priority"]
DEFAULTS = {"count": 3, "ratio": None, "label": "x", "items": [1], "opts": None, "mode": "a", "limit_outputs": None, "base_priority": 0}
WORK = []


def good_value(name):
    return {
        "count": st.one_of(st.integers(-5, 99), st.sampled_from(["7", 2.5, True])),
        "ratio": st.one_of(st.floats(-10, 10), st.integers(-5, 5), st.sampled_from(["1.5", "nan_"[:3]])).filter(lambda v: v == v and v != "nan"),
        "label": st.one_of(st.sampled_from(["abc", "", "a: b"]), st.integers(0, 9), st.booleans()),
        "items": st.one_of(st.lists(st.integers(0, 9), max_size=3), st.just("xyz"), st.just([[1], {"a": 2}])),
        "opts": st.one_of(st.none(), st.dictionaries(st.sampled_from(["a", "b"]), st.lists(st.integers(0, 3), max_size=2)), st.integers(0, 4)),
        "mode": st.sampled_from(["a", "b"]),
        "limit_outputs": st.integers(1, 5),
        "base_priority": st.integers(-10, 10),
    }[name]


BAD = {"count": ["abc", None, [1], {}], "ratio": ["x", None, [1.0]], "items": [None, 3], "mode": ["c", None, 1],
       "limit_outputs": ["many", [2]], "base_priority": ["high", None]}


def conv(name, v):
    return {"count": int, "ratio": float, "label": str, "items": list, "limit_outputs": int, "base_priority": int}.get(name, lambda x: x)(v)


def classes():
    """The task classes, made anew in a module that can be imported."""
    import sys
    import types

    from caput import config
    from caput.pipeline import Task

    mod = types.ModuleType("vf_pipeline_tasks")
    seen = []

    class Base(Task):
        count = config.Property(proptype=int, default=3)
        ratio = config.Property(proptype=float)
        label = config.Property(proptype=str, default="x")
        items = config.Property(proptype=list, default=[1])
        opts = config.Property()
        mode = config.enum(["a", "b"], default="a")

        def __init__(self):
            self.got = {k: copy.deepcopy(getattr(self, k)) for k in PARAMS}
            for k in ("versions", "pipeline_config"):
                if hasattr(type(self), k):
                    self.got[k] = copy.deepcopy(getattr(self, k))
            seen.append(self)
            # a task does what it likes with its own parameters
            self.items.append("spoilt")
            for x in self.items:
                if isinstance(x, (list, dict)):
                    x.clear()
            if isinstance(self.opts, dict):
                for v in self.opts.values():
                    v.append("spoilt")
                self.opts["spoilt"] = []

        def finish(self):
            WORK.append("finish")

    def sig(lo, hi):
        args = [f"a{i}" for i in range(lo)]
        args += ["*rest"] if hi is None else [f"a{i}=None" for i in range(lo, hi)]
        return ", ".join(["self", *args])

    for name, (req, inp) in CLASSES.items():
        ns = {"WORK": WORK}
        exec(f"def setup({sig(*req)}):\n    WORK.append('setup')\n"
             f"def next({sig(*inp)}):\n    WORK.append('next')\n", ns)
        body = {"setup": ns["setup"], "next": ns["next"], "__module__": mod.__name__}
        if name == "Shared":
            body["versions"] = config.Property(default={}, proptype=dict)
            body["pipeline_config"] = config.Property(default={}, proptype=dict)
        setattr(mod, name, type(name, (Base,), body))
    mod.not_a_task = 5
    mod.function = lambda: None
    mod.Other = type("Other", (), {})
    sys.modules[mod.__name__] = mod
    return mod, seen


@st.composite
def valid(draw):
    """A consistent configuration: {"doc": the document, "want": the values per task}."""
    n = draw(st.integers(1, 6))
    keys = [f"key{i}" for i in range(12)]
    used, tasks, names = [], [], []
    for j in range(n):
        nout = draw(st.sampled_from([0, 1, 1, 2]))
        out = keys[len(used): len(used) + nout]
        used += out
        form = draw(st.booleans())
        tasks.append({"out": (out[0] if form and nout == 1 else list(out)) if nout else draw(st.sampled_from(["absent", "null", "empty"]))})
    groups, want = {}, []
    for j, t in enumerate(tasks):
        avail = used
        names_ok = [c for c, (r, i) in CLASSES.items() if avail or (r[0] == 0 and i[0] == 0)]
        name = draw(st.sampled_from(names_ok))
        for field, (lo, hi) in zip(("requires", "in"), CLASSES[name]):
            hi = 3 if hi is None else hi
            m = draw(st.integers(lo, hi if avail else 0))
            ks = [draw(st.sampled_from(avail)) for _ in range(m)]
            if not ks:
                f = draw(st.sampled_from(["absent", "null", "empty"]))
                if f != "absent":
                    t[field] = None if f == "null" else []
            else:
                t[field] = ks[0] if m == 1 and draw(st.booleans()) else ks
        o = t.pop("out")
        if o == "null":
            t["out"] = None
        elif o == "empty":
            t["out"] = []
        elif o != "absent":
            t["out"] = o
        t["type"] = name
        t["local"] = draw(st.booleans())
        vals = {}
        style = draw(st.sampled_from(["none", "inline", "group", "groups", "shared"]))
        pick = lambda: {k: draw(good_value(k)) for k in draw(st.lists(st.sampled_from(PARAMS), max_size=4, unique=True))}
        if style == "inline":
            vals = pick()
            t["params"] = vals
        elif style == "group":
            vals = pick()
            groups[f"group{j}"] = vals
            t["params"] = f"group{j}"
        elif style == "groups":
            ga, gb = pick(), pick()
            groups[f"group{j}a"], groups[f"group{j}b"] = ga, gb
            t["params"] = [f"group{j}a", f"group{j}b"]
            vals = {**ga, **gb}
        elif style == "shared":
            if "common" not in groups:
                groups["common"] = pick()
            vals = groups["common"]
            t["params"] = "common"
        want.append({**DEFAULTS, **{k: conv(k, v) for k, v in vals.items()}})
    pipe = {"tasks": tasks}
    if draw(st.booleans()):
        pipe["logging"] = draw(st.sampled_from(["ERROR", {"root": "ERROR"}, {"root": "error", "caput": "ERROR"}]))
    else:
        pipe["logging"] = {"root": "ERROR"}
    sv = draw(st.sampled_from(["absent", [], "numpy", ["numpy", "yaml"]]))
    if sv != "absent":
        pipe["save_versions"] = sv
    sc = draw(st.sampled_from(["absent", True, False]))
    if sc != "absent":
        pipe["save_config"] = sc
    return {"pipeline": pipe, "groups": groups, "want": want}


def document(case):
    """The document, as text, with the names of the tasks resolved."""
    doc = {"pipeline": copy.deepcopy(case["pipeline"]), **copy.deepcopy(case["groups"])}
    for t in doc["pipeline"]["tasks"]:
        if isinstance(t, dict) and "local" in t:
            local = t.pop("local")
            if "type" in t and t["type"] in CLASSES and not local:
                t["type"] = "vf_pipeline_tasks." + t["type"]
    return doc


class Around:
    """The local tasks and the logging levels, put back afterwards."""

    def __enter__(self):
        import logging

        from caput.pipeline import local_tasks

        self.level = logging.getLogger().level
        mod, seen = classes()
        for c in CLASSES:
            local_tasks[c] = getattr(mod, c)
        WORK.clear()
        return mod, seen

    def __exit__(self, *exc):
        import logging
        import sys

        from caput.pipeline import local_tasks

        for c in CLASSES:
            local_tasks.pop(c, None)
        sys.modules.pop("vf_pipeline_tasks", None)
        logging.getLogger().setLevel(self.level)


def dump(doc):
    import yaml

    class D(yaml.SafeDumper):
        def ignore_aliases(self, data):
            return True

    return yaml.dump(doc, Dumper=D)


def run_valid(case, ctx):
    import numpy
    import yaml

    from caput.pipeline import Manager
    from caput.pipeline.runner import _core

    doc = document(case)
    text = dump(doc)
    with Around() as (mod, seen):
        if ctx.n % 3 == 0:
            path = f"{ctx.scratch}/conf.yaml"
            with open(path, "w") as f:
                f.write(text)
            _core.lint_config(path)
            check(not WORK, "lint ran a task")
            seen.clear()
            m = Manager.from_yaml_file(path)
        else:
            m = Manager.from_yaml_str(text)
        check(not WORK, "setting up the pipeline ran a task")
        check(len(m.tasks) == len(case["want"]) == len(seen), "not every task was made once")
        plain = yaml.safe_load(text)
        sv = case["pipeline"].get("save_versions", [])
        vers = {"numpy": numpy.__version__, "yaml": yaml.__version__}
        vers = {k: vers[k] for k in ([sv] if isinstance(sv, str) else sv)}
        for t, spec, want in zip(m.tasks, doc["pipeline"]["tasks"], case["want"]):
            name = spec["type"].split(".")[-1]
            check(type(t) is getattr(mod, name), "a task has the wrong class", got=type(t), want=name)
            want = dict(want)
            if name == "Shared":
                want["versions"] = vers
                want["pipeline_config"] = plain if case["pipeline"].get("save_config", True) else {}
            check(set(t.got) == set(want), "parameters", got=t.got)
            for k, v in want.items():
                same = t.got[k] == v and type(t.got[k]) is type(v) if k in PARAMS else t.got[k] == v
                check(same, "a task did not receive the configured value", parameter=k, got=t.got[k], want=v, task=spec)
    shared = sum(t.get("params") == "common" for t in case["pipeline"]["tasks"])
    return Info(len(case["want"]) > 1 and any("params" in t for t in case["pipeline"]["tasks"]),
                [k for k, v in {"shared group": shared > 1, "save_config off": case["pipeline"].get("save_config") is False,
                                "connected": any(t.get("in") for t in case["pipeline"]["tasks"])}.items() if v])


# ---------------------------------------------------------------- faults

FAULTS = ["no type", "unknown type", "not a task", "extra key", "unknown parameter", "missing group", "bad group", "bad value",
          "unknown in", "unknown requires", "duplicate out", "few in", "many in", "few requires", "many requires", "bad key",
          "no pipeline", "bad pipeline", "bad task", "bad versions", "bad tasks"]
UNKNOWN = ["vf_no_such_module.Task", "vf_pipeline_tasks.NoSuch", "NoSuchTask", "vf_pipeline_tasks.sub.Task", "", "..Up", ".", 7, None, ["Plain"],
           "vf_pipeline_tasks.", {"a": 1}]


@st.composite
def faulty(draw):
    return {"conf": draw(valid()), "fault": draw(st.sampled_from(FAULTS)), "at": draw(st.integers(0, 100)), "pick": draw(st.integers(0, 1000))}


def listed(v):
    return [] if v is None else v if isinstance(v, list) else [v]


def break_it(doc, case):
    """Apply the fault; None if it does not apply here."""
    tasks = doc["pipeline"]["tasks"]
    t = tasks[case["at"] % len(tasks)]
    f, pick = case["fault"], case["pick"]
    cls = t["type"].split(".")[-1]
    made = [k for x in tasks for k in listed(x.get("out"))]
    if f == "no type":
        del t["type"]
    elif f == "unknown type":
        t["type"] = UNKNOWN[pick % len(UNKNOWN)]
    elif f == "not a task":
        t["type"] = ["vf_pipeline_tasks.not_a_task", "vf_pipeline_tasks.function", "vf_pipeline_tasks.Other", "collections.OrderedDict"][pick % 4]
        t.pop("params", None)
    elif f == "extra key":
        t[["param", "input", "in_", "outs", "type_", "require"][pick % 6]] = ["x", None, [], "key0"][pick % 4]
    elif f == "unknown parameter":
        word = ["counts", "Count", "vf", "counting", "out"][pick % 5]
        p = t.get("params")
        if p is None:
            t["params"] = {word: 1}
        elif isinstance(p, dict):
            p[word] = 1
        else:
            doc[listed(p)[pick % len(listed(p))]][word] = 1
    elif f == "missing group":
        p = t.get("params")
        new = ["nogroup", None, 3][pick % 3]
        t["params"] = new if not isinstance(p, list) else [*p, "nogroup"]
    elif f == "bad group":
        doc["badgroup"] = [3, "text", [1, 2], ["ab", "cd"]][pick % 4]
        t["params"] = "badgroup" if pick % 2 else ["badgroup"]
    elif f == "bad value":
        name = list(BAD)[pick % len(BAD)]
        val = BAD[name][(pick // len(BAD)) % len(BAD[name])]
        p = t.get("params")
        if isinstance(p, str):
            doc[p][name] = val
        elif isinstance(p, list):
            doc[p[-1]][name] = val
        else:
            t["params"] = {**(p or {}), name: val}
    elif f in ("unknown in", "unknown requires"):
        k = f.split()[1]
        cur = listed(t.get(k))
        if not cur:
            return None
        cur = list(cur)
        cur[pick % len(cur)] = ["nokey", "key99", "KEY0"][pick % 3]
        t[k] = cur if len(cur) > 1 or pick % 2 else cur[0]
    elif f == "duplicate out":
        if not made:
            return None
        t["out"] = [*listed(t.get("out")), made[pick % len(made)]]
    elif f in ("few in", "many in", "few requires", "many requires"):
        what, k = f.split()
        lo, hi = CLASSES[cls][k == "in"]
        if what == "few":
            if lo == 0:
                return None
            m = pick % lo
        else:
            if hi is None or not made:
                return None
            m = hi + 1 + pick % 2
        ks = (listed(t.get(k)) + [made[pick % len(made)]] * m if made else listed(t.get(k)))[:m]
        t[k] = ks if ks else [[], None][pick % 2]
    elif f == "bad key":
        k = ["out", "in", "requires"][pick % 3]
        bad = [3, {"a": "b"}, [["key0"]], [4], True, [None]][(pick // 3) % 6]
        t[k] = bad
    elif f == "no pipeline":
        if pick % 3 == 0:
            doc.pop("pipeline")
        elif pick % 3 == 1:
            doc["pipelines"] = doc.pop("pipeline")
        else:
            return {"text": ["", "[1, 2]", "text", "3"][(pick // 3) % 4]}
    elif f == "bad pipeline":
        doc["pipeline"] = [None, [], "x", 3][pick % 4]
    elif f == "bad task":
        tasks[case["at"] % len(tasks)] = [None, "Plain", 3, ["Plain"], []][pick % 5]
    elif f == "bad versions":
        doc["pipeline"]["save_versions"] = [3, ["vf_no_such_module"], [3], {"numpy": 1}, "vf_pipeline_tasks"][pick % 5]
    elif f == "bad tasks":
        doc["pipeline"]["tasks"] = [None, 3, "abc", {"type": "Plain"}][pick % 4]
    return doc


def run_faulty(case, ctx):
    from caput.config import CaputConfigError
    from caput.pipeline import Manager
    from caput.pipeline.runner import _core

    doc = break_it(document(case["conf"]), case)
    if doc is None:
        return Info(False, [])
    text = doc["text"] if "text" in doc else dump(doc)
    allowed = (CaputConfigError, ValueError) if case["fault"] == "bad value" else CaputConfigError
    with Around() as (mod, seen):
        ways = [lambda: Manager.from_yaml_str(text)]
        if ctx.n % 3 == 0:
            path = f"{ctx.scratch}/conf.yaml"
            with open(path, "w") as f:
                f.write(text)
            if case["fault"] not in ("no pipeline", "bad pipeline"):
                ways.append(lambda: _core.lint_config(path))
            ways.append(lambda: Manager.from_yaml_file(path).run())
        for way in ways:
            try:
                way()
            except allowed:
                pass
            except Exception as e:
                fail(f"{case['fault']}: not a configuration error but {type(e).__name__}: {e}")
            else:
                fail(f"an invalid pipeline was accepted: {case['fault']}\n{text}")
            check(not WORK, "a task of an invalid pipeline did some work")
    return Info(True, [case["fault"]])


# ---------------------------------------------------------------- the environment given in the configuration


@st.composite
def venvs(draw):
    return {"task": draw(st.sampled_from(["VenvTask", "Another"])), "path": draw(st.sampled_from(["env", "deep/er/env", "with space"])),
            "exists": draw(st.booleans()), "module": draw(st.integers(0, 10**9))}


def run_venv(case, ctx):
    import os
    import sys

    from caput.pipeline.runner import _core

    base = os.path.join(ctx.scratch, f"v{ctx.n}", case["path"])
    site = os.path.join(base, "lib", "python%d.%d" % sys.version_info[:2], "site-packages")
    mod = f"vf_venv_{case['module']}_{ctx.n}"
    if case["exists"]:
        os.makedirs(site)
        with open(os.path.join(site, mod + ".py"), "w") as f:
            f.write(f"from caput.pipeline import Task\nclass {case['task']}(Task):\n    def next(self):\n        raise AssertionError\n")
    path = os.path.join(ctx.scratch, "venv.yaml")
    with open(path, "w") as f:
        f.write(dump({"cluster": {"venv": base}, "pipeline": {"logging": "ERROR", "tasks": [{"type": f"{mod}.{case['task']}"}]}}))
    keep, prefix, real = list(sys.path), sys.prefix, getattr(sys, "real_prefix", None)
    try:
        _core.lint_config(path)
        check(case["exists"], "lint of a configuration whose environment is missing passed")
    except SystemExit as e:
        check(not case["exists"] and e.code, "lint gave up on an environment that is there", error=repr(e))
    finally:
        sys.path[:] = keep
        sys.prefix = prefix
        if real is None and hasattr(sys, "real_prefix"):
            del sys.real_prefix
        sys.modules.pop(mod, None)
        sys.path_importer_cache.clear()
    return Info(case["exists"], ["there" if case["exists"] else "missing"])


PARTS = [
    Part("valid", valid, run_valid, quick=700, shards=3, rule="at least two tasks and some parameters"),
    Part("faulty", faulty, run_faulty, quick=1200, shards=3, rule="the fault applies to the configuration"),
    Part("venv", venvs, run_venv, quick=40, shards=1, rule="the environment exists"),
]
