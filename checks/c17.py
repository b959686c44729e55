"""C17: the pipeline delivers every product once, in order, to every consumer."""

from hypothesis import strategies as st

from vf.core import Info, Part, check, fail

PROPERTY = "C17"
EXTS = {"invert": "fast", "weighted": "fast", "truncate": "full"}
ASSUMPTIONS = [
    "a legal order lists the producer of a name before its consumers",
    "an output of None is no output; a required name is produced at most once",
    "base priorities are far from the documented reserve of 1e10",
]

VALUES = ["obj", "array", "falsy", "dict", "str", "list", "pass"]
PATTERNS = [None, None, None, "^[a-m]", "[0-9]$"]
NAMES = ["a0", "b1", "q", "m2", "n3", "z", "c_d", "e4"]
SKIPPED = ["_", "__", "-"]


def matches(pattern, key):
    """Whether a name is passed on (for the few patterns used)."""
    if pattern is None:
        return any(c.isalnum() for c in key)
    if pattern == "^[a-m]":
        return "a" <= key[0] <= "m"
    return key[-1].isdigit()


class Val:
    pass


# ---------------------------------------------------------------- reference model


def simulate(node, streams):
    """Calls made and values produced by one task, given all the streams of its producers.

    A value is a token (task, stage, count, slot); the result is (calls, outputs per slot).
    """
    me = node["id"]
    calls, outs = [], [[] for _ in node["out"]]

    def emit(stage, i, drop, args):
        if drop == "all":
            return False
        for s in range(len(node["out"])):
            if drop == "some" and (s + i) % 2 == 0 and len(node["out"]) > 1:
                continue
            outs[s].append(args[0] if node["value"] == "pass" and args and s == 0 else (me, stage, i, s))
        return True

    reqs = []
    for k in node["req"]:
        vals = streams.get(k, [])
        if not vals:
            reqs = None
            break
        assert len(vals) == 1
        reqs.append(vals[0])
    if reqs is not None:
        if node["kind"] == "task":
            calls.append(("setup", reqs))
            emit("setup", 0, node["setup"], reqs)
        limit = node["limit"]
        i = done = 0
        n = None if not node["in"] else min(len(streams.get(k, [])) for k in node["in"])
        while True:
            if n is not None and i >= n:
                break
            args = [streams[k][i] for k in node["in"]]
            if node["kind"] != "input":
                calls.append(("next", args))
            if node["stop"] is not None and i >= node["stop"]:
                break
            if emit("next", i, node["drops"].get(str(i), ""), args):
                done += 1
                # a task with nowhere to put its output still counts its iterations
                if limit is not None and done >= limit:
                    i += 1
                    break
            i += 1
    if node["kind"] == "task":
        calls.append(("finish", []))
        emit("finish", 0, node["finish"], [])
    return calls, outs


def model(nodes, pattern):
    streams, calls = {}, {}
    for node in nodes:
        c, o = simulate(node, streams)
        calls[node["id"]] = c
        for k, vals in zip(node["out"], o):
            if matches(pattern, k):
                streams[k] = vals
    return calls


# ---------------------------------------------------------------- generation


@st.composite
def graph(draw, maxn=7):
    pattern = draw(st.sampled_from(PATTERNS))
    nodes, streams, free = [], {}, draw(st.permutations(NAMES))
    skips = list(SKIPPED)
    n = draw(st.integers(1, maxn))
    for j in range(n):
        keys = sorted(streams)
        ins = draw(st.lists(st.sampled_from(keys), max_size=3)) if keys and draw(st.integers(0, 4)) else []
        single = [k for k in keys if len(streams[k]) <= 1]
        reqs = draw(st.lists(st.sampled_from(single), max_size=2)) if single and draw(st.booleans()) else []
        kind = draw(st.sampled_from(["task", "task", "task", "input"] if not ins else ["task", "task", "task", "output"]))
        nout = min(draw(st.sampled_from([0, 1, 1, 1, 2, 3])), len(free)) if kind != "output" else 0
        style = draw(st.sampled_from(["tuple", "list"]))
        if kind == "input":
            nout, reqs = min(1, nout), []
        if kind == "output":
            ins, reqs = ins[:1], []
        out = [free.pop() for _ in range(nout)]
        if out and skips and kind == "task" and draw(st.integers(0, 5)) == 0:
            out[draw(st.integers(0, len(out) - 1))] = skips.pop()
        shape = "list" if len(out) != 1 else draw(st.sampled_from(["str", "str", "list"]))
        drop = st.sampled_from(["", "", "all", "some"])
        node = {
            "id": j, "kind": kind, "in": ins, "req": reqs, "out": out, "style": style, "shape": shape,
            "value": draw(st.sampled_from(VALUES)),
            "setup": draw(st.sampled_from(["all", "all", "", "some"])), "finish": draw(st.sampled_from(["all", "all", "", "some"])),
            "stop": draw(st.integers(0, 5)) if not ins else draw(st.sampled_from([None, None, None, 0, 1, 2, 4])),
            "limit": draw(st.sampled_from([None, None, None, 1, 2, 3])),
            "drops": {str(i): d for i, d in enumerate(draw(st.lists(drop, max_size=5))) if d},
            "priority": draw(st.sampled_from([0, 0, 0, 1, -1, 10, -10, 100])),
        }
        if kind in ("input", "output"):
            node.update(setup="all", finish="all", drops={}, stop=node["stop"] if kind == "input" else None,
                        limit=node["limit"] if kind == "input" else None, value="obj" if kind == "input" else node["value"],
                        shape="str" if kind == "input" else shape)
        nodes.append(node)
        _, o = simulate(node, streams)
        for k, vals in zip(node["out"], o):
            if matches(pattern, k):
                streams[k] = vals
            else:
                streams[k] = []
    return {"nodes": nodes, "pattern": pattern, "order": draw(st.lists(st.integers(0, 1000), min_size=n, max_size=n)),
            "mode": draw(st.sampled_from(["yaml", "yaml", "python", "interactive"]))}


def legal_order(case):
    """A topological order of the tasks picked by the drawn numbers."""
    nodes = case["nodes"]
    maker = {k: n["id"] for n in nodes for k in n["out"]}
    todo, done, order = {n["id"]: n for n in nodes}, set(), []
    while todo:
        ready = [i for i, n in sorted(todo.items()) if all(maker[k] in done for k in [*n["in"], *n["req"]])]
        i = ready[case["order"][len(order)] % len(ready)]
        order.append(todo.pop(i))
        done.add(i)
    return order


# ---------------------------------------------------------------- execution


class World:
    """What really happened: every call, with its arguments as tokens."""

    def __init__(self):
        self.calls = {}
        self.keep, self.token = [], {}

    def new(self, tok, kind):
        import numpy as np

        v = {"array": lambda: np.arange(3) + len(self.keep), "falsy": list, "dict": lambda: {"t": list(tok)},
             "str": lambda: "-".join(str(t) for t in tok), "list": lambda: [tok, tok]}.get(kind, Val)()
        self.keep.append(v)
        self.token[id(v)] = tok
        return v

    def call(self, me, stage, args):
        self.calls.setdefault(me, []).append((stage, [self.token.get(id(a), ("unknown", repr(a))) for a in args]))


def make_class(world, node):
    from caput.pipeline import Task, exceptions

    class Node(Task):
        def _emit(self, stage, i, drop, args):
            if drop == "all":
                return None
            out = []
            for s in range(len(node["out"])):
                if drop == "some" and (s + i) % 2 == 0 and len(node["out"]) > 1:
                    out.append(None)
                elif node["value"] == "pass" and args and s == 0:
                    out.append(args[0])
                else:
                    out.append(world.new((node["id"], stage, i, s), node["value"]))
            if node["shape"] == "str":
                return out[0]
            if not out:
                return Val()
            return tuple(out) if node["style"] == "tuple" else out

        def setup(self, *args):
            world.call(node["id"], "setup", args)
            self.i = 0
            return self._emit("setup", 0, node["setup"], args)

        def next(self, *args):
            world.call(node["id"], "next", args)
            i = self.i
            self.i += 1
            if node["stop"] is not None and i >= node["stop"]:
                raise exceptions.PipelineStopIteration
            return self._emit("next", i, node["drops"].get(str(i), ""), args)

        def finish(self):
            world.call(node["id"], "finish", [])
            return self._emit("finish", 0, node["finish"], [])

    return Node


def key_of(keys, shape):
    return keys[0] if shape == "str" and len(keys) == 1 else list(keys)


def spec_of(node):
    spec = {}
    if node["in"]:
        spec["in"] = node["in"][0] if len(node["in"]) == 1 and node["priority"] % 3 else list(node["in"])
    if node["req"]:
        spec["requires"] = node["req"][0] if len(node["req"]) == 1 and node["priority"] % 3 else list(node["req"])
    if node["out"]:
        spec["out"] = key_of(node["out"], node["shape"])
    return spec


def execute(case):
    import logging
    import yaml

    from caput import pipeline
    from caput.pipeline import Manager, extensions, local_tasks

    logging.getLogger("caput").setLevel(logging.CRITICAL)
    world, order = World(), legal_order(case)
    special = any(n["kind"] != "task" for n in order)
    if case["mode"] == "yaml" and not special:
        doc = {"pipeline": {"logging": {"root": "ERROR"}, "tasks": []}}
        if case["pattern"] is not None:
            doc["pipeline"]["key_pattern"] = case["pattern"]
        names = []
        for node in order:
            name = f"vf_node_{node['id']}"
            local_tasks[name] = make_class(world, node)
            names.append(name)
            params = {"base_priority": node["priority"]}
            if node["limit"] is not None:
                params["limit_outputs"] = node["limit"]
            doc["pipeline"]["tasks"].append({"type": name, "params": params, **spec_of(node)})
        try:
            m = Manager.from_yaml_str(yaml.safe_dump(doc))
        finally:
            for name in names:
                local_tasks.pop(name, None)
    else:
        conf = {} if case["pattern"] is None else {"key_pattern": case["pattern"]}
        m = Manager.from_config(conf)
        outputs = {}
        for node in order:
            if node["kind"] == "input":
                vals = [world.new((node["id"], "next", i, 0), "obj") for i in range(node["stop"])]
                form = len(vals) + node["priority"]
                if form % 3 == 1:
                    import numpy as np

                    arr = np.empty(len(vals), dtype=object)
                    arr[:] = vals
                    t = extensions.Input(arr)
                elif form % 3 == 2:
                    t = extensions.Input(iter(vals))
                else:
                    t = extensions.Input(vals)
            elif node["kind"] == "output":
                if node["priority"] % 2:
                    t = extensions.Output(lambda x, i=node["id"]: world.call(i, "next", [x]))
                else:
                    t = extensions.Output()
                    outputs[node["id"]] = t
            else:
                t = make_class(world, node)()
            t.base_priority = node["priority"]
            if node["limit"] is not None:
                t.limit_outputs = node["limit"]
            s = spec_of(node)
            m.add_task(t, requires=s.get("requires"), in_=s.get("in"), out=s.get("out"))
        case["outputs"] = None
    tasks = list(m.tasks)
    if case["mode"] == "interactive":
        m.interactive = True
        steps = 0
        for _ in m.runner():
            steps += 1
            if steps > 5000:
                fail("the pipeline does not end")
    else:
        m.run()
    if not (case["mode"] == "yaml" and not special):
        for i, t in outputs.items():
            for x in t.outputs:
                world.call(i, "next", [x])
    case.pop("outputs", None)
    check(all(t is None for t in m.tasks) and len(m.tasks) == len(tasks), "the run ended with tasks left to do", left=str(m.tasks))
    return world


def run(case, ctx):
    nodes = case["nodes"]
    want = model(nodes, case["pattern"])
    world = execute(case)
    for n in nodes:
        got = [(s, [tuple(a) for a in args]) for s, args in world.calls.get(n["id"], [])]
        exp = [(s, [tuple(a) for a in args]) for s, args in want[n["id"]]]
        check(got == exp, "a task was not called as the streams of its inputs demand", task=n["id"], spec=spec_of(n), got=got, want=exp)
    total = sum(len(c) for c in want.values())
    consumers = {}
    for n in nodes:
        for k in n["in"]:
            consumers[k] = consumers.get(k, 0) + 1
    labels = {
        f"mode={case['mode']}": True, "fan-out": any(v > 1 for v in consumers.values()), "requires": any(n["req"] for n in nodes),
        "several inputs": any(len(n["in"]) > 1 for n in nodes), "several outputs": any(len(n["out"]) > 1 for n in nodes),
        "stops early": any(n["in"] and n["stop"] is not None for n in nodes), "limit": any(n["limit"] for n in nodes),
        "never set up": any(n["req"] and want[n["id"]][0][0] == "finish" for n in nodes if want[n["id"]]),
        "pattern": case["pattern"] is not None, "passes on": any(n["value"] == "pass" for n in nodes),
    }
    return Info(total > 3 and any(n["in"] for n in nodes), [k for k, v in labels.items() if v])


# ---------------------------------------------------------------- all orders and priorities give the same


@st.composite
def again(draw):
    case = draw(graph(6))
    n = len(case["nodes"])
    return {"graph": case, "others": draw(st.lists(st.fixed_dictionaries({
        "order": st.lists(st.integers(0, 1000), min_size=n, max_size=n), "mode": st.sampled_from(["yaml", "python", "interactive"]),
        "priority": st.lists(st.integers(-50, 50), min_size=n, max_size=n)}), min_size=1, max_size=3))}


def run_again(case, ctx):
    base = case["graph"]
    first = execute(dict(base)).calls
    for other in case["others"]:
        c = dict(base, order=other["order"], mode=other["mode"],
                 nodes=[dict(n, priority=p) for n, p in zip(base["nodes"], other["priority"])])
        got = execute(c).calls
        check(got == first, "the outcome depends on the order of the tasks, their priorities or the way they are run",
              first=first, got=got)
    return Info(sum(map(len, first.values())) > 4, ["orders"])


# ---------------------------------------------------------------- wrong numbers of outputs


@st.composite
def outputs(draw):
    return {"keys": draw(st.integers(1, 3)), "shape": draw(st.sampled_from(["str", "list"])),
            "give": draw(st.integers(0, 4)), "style": draw(st.sampled_from(["tuple", "list"])),
            "value": draw(st.sampled_from(["obj", "array", "str", "list", "dict"])),
            "stage": draw(st.sampled_from(["setup", "next", "finish"]))}


def run_outputs(case, ctx):
    """A stage that gives the wrong number of outputs is reported, and nothing is passed on."""
    from caput.pipeline import Manager, Task, exceptions, extensions

    world = World()
    keys = [f"k{i}" for i in range(case["keys"])]
    one = case["keys"] == 1 and case["shape"] == "str"
    vals = [world.new((0, case["stage"], 0, i), case["value"]) for i in range(case["give"])]
    # given one at a time, or as the sequence the keys ask for
    ret = (vals[0] if vals else None) if one else (tuple(vals) if case["style"] == "tuple" else vals)

    class Maker(Task):
        ran = False

        def setup(self):
            return ret if case["stage"] == "setup" else None

        def next(self):
            if self.ran:
                raise exceptions.PipelineStopIteration
            self.ran = True
            return ret if case["stage"] == "next" else None

        def finish(self):
            return ret if case["stage"] == "finish" else None

    m = Manager()
    m.add_task(Maker(), out=keys[0] if one else keys)
    outs = []
    for k in keys:
        t = extensions.Output()
        m.add_task(t, in_=k)
        outs.append(t)
    bad = not one and case["give"] != case["keys"]
    try:
        m.run()
    except exceptions.PipelineRuntimeError as e:
        check(bad, "a stage with the right number of outputs was rejected", error=str(e))
        check(not any(t.outputs for t in outs), "outputs of the wrong number were passed on")
    else:
        check(not bad, "a stage with the wrong number of outputs went unnoticed", delivered=[len(t.outputs) for t in outs])
        for i, t in enumerate(outs):
            want = vals[i : i + 1]
            check(len(t.outputs) == len(want) and all(a is b for a, b in zip(t.outputs, want)), "an output was not delivered")
    return Info(case["give"] > 0, ["bad" if bad else "good", case["stage"]])


def run_mpi(case, ctx):
    info = run(case, ctx)
    return info


PARTS = [
    Part("graphs", lambda: graph(), run, quick=1500, shards=4, rule="at least one task consumes and more than 3 calls are made"),
    Part("orders", lambda: again(), run_again, quick=400, shards=2, rule="more than 4 calls are made"),
    Part("outputs", outputs, run_outputs, quick=300, shards=1, rule="something is given"),
    Part("mpi", lambda: graph(5), run_mpi, quick=60, ranks=[2], rule="at least one task consumes and more than 3 calls are made"),
]
