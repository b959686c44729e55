"""C39: profiling leaves the profiled code alone and records it where asked."""

import contextlib
import csv
import os
import shutil

from hypothesis import strategies as st

from vf.core import Info, Part, check

PROPERTY = "C39"
EXTS = {"invert": "fast", "weighted": "fast", "truncate": "full"}
ASSUMPTIONS = ["the times and the sizes of memory which a profile reports are not checked",
               "IO is counted by the operating system; files written by Python itself add to it"]


class Failure(Exception):
    """What a profiled block raises."""


class Leave(BaseException):
    """One which is not an Exception."""


class Comm:
    """All a profiler uses of a communicator."""

    def __init__(self, rank, size):
        self.rank, self.size = rank, size


def work(n):
    """A function called a known number of times."""
    return sum(leaf(i) for i in range(n))


def leaf(i):
    return i * i


@contextlib.contextmanager
def fast_sleep():
    """The resource profiler polls twice a second: poll faster."""
    import time

    sleep = time.sleep
    time.sleep = lambda t: sleep(min(t, 0.002))
    try:
        yield
    finally:
        time.sleep = sleep


@contextlib.contextmanager
def place(ctx, dirs):
    where = os.path.join(ctx.scratch, f"p{ctx.n}")
    shutil.rmtree(where, ignore_errors=True)
    for d in dirs:
        os.makedirs(os.path.join(where, d))
    old = os.getcwd()
    os.chdir(os.path.join(where, "cwd"))
    try:
        yield where
    finally:
        os.chdir(old)
        shutil.rmtree(where, ignore_errors=True)


def files(where):
    return sorted(os.path.relpath(os.path.join(r, f), where) for r, _, fs in os.walk(where) for f in fs)


PLACES = {None: "cwd", "abs": "out", "rel": "cwd/sub", "dot": "cwd", "up": "other dir"}


def given(where, how, aspath):
    from pathlib import Path

    p = {None: None, "abs": os.path.join(where, "out"), "rel": "sub", "dot": ".", "up": "../other dir"}[how]
    return Path(p) if aspath and p is not None else p


DIRS = ["cwd/sub", "out", "other dir"]
RAISES = [None, None, None, "Failure", "Leave", "SystemExit", "KeyboardInterrupt"]
EXC = {"Failure": Failure, "Leave": Leave, "SystemExit": SystemExit, "KeyboardInterrupt": KeyboardInterrupt}

# ---------------------------------------------------------------- profiles of the code


@st.composite
def profiles(draw):
    size = draw(st.sampled_from([None, None, 1, 2, 9, 10, 11, 99, 100, 128]))
    blocks = draw(st.lists(st.fixed_dictionaries({"n": st.integers(0, 20), "raises": st.sampled_from(RAISES)}), min_size=1, max_size=2))
    return {"profiler": draw(st.sampled_from(["cprofile", "cprofile", "pyinstrument", "other", "cProfile"])), "on": draw(st.sampled_from([True, True, True, False])),
            "size": size, "rank": draw(st.integers(0, (size or 1) - 1)), "path": draw(st.sampled_from(list(PLACES))), "aspath": draw(st.booleans()),
            "blocks": blocks, "moves": draw(st.integers(0, 3)) == 0}


def run_profile(c, ctx):
    import pstats

    from caput.util.profiler import Profiler

    comm = None if c["size"] is None else Comm(c["rank"], c["size"])
    with place(ctx, DIRS) as where:
        kw = {"path": given(where, c["path"], c["aspath"])} if c["path"] is not None or c["aspath"] else {}
        try:
            p = Profiler(c["on"], profiler=c["profiler"], comm=comm, **kw)
        except ValueError:
            check(c["profiler"] not in ("cprofile", "pyinstrument"), "a profiler was refused", profiler=c["profiler"])
            check(files(where) == [], "files were written", got=files(where))
            return Info(False, ["refused"])
        check(c["profiler"] in ("cprofile", "pyinstrument"), "an unknown profiler was accepted", profiler=c["profiler"])
        check(files(where) == [], "files were written before anything ran", got=files(where))
        width = len(str(c["size"])) if c["size"] else 1
        name = f"profile_{c['rank']:0{width}}." + ("prof" if c["profiler"] == "cprofile" else "txt")
        want = os.path.join(PLACES[c["path"]], name)
        for b in c["blocks"]:
            got, err = None, None
            try:
                with p:
                    if c["moves"] and c["path"] == "abs":
                        os.chdir(where)
                    got = work(b["n"])
                    if b["raises"]:
                        raise EXC[b["raises"]]("x")
            except BaseException as e:
                err = e
            os.chdir(os.path.join(where, "cwd"))
            check(got == sum(i * i for i in range(b["n"])), "profiling changed a result", got=got, case=b)
            check((type(err) is EXC[b["raises"]] and err.args == ("x",)) if b["raises"] else err is None, "profiling changed what is raised", got=repr(err), want=b["raises"])
            check(files(where) == ([want] if c["on"] else []), "not exactly the profile of this process was written", got=files(where), want=want if c["on"] else "none",
                  path=c["path"])
            if c["on"]:
                check(os.path.getsize(os.path.join(where, want)) > 0, "an empty profile")
            if c["on"] and c["profiler"] == "cprofile":
                st_ = pstats.Stats(os.path.join(where, want)).stats
                calls = {k[2]: v[1] for k, v in st_.items() if os.path.basename(k[0]) == "c39.py"}
                # enabled profiles add up
                total = sum(x["n"] for x in c["blocks"][c["blocks"].index(b) : c["blocks"].index(b) + 1])
                check(calls.get("work") == 1 and calls.get("leaf", 0) == total, "the profile does not count the calls in the block", got=calls, want=total)
    return Info(c["on"] and c["path"] not in (None, "dot"), [c["profiler"], "on" if c["on"] else "off", str(c["path"]), *(["raised"] if any(b["raises"] for b in c["blocks"]) else [])])


# ---------------------------------------------------------------- use of resources


@st.composite
def usages(draw):
    label = st.one_of(st.sampled_from(["a", "task-label", ""]), st.text('ab,;" \n\'é', max_size=8))
    nprof = draw(st.integers(1, 3))
    profs = [{"on": draw(st.sampled_from([True, True, True, False])), "label": draw(label), "comm": draw(st.none() | st.integers(0, 12)),
              "path": draw(st.sampled_from(list(PLACES))), "aspath": draw(st.booleans()), "log": draw(st.booleans())} for _ in range(nprof)]
    blocks = [{"p": draw(st.integers(0, nprof - 1)), "write": draw(st.sampled_from([0, 0, 10, 100000])), "raises": draw(st.sampled_from(RAISES)),
               "how": draw(st.sampled_from(["with", "with", "start"]))} for _ in range(draw(st.integers(0, 5)))]
    return {"profs": profs, "blocks": blocks, "early": draw(st.integers(0, 3)) == 0, "bad": draw(st.sampled_from([None, None, None, "missing", "file"]))}


COLS = ["task_name", "time_s", "cpu_times_user", "cpu_times_system", "cpu_times_children_user", "cpu_times_children_system", "cpu_times_iowait",
        "average_cpu_load_percent", "disk_io_read_count", "disk_io_write_count", "disk_io_read_bytes", "disk_io_write_bytes", "disk_io_read_chars",
        "disk_io_write_chars", "memory_change_uss", "current_available_memory_bytes", "current_total_used_memory_bytes", "peak_used_memory_bytes"]


def run_usage(c, ctx):
    import logging
    import time

    from caput.util.profiler import PSUtilProfiler

    log = logging.getLogger("vf.profiler")
    log.setLevel(logging.CRITICAL)
    with place(ctx, DIRS) as where, fast_sleep():
        if c["bad"]:
            if c["bad"] == "file":
                with open("afile", "w"):
                    pass
            try:
                PSUtilProfiler(True, "x", path="afile" if c["bad"] == "file" else "nodir")
            except ValueError:
                pass
            else:
                check(False, "a path which is not a directory was accepted", path=c["bad"])
            if c["bad"] == "file":
                os.remove("afile")
            check(files(where) == [], "files were written", got=files(where))
        ps, want = [], {}
        for q in c["profs"]:
            kw = {} if q["comm"] is None else {"comm": Comm(q["comm"], 13)}
            if q["path"] is not None:
                kw["path"] = given(where, q["path"], q["aspath"])
            if q["log"]:
                kw["logger"] = log
            ps.append(PSUtilProfiler(q["on"], q["label"], **kw))
            if q["on"]:
                want.setdefault(os.path.join(PLACES[q["path"]], f"perf_{q['comm'] or 0}.csv"), [])
        if c["early"]:
            try:
                ps[0].stop()
            except RuntimeError:
                pass
            else:
                check(False, "a profile was stopped before it was started")
        for i, b in enumerate(c["blocks"]):
            p, q = ps[b["p"]], c["profs"][b["p"]]
            err, t = None, time.time()
            if b["how"] == "start" and q["on"]:
                p.start()
                with open(os.path.join(where, "data"), "wb") as f:
                    f.write(b"x" * b["write"])
                p.stop()
            else:
                try:
                    with p:
                        with open(os.path.join(where, "data"), "wb") as f:
                            f.write(b"x" * b["write"])
                        if b["raises"]:
                            raise EXC[b["raises"]]("x")
                except BaseException as e:
                    err = e
                check((type(err) is EXC[b["raises"]] and err.args == ("x",)) if b["raises"] else err is None, "profiling changed what is raised", got=repr(err), want=b["raises"])
            t = time.time() - t
            os.remove(os.path.join(where, "data"))
            u = p.usage
            if not q["on"]:
                check(u == {}, "there is a profile although there should be none", got=u)
                continue
            check(u["task_name"] == q["label"] and 0 <= u["time_s"] <= t + 1e-3, "the profile of a block", got=u, took=t)
            check(u["disk_io"].get("write_chars", b["write"]) >= b["write"], "the profile misses output of the block", got=u["disk_io"], wrote=b["write"])
            want[os.path.join(PLACES[q["path"]], f"perf_{q['comm'] or 0}.csv")].append((q["label"], u))
            check(not p._monitor_thread.is_alive() if hasattr(p, "_monitor_thread") else True, "monitoring goes on after the block")
        check(files(where) == sorted(want), "not the files asked for were written", got=files(where), want=sorted(want))
        for name, rows in want.items():
            with open(os.path.join(where, name), newline="") as f:
                got = list(csv.reader(f))
            check(got[:1] == [COLS], "the heading of a profile", got=got[:1])
            check([r[0] for r in got[1:]] == [r[0] for r in rows], "there is not one row for each profiled block, in order", got=got[1:], want=[r[0] for r in rows])
            for r, (_, u) in zip(got[1:], rows):
                check(len(r) == len(COLS), "an incomplete row", got=r)
                d = dict(zip(COLS, r))
                check(float(d["time_s"]) == u["time_s"] and float(d["average_cpu_load_percent"]) == u["cpu_percent"], "times in a row", got=d, want=u)
                for k, v in [(f"cpu_times_{x}", u["cpu_times"][x]) for x in ("user", "system", "children_user", "children_system", "iowait")] + [
                        (f"disk_io_{x}", u["disk_io"][x]) for x in ("read_count", "write_count", "read_bytes", "write_bytes", "read_chars", "write_chars")] + [
                        ("memory_change_uss", u["memory"]), ("current_available_memory_bytes", u["available_memory"]),
                        ("current_total_used_memory_bytes", u["used_memory"]), ("peak_used_memory_bytes", u["peak_memory"])]:
                    check(float(d[k]) == float(v), "a row differs from the profile", column=k, got=d[k], want=v)
    return Info(sum(len(r) for r in want.values()) > 1, ["shared file" if len(want) < sum(q["on"] for q in c["profs"]) else "own files",
                                                         *(["raised"] if any(b["raises"] for b in c["blocks"]) else [])])


# ---------------------------------------------------------------- input and output


@st.composite
def ios(draw):
    amount = st.sampled_from([0, 1, 1000, 300000])
    return {"before": draw(amount), "blocks": draw(st.lists(st.fixed_dictionaries({"write": amount, "read": amount, "after": amount, "raises": st.sampled_from(RAISES)}), min_size=1, max_size=3)),
            "log": draw(st.booleans())}


def run_io(c, ctx):
    import logging

    from caput.util.profiler import IOUsage

    said = []

    class Keep(logging.Handler):
        def emit(self, r):
            said.append(r.getMessage())

    log = logging.getLogger("vf.io")
    log.handlers, log.propagate = [Keep()], False
    log.setLevel(logging.INFO)

    def put(n):
        with open("data", "wb") as f:
            f.write(b"x" * n)

    def take(n):
        with open("src", "rb") as f:
            f.read(n)

    slack = 50000  # reading the counters is IO as well
    with place(ctx, DIRS):
        with open("src", "wb") as f:
            f.write(b"x" * 300000)
        u = IOUsage(log) if c["log"] else IOUsage()
        check(u.usage == {}, "there is a usage before anything ran")
        put(c["before"])
        for b in c["blocks"]:
            err = None
            del said[:]
            try:
                with u:
                    put(b["write"])
                    take(b["read"])
                    if b["raises"]:
                        raise EXC[b["raises"]]("x")
            except BaseException as e:
                err = e
            check(type(err) is EXC[b["raises"]] if b["raises"] else err is None, "profiling changed what is raised", got=repr(err), want=b["raises"])
            one = u.usage
            put(b["after"])
            check(u.usage == one, "later output is counted")
            check(b["write"] <= one["write_chars"] <= b["write"] + slack and b["read"] <= one["read_chars"] <= b["read"] + slack,
                  "the usage is not that of the block", got=one, wrote=b["write"], read=b["read"])
            one["write_chars"] = -1
            check(u.usage["write_chars"] >= 0, "the usage can be changed from outside")
            check(len(said) == (len(one) if c["log"] else 0), "what was logged", got=said)
            if c["log"]:
                check(all(any(f"({k})" in s and f" {v}" in s for s in said) for k, v in u.usage.items()), "a counter was not logged", got=said, want=u.usage)
    return Info(any(b["write"] for b in c["blocks"]) and (c["before"] > 0 or len(c["blocks"]) > 1), ["logged" if c["log"] else "silent"])


# ---------------------------------------------------------------- pipelines


@st.composite
def pipes(draw):
    return {"items": draw(st.integers(0, 3)), "stages": draw(st.integers(1, 3)), "psutil": draw(st.booleans()), "profile": draw(st.booleans()),
            "profiler": draw(st.sampled_from(["cprofile", "pyinstrument", "cProfile"])), "fail": draw(st.sampled_from([None, None, None, 0, 1, 2])), "twice": draw(st.integers(0, 3)) == 0}


def run_pipe(c, ctx):
    import logging

    import yaml

    from caput.pipeline import Task, exceptions, local_tasks
    from caput.pipeline.runner._core import run_pipeline

    logging.getLogger("caput").setLevel(logging.CRITICAL)
    seen, events = [], []

    class VFSource(Task):
        i = 0

        def next(self):
            events.append("VFSource")
            if self.i >= c["items"]:
                raise exceptions.PipelineStopIteration
            self.i += 1
            return self.i

    class VFStep(Task):
        def next(self, x):
            events.append("VFStep")
            if c["fail"] == x:
                raise Failure(x)
            return x * 10

    class VFSink(Task):
        def next(self, x):
            events.append("VFSink")
            seen.append(x)

    names = {"VFSource": VFSource, "VFStep": VFStep, "VFSink": VFSink}
    tasks = [{"type": "VFSource", "out": "k0"}]
    for i in range(c["stages"]):
        tasks.append({"type": "VFStep", "in": f"k{i}", "out": f"k{i + 1}"})
    tasks.append({"type": "VFSink", "in": f"k{c['stages']}"})
    with place(ctx, DIRS) as where, fast_sleep():
        with open("conf.yaml", "w") as f:
            yaml.safe_dump({"pipeline": {"logging": "ERROR", "tasks": tasks}}, f, sort_keys=False)
        rows = 0
        for _ in range(2 if c["twice"] else 1):
            del seen[:], events[:]
            err = None
            try:
                local_tasks.update(names)
                run_pipeline("conf.yaml", c["profile"], c["profiler"], False, c["psutil"])
            except Failure as e:
                err = e
            finally:
                for k in names:
                    local_tasks.pop(k, None)
            stop = c["fail"] if c["fail"] and c["fail"] <= c["items"] else None
            check((err is not None) == (stop is not None), "the failure of a task", got=repr(err), want=stop)
            want = [i * 10 ** c["stages"] for i in range(1, c["items"] + 1 if stop is None else stop)]
            # the failure may come before earlier items get through
            check(seen == want if stop is None else want[: len(seen)] == seen, "profiling changed what a pipeline delivers", got=seen, want=want)
            have = ["cwd/conf.yaml"]
            if c["profile"]:
                have.append("cwd/profile_0." + ("txt" if c["profiler"] == "pyinstrument" else "prof"))
            if c["psutil"]:
                have.append("cwd/perf_0.csv")
            check(files(where) == sorted(have), "not the profiles asked for", got=files(where), want=sorted(have))
            if c["psutil"]:
                with open("perf_0.csv", newline="") as f:
                    got = list(csv.reader(f))
                check(got[0] == COLS and all(len(r) == len(COLS) for r in got) and got.count(COLS) == 1, "heading and rows", got=got)
                new = [r[0] for r in got[1 + rows :]]
                rows = len(got) - 1
                # every call of a task is in the profile, in order
                at = 0
                for e in events:
                    while at < len(new) and e not in new[at]:
                        at += 1
                    check(at < len(new), "a call of a task is not in the profile", calls=events, got=new)
                    at += 1
    return Info(c["items"] > 0 and (c["psutil"] or c["profile"]), [*(["psutil"] if c["psutil"] else []), *([c["profiler"]] if c["profile"] else []), *(["failed"] if c["fail"] else [])])


PARTS = [
    Part("code", profiles, run_profile, quick=300, shards=2, rule="a profile is written to a directory which was asked for"),
    Part("resources", usages, run_usage, quick=200, shards=2, rule="at least two rows are written"),
    Part("io", ios, run_io, quick=200, shards=1, rule="a block writes, and there is IO outside it"),
    Part("pipelines", pipes, run_pipe, quick=100, shards=2, rule="a profiled pipeline has items"),
]
