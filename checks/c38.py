"""C38: log messages appear from the processes and at the levels configured."""

import logging

from hypothesis import strategies as st

from vf.core import Info, Part, check

PROPERTY = "C38"
EXTS = {"invert": "fast", "weighted": "fast", "truncate": "full"}
ASSUMPTIONS = ["a number is taken as a level as it is"]

NAMES = {"DEBUG": 10, "INFO": 20, "WARN": 30, "WARNING": 30, "ERROR": 40, "CRITICAL": 50}
CASES = [str.upper, str.lower, str.capitalize]
LEV = st.sampled_from([5, 10, 15, 20, 25, 30, 35, 40, 50])


class Grab(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.out = []

    def emit(self, record):
        self.out.append((record.getMessage(), self.format(record), record))


def quiet():
    """The state of the logging module, to restore."""
    root = logging.getLogger()
    return (list(root.handlers), root.level, {n: (lg.level, lg.propagate, list(lg.handlers)) for n, lg in logging.Logger.manager.loggerDict.items()
                                               if isinstance(lg, logging.Logger)})


def restore(s):
    root = logging.getLogger()
    root.handlers[:] = s[0]
    root.setLevel(s[1])
    for n, lg in logging.Logger.manager.loggerDict.items():
        if isinstance(lg, logging.Logger):
            lv, pr, hs = s[2].get(n, (0, True, []))
            lg.setLevel(lv)
            lg.propagate = pr
            lg.handlers[:] = hs
    logging.captureWarnings(False)


# ---------------------------------------------------------------- the filter
@st.composite
def filters(draw):
    return {"r0": draw(st.one_of(st.none(), LEV)), "all": draw(st.one_of(st.none(), LEV)), "info": draw(st.sampled_from([None, True, False])),
            "comm": draw(st.sampled_from([None, "world", "self"])),
            "msgs": draw(st.lists(st.tuples(LEV, st.sampled_from([None, None, 0, 1, 2])).map(list), min_size=1, max_size=6))}


def run_filter(c, ctx):
    from mpi4py import MPI

    from caput.util.mpitools import MPILogFilter

    kw = {}
    if c["r0"] is not None:
        kw["level_rank0"] = c["r0"]
    if c["all"] is not None:
        kw["level_all"] = c["all"]
    if c["info"] is not None:
        kw["add_mpi_info"] = c["info"]
    rank, size = ctx.rank, ctx.size
    if c["comm"] == "world":
        kw["comm"] = MPI.COMM_WORLD
    elif c["comm"] == "self":
        kw["comm"] = MPI.COMM_SELF
        rank, size = 0, 1
    h = Grab()
    h.addFilter(MPILogFilter(**kw))
    lg = logging.Logger("vf.filter", 1)
    lg.addHandler(h)
    r0 = logging.INFO if c["r0"] is None else c["r0"]
    al = logging.WARNING if c["all"] is None else c["all"]
    want = []
    for i, (lv, rk) in enumerate(c["msgs"]):
        lg.log(lv, "m%d", i, extra={} if rk is None else {"mpi_rank": rk, "mpi_size": 7})
        r = rank if rk is None else rk
        if lv >= (r0 if r == 0 else al):
            want.append((f"m{i}", r, size if rk is None else 7, rk))
    got = h.out
    check([g[0] for g in got] == [w[0] for w in want], "rank %d emitted %s, expected %s", rank, [g[0] for g in got], [w[0] for w in want])
    for g, w in zip(got, want):
        rec = g[2]
        check(abs(rec.elapsedTime - rec.relativeCreated / 1000) < 1e-6, "elapsed time %s of a message created after %s ms", rec.elapsedTime, rec.relativeCreated)
        if c["info"] is False and w[3] is None:
            check(not hasattr(rec, "mpi_rank"), "a rank was added")
        else:
            check((rec.mpi_rank, rec.mpi_size) == (w[1], w[2]), "message with rank %s of %s, expected %s", rec.mpi_rank, rec.mpi_size, w[1:3])
    return Info(0 < len(want) < len(c["msgs"]), ["comm " + str(c["comm"])])


# ---------------------------------------------------------------- the pipeline: tasks and modules
@st.composite
def name(draw, names):
    return draw(st.sampled_from(CASES))(draw(st.sampled_from(names)))


@st.composite
def pipes(draw):
    conf = ["DEBUG", "INFO", "WARNING", "ERROR"]
    bad = draw(st.sampled_from([None, None, None, None, None, "module", "task", "mpi"]))
    lg = draw(st.one_of(st.none(), name(conf), st.dictionaries(st.sampled_from(["root", "vf_log.a", "vf_log.a.b", "vf_log.c"]), name([*conf, "NOTSET"]), max_size=4)))
    lev = st.one_of(st.none(), name(list(NAMES)), LEV)
    return {"logging": lg, "lint": draw(st.integers(0, 3)) == 0, "bad": bad, "badlevel": draw(st.sampled_from(["LOUD", "", "info!", "Fatale"])),
            "tasks": [draw(lev) for _ in range(draw(st.integers(0, 3)))],
            "mpi": draw(st.sampled_from([None, {"level_rank0": draw(lev), "level_all": draw(lev)}])),
            "msgs": draw(st.lists(LEV, min_size=1, max_size=5))}


def lvl(v, default=None):
    return default if v is None else NAMES[v.upper()] if isinstance(v, str) else v


def run_pipe(c, ctx):
    import yaml

    from caput.pipeline import Manager
    from caput.pipeline import _pipeline as pp
    from caput.pipeline.exceptions import PipelineStopIteration
    from caput.pipeline.tasklib.base import LoggedTask, MPILoggedTask, SetMPILogging

    state = quiet()
    root = logging.getLogger()
    h = Grab()
    root.handlers[:] = [h]
    try:
        tasks, classes = [], []
        if c["mpi"] is not None:
            p = {k: v for k, v in c["mpi"].items() if v is not None}
            if c["bad"] == "mpi":
                p["level_all"] = c["badlevel"]
            tasks.append({"type": "VfSet", "params": p})
        for i, lv in enumerate(c["tasks"]):
            base = LoggedTask if i == 1 and c["mpi"] is None else MPILoggedTask

            def nxt(self):
                for j, m in enumerate(c["msgs"]):
                    self.log.log(m, "%s-%d", type(self).__name__, j)
                raise PipelineStopIteration

            cls = type(f"Vf{i}", (base,), {"next": nxt, "__module__": "vf_log.tasks"})
            classes.append(cls)
            pp.local_tasks[f"Vf{i}"] = cls
            par = {} if lv is None else {"log_level": lv}
            if c["bad"] == "task" and i == 0:
                par = {"log_level": c["badlevel"]}
            tasks.append({"type": f"Vf{i}", "params": par})
        pp.local_tasks["VfSet"] = SetMPILogging
        conf = {"tasks": tasks}
        if c["logging"] is not None:
            conf["logging"] = c["logging"]
        if c["bad"] == "module":
            conf["logging"] = {"root": "ERROR", "vf_log.c": c["badlevel"]}
        refuse = c["bad"] == "module" or (c["bad"] == "task" and c["tasks"]) or (c["bad"] == "mpi" and c["mpi"] is not None)
        try:
            m = Manager.from_yaml_str(yaml.dump({"pipeline": conf}), lint=c["lint"])
        except Exception as exc:  # noqa: BLE001
            check(refuse, "valid levels were refused: %r", exc)
            return Info(True, ["refused"])
        check(not refuse, "the level %r was accepted (%s)", c["badlevel"], c["bad"])
        lv = c["logging"]
        want = {"root": "WARNING"} if lv is None else {"root": lv} if isinstance(lv, str) else dict(lv)
        if c["lint"] or "root" not in want:
            want["root"] = "INFO"
        for n, x in want.items():
            lgr = logging.getLogger() if n == "root" else logging.getLogger(n)
            w = 0 if x.upper() == "NOTSET" else NAMES[x.upper()]
            check(lgr.level == w, "the level of %s is %s, configured %s", n, lgr.level, x)
        h.out.clear()
        rootlevel = root.level
        m.run()
        got = [(g[0], g[1], g[2]) for g in h.out if g[2].name.startswith("vf_log.tasks")]
        exp = []
        for i, x in enumerate(c["tasks"]):
            base = lvl(x, rootlevel)
            if base == 0:
                base = rootlevel
            for j, mm in enumerate(c["msgs"]):
                ok = mm >= base
                if c["mpi"] is not None:
                    ok = ok and mm >= (lvl(c["mpi"]["level_rank0"], 20) if ctx.rank == 0 else lvl(c["mpi"]["level_all"], 30))
                if ok:
                    exp.append(f"Vf{i}-{j}")
        check(sorted(g[0] for g in got) == sorted(exp), "rank %d emitted %s, expected %s", ctx.rank, [g[0] for g in got], exp)
        for msg, line, rec in got:
            if c["mpi"] is not None or rec.name != "vf_log.tasks.Vf1":
                check((rec.mpi_rank, rec.mpi_size) == (ctx.rank, ctx.size), "message from rank %s of %s, on %d", rec.mpi_rank, rec.mpi_size, ctx.rank)
            check(msg in line, "the line %r does not hold the message %s", line, msg)
            if c["mpi"] is not None:
                check(f"{ctx.rank}/{ctx.size}" in line.replace(" ", "") and rec.levelname in line, "the line %r does not tell the rank or level", line)
        return Info(bool(c["tasks"]) and 0 < len(exp) < len(c["tasks"]) * len(c["msgs"]), ["mpi" if c["mpi"] is not None else "plain", "lint" if c["lint"] else "run"])
    finally:
        for i in range(3):
            pp.local_tasks.pop(f"Vf{i}", None)
        pp.local_tasks.pop("VfSet", None)
        restore(state)


PARTS = [
    Part("filter", filters, run_filter, quick=250, ranks=[1, 3], rule="some messages appear and some do not"),
    Part("pipeline", pipes, run_pipe, quick=250, ranks=[1, 2], rule="some messages of tasks appear and some do not, or a level is refused"),
]
