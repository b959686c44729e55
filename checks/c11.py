"""C11: a file under construction never appears finished or is left broken."""

import os
import shutil
import sys
import warnings

from hypothesis import strategies as st

from vf.core import Info, Part, check

PROPERTY = "C11"
EXTS = {}
LEVEL = "fault_enumeration"
ASSUMPTIONS = ["rename within a directory is atomic, as POSIX file systems provide",
               "an existing directory (Zarr) output is not replaced: only files can be exchanged in one step",
               "a killed writer may leave its temporary file and lock marker; the next writer has to cope with them"]

EXC = {"ValueError": ValueError, "OSError": OSError, "KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit,
       "Stop": StopIteration, "FileNotFound": FileNotFoundError}


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["text", "text", "h5", "container", "zarr", "dir"]))
    n = draw(st.integers(1, 4))
    return {"kind": kind, "parts": draw(st.lists(st.integers(0, 400), min_size=n, max_size=n)),
            "old": draw(st.sampled_from([None, "short", "long"])) if kind not in ("zarr", "dir") else None,
            "preserve": draw(st.booleans()), "exc": draw(st.sampled_from(sorted(EXC))),
            "name": draw(st.sampled_from(["out.h5", "noext", "a.b.c", "with space.h5", ".hidden", "ünï.h5", "x.tmp"])),
            "where": draw(st.sampled_from(["cwd", "rel", "abs", "deep"])), "comm": draw(st.sampled_from([None, None, "self"])),
            "stale": draw(st.booleans()), "other": draw(st.booleans())}


def steps(c, fn):
    """The writer as a list of actions on the name it is given."""
    import h5py
    import numpy as np
    import zarr

    from caput import memdata as md

    k = c["kind"]
    out = []
    if k == "text":
        box = {}

        def first():
            box["f"] = open(fn, "w")
        out.append(first)
        for p in c["parts"]:
            out.append(lambda p=p: (box["f"].write("x%d" % p * (p + 1)), box["f"].flush()))
        out.append(lambda: box["f"].close())
        return out, lambda: box.get("f") and box["f"].close()
    if k == "h5":
        box = {}

        def first():
            box["f"] = h5py.File(fn, "w")
        out.append(first)
        for i, p in enumerate(c["parts"]):
            out.append(lambda i=i, p=p: box["f"].create_dataset("d%d" % i, data=np.arange(p)))
        out.append(lambda: box["f"].close())
        return out, lambda: box.get("f") and box["f"].close()
    if k == "container":
        g = md.MemDiskGroup()
        for i, p in enumerate(c["parts"]):
            g.create_dataset("d%d" % i, data=np.arange(p))
        return [lambda: None, lambda: g.save(fn), lambda: None], lambda: None
    if k == "zarr":
        box = {}

        def first():
            box["f"] = zarr.open_group(fn, mode="w")
        out.append(first)
        for i, p in enumerate(c["parts"]):
            out.append(lambda i=i, p=p: box["f"].create_dataset("d%d" % i, data=np.arange(p)))
        return out, lambda: None
    out.append(lambda: shutil.rmtree(fn, ignore_errors=True))
    out.append(lambda: os.makedirs(os.path.join(fn, "sub")))
    for i, p in enumerate(c["parts"]):
        out.append(lambda i=i, p=p: open(os.path.join(fn, "sub", str(i)), "w").write("y" * p))
    return out, lambda: None


def state(path):
    """Everything at path: None, bytes, or {relative name: bytes}."""
    if os.path.isdir(path):
        return {os.path.relpath(os.path.join(d, f), path): open(os.path.join(d, f), "rb").read()
                for d, _, fs in os.walk(path) for f in fs}
    try:
        fd = os.open(path, os.O_RDONLY)
    except FileNotFoundError:
        return None
    try:
        out = b""
        while True:
            b = os.read(fd, 1 << 16)
            if not b:
                return out
            out += b
    finally:
        os.close(fd)


_watch = []
_hooked = []


def _audit(event, args):
    if _watch and event.split(".")[0] in ("os", "shutil", "open", "pathlib") and not _watch[-1].busy:
        _watch[-1].look(event)


class Watch:
    """Looks at the file system at every line of the code under test and at every file operation."""

    def __init__(self, final, lock, old):
        self.final, self.lock, self.old = final, lock, old
        self.busy = False
        self.seen = []  # (where, final's state, lock exists)
        self.phase = "enter"

    def look(self, where):
        self.busy = True
        try:
            s, l = state(self.final), os.path.exists(self.lock)
            if not self.seen or self.seen[-1][1:] != (self.phase, s, l):
                self.seen.append((where, self.phase, s, l))
        finally:
            self.busy = False

    def trace(self, frame, event, arg):
        f = frame.f_code.co_filename
        if "caput" in f and "memdata" in f and f.endswith("_io.py"):
            def local(fr, ev, a):
                if not self.busy:
                    self.look("line %d" % fr.f_lineno)
                return local
            return local
        return None

    def __enter__(self):
        if not _hooked:
            sys.addaudithook(_audit)
            _hooked.append(1)
        _watch.append(self)
        self.prev = sys.gettrace()
        sys.settrace(self.trace)
        return self

    def __exit__(self, *a):
        sys.settrace(self.prev)
        _watch.pop()


def once(c, ctx, d, fail_at, die=False):
    """Run the writer in directory d with a fault before step fail_at (None: none). Returns its number of steps."""
    from mpi4py import MPI

    from caput.memdata import lock_file

    if c["where"] == "deep":
        base = os.path.join(d, "p", "q")
    else:
        base = d
    os.makedirs(base, exist_ok=True)
    real = os.path.join(base, c["name"])
    arg = c["name"] if c["where"] == "cwd" else os.path.join("..", os.path.basename(d), c["name"]) if c["where"] == "rel" else real
    old = {"short": b"old", "long": b"previous" * 999, None: None}[c["old"]]
    if old is not None:
        with open(real, "wb") as f:
            f.write(old)
    neighbour = os.path.join(base, "neighbour")
    with open(neighbour, "w") as f:
        f.write("here")
    before = set(os.listdir(base))
    cwd = os.getcwd()
    os.chdir(base)
    try:
        lf = lock_file(arg, preserve=c["preserve"], comm=MPI.COMM_SELF if c["comm"] else None)
        tmp, lock = os.path.abspath(lf.tmpfile), os.path.abspath(lf.lockfile)
        check(len({tmp, lock, real}) == 3, "the temporary, lock and final names are not distinct: %s %s %s", tmp, lock, real)
        check(os.path.dirname(tmp) == os.path.dirname(real), "the temporary file %s is in another directory than %s", tmp, real)
        if c["stale"]:
            # a previous writer was killed
            open(lock, "w").close()
            if c["kind"] in ("zarr", "dir"):
                os.makedirs(os.path.join(tmp, "junk"))
            else:
                with open(tmp, "w") as f:
                    f.write("junk" * 2000)
        exc = EXC[c["exc"]]
        raised = None
        nsteps = 0
        complete = None
        with Watch(real, lock, old) as w:
            try:
                with lf as fn:
                    w.phase = "write"
                    w.look("entered")
                    check(os.path.abspath(fn) == tmp, "the writer is given %s, not %s", fn, tmp)
                    todo, close = steps(c, fn)
                    nsteps = len(todo)
                    try:
                        for i, s in enumerate(todo):
                            if fail_at == i:
                                if die:
                                    os._exit(77)
                                raise exc("injected")
                            s()
                            w.look("step %d" % i)
                        if fail_at == nsteps:
                            if die:
                                os._exit(77)
                            raise exc("injected")
                    finally:
                        close()
                        w.look("written")
                        complete = state(tmp)
                        w.phase = "exit"
                w.phase = "done"
                w.look("done")
            except BaseException as e:
                w.phase = "failed"
                w.look("failed")
                raised = e
        after = set(os.listdir(base))
        what = f"{c['kind']} fault at {fail_at} of {nsteps}"
        if fail_at is None:
            if raised is not None:
                raise raised
            check(state(real) == complete and complete is not None, "%s: the final content is not what was written", what)
            check(after == before | {c["name"]}, "%s: left %s", what, sorted(after - before))
            for where, phase, s, l in w.seen:
                if phase == "write":
                    check(s == old, "%s: the final name changed during the write, at %s", what, where)
                    check(l, "%s: no lock marker during the write, at %s", what, where)
                check(s in (old, complete), "%s: the final name shows something else at %s", what, where)
                if phase == "exit":
                    check(l or s == complete, "%s: the lock marker is gone before the output is complete, at %s", what, where)
            check(not os.path.exists(lock), "%s: the lock marker is left", what)
        else:
            check(raised is not None, "%s: the error was swallowed", what)
            check(type(raised) is exc and raised.args == ("injected",), "%s: got %r instead of the writer's error", what, raised)
            for where, phase, s, l in w.seen:
                check(s == old, "%s: the final name changed, at %s", what, where)
                if phase == "write":
                    check(l, "%s: no lock marker during the write, at %s", what, where)
            check(not os.path.exists(lock), "%s: the lock marker is left", what)
            kept = {os.path.basename(tmp)} if c["preserve"] else set()
            check(after - before <= kept, "%s: left %s", what, sorted(after - before))
            check(before <= after, "%s: removed %s", what, sorted(before - after))
            if c["preserve"] and fail_at >= 2:
                check(os.path.exists(tmp), "%s: the temporary file was not kept", what)
        check(open(neighbour).read() == "here", "another file was changed")
    finally:
        os.chdir(cwd)
    return nsteps


def run(c, ctx):
    warnings.simplefilter("ignore")
    root = os.path.join(ctx.scratch, "w")
    k = 0

    def fresh():
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(root)
        return root

    try:
        n = once(c, ctx, fresh(), None)
        for k in range(n + 1):
            once(c, ctx, fresh(), k)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return Info(n > 1, [c["kind"], "old" if c["old"] else "new", "preserve" if c["preserve"] else "remove", c["exc"]])


def run_kill(c, ctx):
    """The writer dies at a step; a second writer then does the work."""
    warnings.simplefilter("ignore")
    root = os.path.join(ctx.scratch, "k")
    c = dict(c, stale=False)
    old = {"short": b"old", "long": b"previous" * 999, None: None}[c["old"]]
    try:
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(root)
        n = 3 if c["kind"] == "container" else len(c["parts"]) + (2 if c["kind"] in ("text", "h5", "dir") else 1)
        for k in range(n + 1):
            d = os.path.join(root, str(k))
            os.makedirs(d)
            pid = os.fork()
            if pid == 0:
                try:
                    once(c, ctx, d, k, die=True)
                finally:
                    os._exit(3)
            _, status = os.waitpid(pid, 0)
            check(os.waitstatus_to_exitcode(status) == 77, "the writer did not get to step %d of %d", k, n)
            base = os.path.join(d, "p", "q") if c["where"] == "deep" else d
            check(state(os.path.join(base, c["name"])) == old, "killed at step %d: the final name changed", k)
            cwd = os.getcwd()
            os.chdir(base)
            try:
                from caput.memdata import lock_file

                with lock_file(c["name"]) as fn:
                    todo, close = steps(c, fn)
                    for s in todo:
                        s()
                    close()
                    want = state(fn)
                check(state(c["name"]) == want, "after a crash at step %d the next writer's output is wrong", k)
                check(set(os.listdir(".")) == {c["name"], "neighbour"}, "after a crash at step %d the next writer leaves %s", k, os.listdir("."))
            finally:
                os.chdir(cwd)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return Info(True, [c["kind"]])


# ---- several outputs under construction at once, and several processes on one output
class Comm:
    def __init__(self, rank, size):
        self.rank, self.size = rank, size

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size


NAMES = ["out.h5", "out.zarr", "out", "out.h5.h5", "out.json", ".out.h5", "out.lock", "x"]


@st.composite
def several(draw):
    n = draw(st.integers(1, 4))
    names = draw(st.lists(st.sampled_from(NAMES), min_size=n, max_size=n, unique=True))
    ops = draw(st.permutations([i for i in range(n) for _ in range(3)]))
    return {"names": names, "ops": ops, "fail": draw(st.lists(st.booleans(), min_size=n, max_size=n)),
            "old": draw(st.lists(st.booleans(), min_size=n, max_size=n)),
            "ranks": draw(st.lists(st.sampled_from([None, None, 1, 2, 3]), min_size=n, max_size=n)), "where": draw(st.sampled_from(["cwd", "abs"]))}


def run_several(c, ctx):
    from caput.memdata import lock_file

    warnings.simplefilter("ignore")
    root = os.path.join(ctx.scratch, "s")
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    cwd = os.getcwd()
    os.chdir(root)
    try:
        names = c["names"]
        locks = []
        for i, nm in enumerate(names):
            arg = nm if c["where"] == "cwd" else os.path.join(root, nm)
            # the writing process, and perhaps another rank of the same job
            r = c["ranks"][i]
            locks.append((lock_file(arg, comm=None if r is None else Comm(0, 4)), None if r is None else lock_file(arg, comm=Comm(r, 4))))
        used = [{os.path.basename(l.tmpfile), os.path.basename(l.lockfile), nm} for (l, _), nm in zip(locks, names)]
        # a hidden output or one named like a lock may coincide with the temporary of another: not asked for
        plain = all(not (used[i] & used[j]) for i in range(len(names)) for j in range(i))
        strange = {".out.h5", "out.lock"} & set(names)
        check(plain or strange, "outputs %s use common names: %s", names, used)
        if not plain:
            return Info(False, ["coinciding"])
        old = {}
        for i, nm in enumerate(names):
            if c["old"][i]:
                with open(nm, "w") as f:
                    f.write("old" + nm)
                old[nm] = b"old" + nm.encode()
        done = dict(old)
        at = [0] * len(names)
        tmps = [None] * len(names)

        def snap():
            return {f: state(f) for f in os.listdir(".")}

        for i in c["ops"]:
            l, other = locks[i]
            nm = names[i]
            if at[i] == 0:
                if other is not None:
                    before = snap()
                    t2 = other.__enter__()
                    check(snap() == before, "a rank other than 0 made %s", set(snap()) - set(before))
                tmps[i] = l.__enter__()
                check(os.path.splitext(tmps[i])[1] == os.path.splitext(nm)[1], "the writer of %s is given %s, of another type", nm, tmps[i])
                check(os.path.exists(l.lockfile), "no lock marker")
                if other is not None:
                    check(t2 == tmps[i], "the ranks are given different names: %s and %s", t2, tmps[i])
            elif at[i] == 1:
                with open(tmps[i], "w") as f:
                    f.write("new" + nm)
            else:
                if other is not None:
                    before = snap()
                    if c["fail"][i]:
                        check(not other.__exit__(ValueError, ValueError("x"), None), "error swallowed")
                    else:
                        check(not other.__exit__(None, None, None), "exit")
                    check(snap() == before, "a rank other than 0 changed files: %s, before %s", snap(), before)
                if c["fail"][i]:
                    check(not l.__exit__(ValueError, ValueError("x"), None), "error swallowed")
                else:
                    check(not l.__exit__(None, None, None), "exit")
                    done[nm] = b"new" + nm.encode()
                check(not os.path.exists(l.lockfile), "lock left")
            at[i] += 1
            # every output has its old content until its own writer is done, and other writers' files are untouched
            for j, other_nm in enumerate(names):
                check(state(other_nm) == done.get(other_nm), "%s: after an operation on %s it holds %r", other_nm, nm, state(other_nm))
                if 1 <= at[j] < 3:
                    check(os.path.exists(locks[j][0].lockfile), "the lock of %s is gone after an operation on %s", other_nm, nm)
                    want = b"new" + other_nm.encode() if at[j] == 2 else None
                    check(state(tmps[j]) == want, "the file being written for %s holds %r after an operation on %s", other_nm, state(tmps[j]), nm)
        check(set(os.listdir(".")) == set(done), "left %s, expected %s", os.listdir("."), sorted(done))
    finally:
        os.chdir(cwd)
        shutil.rmtree(root, ignore_errors=True)
    return Info(len(names) > 1 or c["ranks"][0] is not None, ["several" if len(names) > 1 else "one"])


PARTS = [
    Part("several", several, run_several, quick=250, shards=1,
         rule="up to four outputs with similar names written in a generated interleaving, some failing, some by two ranks; non-trivial: several outputs or ranks"),
    Part("faults", cases, run, quick=120, shards=4,
         rule="a generated writer run without a fault and then with a fault at each of its steps, observed at every line and file operation; non-trivial: more than one step"),
    Part("killed", cases, run_kill, quick=60, shards=2, rule="the same writers killed at each step, followed by a second writer; every case counts"),
]
