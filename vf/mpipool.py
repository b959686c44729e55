"""A pool of MPI ranks that run cases together (SPMD), driven over a socket."""

import json
import os
import select
import shutil
import signal
import socket
import subprocess
import tempfile
import time

from . import env
from .core import HarnessError

CASE_TIMEOUT = 40.0
CONFIRM_TIMEOUT = 90.0
GRACE = 4.0


class Pool:
    def __init__(self, module, part, size, scratch):
        self.module, self.part, self.size = module, part, size
        self.scratch = scratch
        self.proc = None
        self.conns = None
        self.n = 0

    def start(self):
        self.dir = tempfile.mkdtemp(prefix="pool", dir=self.scratch)
        path = os.path.join(self.dir, "s")
        srv = socket.socket(socket.AF_UNIX)
        srv.bind(path)
        srv.listen(64)
        srv.settimeout(180)
        self.log = open(os.path.join(self.dir, "log"), "wb")
        e = env.child_env({"TMPDIR": self.dir})
        cmd = ["mpirun", "--oversubscribe", "--bind-to", "none",
               "--mca", "orte_tmpdir_base", self.dir,
               "-np", str(self.size), env.PY, "-m", "vf.rank", self.module, self.part, path]
        self.proc = subprocess.Popen(
            cmd, env=e, cwd=self.dir, stdin=subprocess.DEVNULL, stdout=self.log,
            stderr=subprocess.STDOUT, start_new_session=True)
        conns = {}
        try:
            while len(conns) < self.size:
                c, _ = srv.accept()
                c.settimeout(120)
                f = c.makefile("rwb")
                r = json.loads(f.readline())
                conns[r["rank"]] = (c, f)
        except (TimeoutError, ValueError) as exc:
            tail = self.tail()
            self.stop()
            raise HarnessError(f"the MPI pool did not start: {exc}\n{tail}") from exc
        finally:
            srv.close()
        self.conns = [conns[i] for i in range(self.size)]

    def tail(self):
        try:
            with open(os.path.join(self.dir, "log"), "rb") as fh:
                return fh.read()[-3000:].decode(errors="replace")
        except OSError:
            return ""

    def stop(self):
        if self.proc is not None:
            for c, f in self.conns or []:
                try:
                    c.close()
                except OSError:
                    pass
            try:
                os.killpg(self.proc.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            self.proc.wait()
            self.log.close()
            shutil.rmtree(self.dir, ignore_errors=True)
        self.proc = None
        self.conns = None

    def _once(self, case, timeout):
        """Returns list of per-rank replies; None where a rank did not answer."""
        if self.proc is None:
            self.start()
        msg = (json.dumps(case) + "\n").encode()
        for c, f in self.conns:
            f.write(msg)
            f.flush()
        got = [None] * self.size
        pending = {self.conns[i][0].fileno(): i for i in range(self.size)}
        end = time.monotonic() + timeout
        dead = False
        while pending:
            left = end - time.monotonic()
            if left <= 0:
                break
            r, _, _ = select.select(list(pending), [], [], left)
            for fd in r:
                i = pending.pop(fd)
                try:
                    line = self.conns[i][1].readline()
                except OSError:
                    line = b""
                if not line:
                    got[i] = {"ok": False, "died": True, "err": "the process died"}
                    dead = True
                else:
                    got[i] = json.loads(line)
                if not got[i]["ok"]:
                    # the others may be waiting for this one for ever
                    end = min(end, time.monotonic() + GRACE)
        if any(g is None or not g["ok"] for g in got):
            # a failure may leave messages unmatched: start afresh
            t = self.tail()
            self.stop()
            if dead:
                for g in got:
                    if g is not None and g.get("died"):
                        g["err"] += "\n" + t
        return got

    def run(self, case):
        """Runs the case on every rank; returns info of rank 0 or raises."""
        got = self._once(case, CASE_TIMEOUT)
        if any(g is None for g in got) and not any(g is not None and not g["ok"] for g in got):
            # no rank failed but some did not finish: a deadlock if it happens again
            got = self._once(case, CONFIRM_TIMEOUT)
            if any(g is None for g in got) and not any(g is not None and not g["ok"] for g in got):
                missing = [i for i, g in enumerate(got) if g is None]
                raise AssertionError(f"deadlock: ranks {missing} of {self.size} never finished")
        for i, g in enumerate(got):
            if g is not None and g.get("harness"):
                raise HarnessError(g["err"])
        bad = [(i, g["err"]) for i, g in enumerate(got) if g is not None and not g["ok"]]
        if bad:
            i, err = bad[0]
            raise AssertionError(
                f"ranks {[b[0] for b in bad]} of {self.size} failed; rank {i}:\n{err}")
        if any(g is None for g in got):
            raise AssertionError("some ranks did not finish")
        return got[0]
