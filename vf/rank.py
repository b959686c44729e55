"""One MPI rank of a pool: python -m vf.rank MODULE PART SOCKET"""

import importlib
import json
import os
import socket
import sys
import tempfile
import traceback


def main():
    from vf import env

    env.setup_path()
    # the code under test polls for files once a second: poll faster
    import time

    sleep = time.sleep
    time.sleep = lambda t: sleep(min(t, 0.005))
    modname, partname, path = sys.argv[1:4]
    from mpi4py import MPI

    comm = MPI.COMM_WORLD
    mod = importlib.import_module("checks." + modname)
    part = next(p for p in mod.PARTS if p.name == partname)
    from vf.core import HarnessError

    class Ctx:
        pass

    ctx = Ctx()
    ctx.comm = comm
    ctx.rank = comm.rank
    ctx.size = comm.size
    ctx.scratch = os.path.dirname(path)  # shared between the ranks
    ctx.n = 0
    sock = socket.socket(socket.AF_UNIX)
    sock.connect(path)
    f = sock.makefile("rwb")

    def say(d):
        f.write((json.dumps(d) + "\n").encode())
        f.flush()

    say({"rank": comm.rank})
    while True:
        line = f.readline()
        if not line:
            os._exit(0)
        case = json.loads(line)
        ctx.n += 1
        try:
            info = part.run(case, ctx)
            nt = True if info is None else info.nt
            lab = [] if info is None else list(info.labels)
            say({"ok": True, "nt": nt, "labels": lab})
        except HarnessError:
            say({"ok": False, "harness": True, "err": traceback.format_exc()})
        except MemoryError:
            say({"ok": False, "harness": True, "err": traceback.format_exc()})
        except BaseException:
            say({"ok": False, "err": traceback.format_exc()[-3000:]})


if __name__ == "__main__":
    main()
