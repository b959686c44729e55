"""Runs one job (part, shard, MPI size) of a check in its own process.

python -m vf.shard JOB.json  ->  writes the result named in the job
"""

import importlib
import json
import os
import random
import signal
import sys
import time
import traceback
import warnings


class Ctx:
    comm = None
    rank = 0
    size = 1
    n = 0


def main():
    from vf import env

    env.setup_path()
    with open(sys.argv[1]) as fh:
        job = json.load(fh)
    warnings.simplefilter("ignore")
    from vf.core import HarnessError, Info, digest

    mod = importlib.import_module("checks." + job["module"])
    part = next(p for p in mod.PARTS if p.name == job["part"])
    os.makedirs(job["scratch"], exist_ok=True)
    os.chdir(job["scratch"])
    ctx = Ctx()
    ctx.scratch = job["scratch"]
    pool = None
    if job["size"]:
        from vf.mpipool import Pool

        pool = Pool(job["module"], part.name, job["size"], job["scratch"])

    def execute(case):
        """-> Info; raises on failure"""
        if pool is not None:
            r = pool.run(case)
            return Info(r["nt"], r["labels"])
        ctx.n += 1
        info = part.run(case, ctx)
        return Info() if info is None else info

    res = {"evaluations": 0, "skipped": 0, "nontrivial": [], "labels": {}, "samples": [],
           "failure": None, "harness": None}
    t0 = time.monotonic()

    def bail_harness(text):
        res["harness"] = text
        finish()

    def finish():
        if pool is not None:
            pool.stop()
        res["nontrivial"] = sorted(seen)
        res["wall"] = time.monotonic() - t0
        with open(job["result"] + ".tmp", "w") as fh:
            json.dump(res, fh)
        os.replace(job["result"] + ".tmp", job["result"])
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(0)

    seen = set()
    cur = open(job["current"], "w")

    def note(case):
        cur.seek(0)
        cur.truncate()
        json.dump(case, cur)
        cur.flush()

    def account(case, info):
        res["evaluations"] += 1
        for lab in info.labels:
            res["labels"][lab] = res["labels"].get(lab, 0) + 1
        if info.nt:
            d = digest(case)
            if d not in seen:
                seen.add(d)
                if len(res["samples"]) < 2 and len(seen) % 7 == 3:
                    s = json.dumps(case)
                    res["samples"].append(case if len(s) < 1500 else s[:1500] + "...")

    if "case" in job:  # replay of one case
        try:
            note(job["case"])
            account(job["case"], execute(job["case"]))
        except (HarnessError, MemoryError):
            bail_harness(traceback.format_exc())
        except BaseException:
            res["failure"] = {"case": job["case"], "error": traceback.format_exc()[-4000:]}
        finish()

    import hypothesis
    from hypothesis import HealthCheck, Phase, settings

    best = {"case": None, "err": None, "t": None}

    class Skip(Exception):
        pass

    def body(case):
        now = time.monotonic()
        if best["t"] is not None and (now - best["t"] > job["shrink"] or "deadlock:" in best["err"]):
            # shrinking budget used up (or each attempt would wait for a deadlock): only the best known failure still fails
            if case != best["case"]:
                return
            raise AssertionError(best["err"])
        if best["t"] is None and now - t0 > job["budget"]:
            res["skipped"] += 1
            return
        note(case)
        try:
            info = execute(case)
        except (HarnessError, MemoryError):
            bail_harness(traceback.format_exc())
        except hypothesis.errors.HypothesisException:
            raise
        except OSError as exc:
            if exc.errno in (28, 12, 24):
                bail_harness(traceback.format_exc())
            _record(case)
            raise
        except (KeyboardInterrupt, GeneratorExit):
            raise
        except BaseException as exc:
            _record(case)
            if not isinstance(exc, Exception):
                raise AssertionError(f"raised {exc!r}") from exc
            raise
        account(case, info)

    def _record(case):
        best["case"] = case
        best["err"] = traceback.format_exc()[-4000:]
        if best["t"] is None:
            best["t"] = time.monotonic()

    # fixed cases first (cheap, hand-picked corners of the same domain)
    if job["shard"] == 0:
        for c in part.explicit:
            try:
                body(c)
            except BaseException:
                res["failure"] = {"case": c, "error": best["err"] or traceback.format_exc()[-4000:]}
                finish()

    random.seed(job["seed"])
    test = settings(
        max_examples=job["examples"], database=None, deadline=None, derandomize=False,
        suppress_health_check=list(HealthCheck), print_blob=False,
        phases=[Phase.generate, Phase.shrink], report_multiple_bugs=False,
        verbosity=hypothesis.Verbosity.quiet,
    )(hypothesis.given(part.strategy())(body))
    test = hypothesis.seed(job["seed"])(test)
    try:
        test()
    except BaseException as exc:
        if best["case"] is None:
            bail_harness(traceback.format_exc())
        res["failure"] = {"case": best["case"], "error": best["err"],
                          "how": type(exc).__name__}
    finish()


if __name__ == "__main__":
    signal.signal(signal.SIGTERM, lambda *a: os._exit(3))
    main()
