"""Runs a check: python -m vf.run C01 [--tier quick|thorough] [--replay FILE]

Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: broken.
Exit 2: the check could not do its work.
"""

import argparse
import hashlib
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

from . import build, env

STALL = 200.0  # seconds on one case before it is taken for a hang, and replayed


def load_known():
    with open(os.path.join(env.VERIF, "known_findings.json")) as fh:
        return json.load(fh)["known"]


def spawn(job, tmp, tag):
    jf = os.path.join(tmp, tag + ".job")
    with open(jf, "w") as fh:
        json.dump(job, fh)
    out = open(os.path.join(tmp, tag + ".log"), "wb")
    return subprocess.Popen(
        [env.PY, "-m", "vf.shard", jf], cwd=tmp, stdin=subprocess.DEVNULL, stdout=out,
        stderr=subprocess.STDOUT, env=env.child_env({"TMPDIR": tmp, "VF_OMP": str(job["omp"]),
                                                    "OMP_NUM_THREADS": str(job["omp"])}),
        start_new_session=True)


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    # ranks run in sessions of their own
    p.wait()


def read(path):
    try:
        with open(path) as fh:
            return json.load(fh)
    except (OSError, ValueError):
        return None


def tail(tmp, tag):
    try:
        with open(os.path.join(tmp, tag + ".log"), "rb") as fh:
            return fh.read()[-3000:].decode(errors="replace")
    except OSError:
        return ""


def replay_once(module, part, size, omp, case, tmp, tag, timeout=150):
    """-> ("ok"|"fail"|"harness", text)"""
    job = {"module": module, "part": part, "shard": 0, "size": size, "omp": omp,
           "scratch": os.path.join(tmp, tag), "result": os.path.join(tmp, tag + ".res"),
           "current": os.path.join(tmp, tag + ".cur"), "case": case}
    p = spawn(job, tmp, tag)
    try:
        rc = p.wait(timeout)
    except subprocess.TimeoutExpired:
        kill(p)
        return "fail", f"did not finish within {timeout} s (hang)"
    r = read(job["result"])
    if r is None:
        if rc < 0:
            return "fail", f"the process was killed by signal {-rc}\n" + tail(tmp, tag)
        return "harness", f"exit {rc}\n" + tail(tmp, tag)
    if r["harness"]:
        return "harness", r["harness"]
    if r["failure"]:
        return "fail", r["failure"]["error"]
    return "ok", ""


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--part", action="append")
    a = ap.parse_args()
    t0 = time.monotonic()
    env.setup_path()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    module = a.property.lower()
    mod = importlib.import_module("checks." + module)
    try:
        build.ensure(mod.EXTS)
    except build.BuildError as exc:
        print("ERROR: " + str(exc))
        return 2
    built = time.monotonic() - t0
    tmp = tempfile.mkdtemp(prefix="vf-" + module + "-")
    try:
        if a.replay:
            rep = read(a.replay)
            return replay(rep, module, tmp)
        return explore(a, mod, module, seed, tmp, t0, built)
    finally:
        subprocess.run(["pkill", "-9", "-f", tmp], check=False, capture_output=True)
        shutil.rmtree(tmp, ignore_errors=True)


def replay(rep, module, tmp):
    if rep["kind"] == "shard":
        job = dict(rep["job"], scratch=os.path.join(tmp, "r"), result=os.path.join(tmp, "r.res"),
                   current=os.path.join(tmp, "r.cur"))
        p = spawn(job, tmp, "r")
        p.wait()
        r = read(job["result"])
        st = "fail" if r and r["failure"] else "ok"
        txt = r["failure"]["error"] if st == "fail" else ""
    else:
        st, txt = replay_once(module, rep["part"], rep["size"], rep.get("omp", 1), rep["case"], tmp, "r")
    print(f"replay: {st}\n{txt}")
    return {"ok": 0, "fail": 1}.get(st, 2)


def explore(a, mod, module, seed, tmp, t0, built):
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    jobs = []
    for pi, part in enumerate(mod.PARTS):
        if a.part and part.name not in a.part:
            continue
        thorough = tier == "thorough"
        n = part.quick * (part.thorough if thorough else 1)
        for size in part.ranks or [0]:
            for sh in range(max(part.shards, part.tshards) if thorough else part.shards):
                h = hashlib.sha256(f"{mod.PROPERTY}|{part.name}|{size}|{sh}|{seed}".encode())
                tag = f"j{pi}-{size}-{sh}"
                jobs.append({
                    "module": module, "part": part.name, "shard": sh, "size": size, "omp": part.omp,
                    "seed": int.from_bytes(h.digest()[:7], "big"), "examples": n,
                    "budget": 1500 if thorough else 150, "shrink": float(os.environ.get("VF_SHRINK") or (90 if thorough else 45)),
                    "scratch": os.path.join(tmp, tag), "result": os.path.join(tmp, tag + ".res"),
                    "current": os.path.join(tmp, tag + ".cur"), "tag": tag,
                    "weight": max(1, size, part.omp),
                })
    # heavy jobs first
    order = sorted(jobs, key=lambda j: -j["weight"])
    running = []
    failures = []
    errors = []
    results = []
    slots = 8
    while order or running:
        used = sum(j["weight"] for j, p in running)
        started = True
        while order and started and not failures:
            started = False
            for j in order:
                if not running or used + j["weight"] <= slots:
                    order.remove(j)
                    os.makedirs(j["scratch"], exist_ok=True)
                    running.append((j, spawn(j, tmp, j["tag"])))
                    used += j["weight"]
                    started = True
                    break
        if failures:
            order = []
        time.sleep(0.05)
        for j, p in list(running):
            rc = p.poll()
            if rc is None:
                if not j["size"]:
                    try:
                        age = time.time() - os.stat(j["current"]).st_mtime
                    except OSError:
                        age = 0
                    if age > STALL:
                        kill(p)
                        running.remove((j, p))
                        failures.append((j, read(j["current"]), "no progress on one case (hang)"))
                continue
            running.remove((j, p))
            r = read(j["result"])
            shutil.rmtree(j["scratch"], ignore_errors=True)
            if r is None:
                c = read(j["current"])
                if rc < 0 and c is not None:
                    failures.append((j, c, f"the process was killed by signal {-rc}"))
                else:
                    errors.append(f"{j['tag']}: exit {rc}\n{tail(tmp, j['tag'])}")
                continue
            if r["harness"]:
                errors.append(f"{j['tag']} ({j['part']}): {r['harness']}")
                continue
            results.append((j, r))
            if r["failure"]:
                failures.append((j, r["failure"]["case"], r["failure"]["error"]))

    violations = []
    for k, (j, case, err) in enumerate(failures):
        if any(v[0]["part"] == j["part"] for v in violations):
            continue
        st = "ok"
        for i in range(2):
            st, txt = replay_once(module, j["part"], j["size"], j["omp"], case, tmp, f"c{k}-{i}")
            if st == "fail":
                break
        rep = {"property": mod.PROPERTY, "kind": "case", "part": j["part"], "size": j["size"],
               "omp": j["omp"], "case": case, "error": txt if st == "fail" else err}
        if st != "fail":
            # it may need the cases before it: run the whole shard again
            p = spawn(dict(j, scratch=j["scratch"] + "r", result=j["result"] + "r",
                           current=j["current"] + "r"), tmp, f"s{k}")
            try:
                p.wait(400)
            except subprocess.TimeoutExpired:
                kill(p)
            r = read(j["result"] + "r")
            if r and r["failure"]:
                rep["kind"] = "shard"
                rep["job"] = j
                rep["error"] = r["failure"]["error"]
            else:
                errors.append(f"{j['tag']} ({j['part']}): a failure did not reproduce:\n{err}\ncase: {json.dumps(case)[:2000]}")
                continue
        d = os.path.join(env.VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{mod.PROPERTY}-{j['part']}-{k}.json")
        with open(path, "w") as fh:
            json.dump(rep, fh, indent=1)
        violations.append((j, case, rep["error"], path))

    # evidence
    ev = sum(r["evaluations"] for _, r in results)
    distinct = len({(j["part"], d) for j, r in results for d in r["nontrivial"]})
    per = {}
    samples = []
    for j, r in results:
        q = per.setdefault(j["part"], {"evaluations": 0, "nontrivial": set(), "labels": {}, "mpi_sizes": set(), "not_run_for_time": 0})
        q["evaluations"] += r["evaluations"]
        q["nontrivial"].update(r["nontrivial"])
        q["not_run_for_time"] += r["skipped"]
        if j["size"]:
            q["mpi_sizes"].add(j["size"])
        for lab, n in r["labels"].items():
            q["labels"][lab] = q["labels"].get(lab, 0) + n
        if r["samples"] and not any(s["part"] == j["part"] for s in samples):
            samples.append({"part": j["part"], "case": r["samples"][0]})
    for q in per.values():
        q["distinct_nontrivial"] = len(q.pop("nontrivial"))
        q["mpi_sizes"] = sorted(q["mpi_sizes"])
        q["labels"] = dict(sorted(q["labels"].items()))
    evid = {
        "property": mod.PROPERTY, "tier": tier, "seed": seed,
        "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": ev, "distinct_nontrivial": distinct,
            "rule": " || ".join(f"{p.name}: {p.rule}" for p in mod.PARTS if p.rule),
            "samples": samples, "parts": per,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
    path = os.path.join(env.VERIF, "evidence", mod.PROPERTY + ".json")
    with open(path + ".tmp", "w") as fh:
        json.dump(evid, fh, indent=1)
    os.replace(path + ".tmp", path)

    # known findings: shown to fail still, each on its own input only
    for k, f in enumerate(load_known()):
        if f["property"] != mod.PROPERTY:
            continue
        st, txt = replay_once(module, f["part"], f.get("size", 0), f.get("omp", 1), f["case"], tmp, f"k{k}")
        if st == "fail":
            print(f"KNOWN-FINDING: property={mod.PROPERTY} {f['what']}")

    for j, case, err, p in violations:
        print(f"part {j['part']} (MPI size {j['size'] or 1}): {err.strip()[-1500:]}")
        print(f"case: {json.dumps(case)[:1500]}")
        print(f"VIOLATION property={mod.PROPERTY} replay={p}")
    for e in errors:
        print("ERROR: " + e)
    print(f"{mod.PROPERTY}: {ev} cases, {distinct} distinct non-trivial, "
          f"{len(violations)} violations, {time.monotonic() - t0:.1f} s (build {built:.1f} s)")
    if violations:
        return 1
    if errors:
        return 2
    if not results or ev == 0:
        print("ERROR: nothing was explored")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
