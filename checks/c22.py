"""C22: templated and queued jobs are generated faithfully and never clobber others."""

import json
import os
import sys

from hypothesis import strategies as st

from vf.core import Info, Part, check

PROPERTY = "C22"
EXTS = {"invert": "fast", "weighted": "fast", "truncate": "full"}
ASSUMPTIONS = [
    "the batch system, the MPI launcher and environment modules are stand-ins which record how they are called; job scripts are run by bash",
    "an existing job counts as finished if its STATUS file says so, wherever its directory was moved; any other existing job counts as failed",
]

# ---------------------------------------------------------------- templates

WORDS = ["alpha", "b c", "x=y", "é", "3", "-1.5", "{}", "a{b}c", "path/to", "tr:ue", "'q'", "#h", "%s", "$HOME", "", " pad", "pad "]
LITERALS = ["plain ", "{", "}", "{{x}}", " - ", "$v ", "é"]


@st.composite
def templates(draw):
    names = draw(st.lists(st.sampled_from(["a", "b", "long_name", "x1"]), unique=True, max_size=3))
    vals = {n: draw(st.lists(st.sampled_from(WORDS), min_size=1, max_size=3)) for n in names}
    fields = []
    for _ in range(draw(st.integers(1, 4))):
        fields.append(draw(st.lists(st.one_of(st.sampled_from([["lit", x] for x in LITERALS]), *([st.sampled_from([["var", n] for n in names])] * 2 if names else [])), max_size=4)))
    return {"vals": vals, "order": list(draw(st.permutations(names))), "fields": fields, "via": draw(st.sampled_from(["run", "cli", "queue", "cliqueue"]))}


def quoted(s):
    return s.replace("'", "''")


def run_template(case, ctx):
    import itertools
    import logging
    import shutil

    import yaml
    from click.testing import CliRunner

    from caput.pipeline import Task, local_tasks, runner
    from caput.pipeline.runner import _cli

    logging.getLogger("caput").setLevel(logging.ERROR)
    where = os.path.join(ctx.scratch, f"t{ctx.n}")
    shutil.rmtree(where, ignore_errors=True)
    os.makedirs(where)
    os.chdir(where)
    via = case["via"]
    stub(where, [])
    queueing = "queue" in via

    def field(f, sub):
        return "".join(quoted(x) if k == "lit" else quoted(sub[x]) if isinstance(sub, dict) else "{" + x + "}" for k, x in f)

    def escape(f):
        return "".join(quoted(x).replace("{", "{{").replace("}", "}}") if k == "lit" else "{" + x + "}" for k, x in f)

    def text(item, jobdir):
        fs = "".join(f"        - '{item(f)}'\n" for f in case["fields"])
        return ("pipeline:\n  logging: ERROR\n  tasks:\n    - type: VfRecord\n      params:\n        fields:\n" + fs.replace("        - ", "          - ")
                + f"cluster:\n  system: slurm\n  name: j\n  nodes: 1\n  time: 10m\n  mem: 1G\n  directory: {where}/{jobdir}\n  ompnum: 1\n  pernode: 1\n  account: acc\n")

    # values which break the quoting of the template are not for it: quote them
    vals = {n: [quoted(v) for v in case["vals"][n]] for n in case["order"]}
    jobdir_t = "jobs/" + "_".join("{" + n + "}" for n in case["order"]) if queueing else "jobs"
    if queueing:
        # one directory for each combination
        vals = {n: [f"{n}{i}" for i in range(len(v))] for n, v in vals.items()}
    with open("template.yaml", "w", encoding="utf8") as f:
        f.write(text(escape, jobdir_t))
    combos = [dict(zip(case["order"], c)) for c in itertools.product(*(vals[n] for n in case["order"]))]
    args = [f"{n}={','.join(vals[n])}" for n in case["order"]]

    def sub_all(f, c):
        return "".join(quoted(x) if k == "lit" else c[x] for k, x in f)

    texts = [text(lambda f, c=c: sub_all(f, c), "jobs/" + "_".join(c[n] for n in case["order"]) if queueing else "jobs") for c in combos]
    want = [yaml.safe_load(t)["pipeline"]["tasks"][0]["params"]["fields"] for t in texts]
    got = []
    from caput import config

    class VfRecord(Task):
        fields = config.Property(proptype=list)

        def setup(self):
            got.append(list(self.fields))

    path, hook = os.environ["PATH"], sys.excepthook
    try:
        local_tasks["VfRecord"] = VfRecord
        os.environ["PATH"] = where + "/bin:" + path
        before = sorted(os.listdir("."))
        if via == "run":
            runner.template_run("template.yaml", args, False, "cprofile", False, False)
        elif via == "queue":
            runner.template_queue("template.yaml", args, "never")
        else:
            cmd = ["template-run", "template.yaml"]
            for a in args:
                cmd += ["--var", a]
            if queueing:
                cmd += ["--submit"]
            r = CliRunner().invoke(_cli.cli, cmd)
            if r.exception is not None and not isinstance(r.exception, SystemExit):
                raise r.exception
            check(r.exit_code == 0, "the command failed", output=r.output)
        if queueing:
            check(not got, "queueing ran the pipeline")
            subs = submissions(where)
            check([s["cwd"] for s in subs] == [os.path.normpath(f"{where}/jobs/" + "_".join(c[n] for n in case["order"]) + "/job") for c in combos],
                  "not one job for each combination was submitted", got=[s["cwd"] for s in subs], want=len(combos))
            for s, t in zip(subs, texts):
                with open(s["cwd"] + "/config.yaml", encoding="utf8") as f:
                    g = f.read()
                check(g == t, "the configuration of a job is not the template with the values of the variables", got=g, want=t)
        else:
            check(got == want, "the pipelines run are not one for each combination of values, in order", got=got, want=want)
            check(sorted(os.listdir(".")) == before, "running the template left files behind", got=sorted(os.listdir(".")))
    finally:
        local_tasks.pop("VfRecord", None)
        sys.excepthook = hook
        os.environ["PATH"] = path
        os.chdir(ctx.scratch)
        shutil.rmtree(where, ignore_errors=True)
    used = {x for f in case["fields"] for k, x in f if k == "var"}
    return Info(len(combos) > 1 and bool(used), [via, *(["two variables"] if len(case["order"]) > 1 else [])])


# ---------------------------------------------------------------- stand-ins for the batch system

SUBMIT = """#!{py}
import json, os, sys
with open({log!r}, "a") as f:
    f.write(json.dumps({{"cmd": os.path.basename(sys.argv[0]), "args": sys.argv[1:], "cwd": os.getcwd(), "env": os.environ.get("VF_ENV")}}) + "\\n")
"""

LAUNCH = """#!{py}
import json, os, signal, sys
with open({log!r}, "a") as f:
    f.write(json.dumps({{"cmd": os.path.basename(sys.argv[0]), "args": sys.argv[1:], "cwd": os.getcwd(), "omp": os.environ.get("OMP_NUM_THREADS"),
                        "venv": os.environ.get("VF_VENV"), "status": open(os.environ["VF_STATUS"]).read() if os.path.exists(os.environ["VF_STATUS"]) else None}}) + "\\n")
print("output of the job", os.environ.get("VF_TOKEN"))
sys.stderr.write("errors of the job\\n")
open("product.txt", "w").write(os.environ.get("VF_TOKEN", ""))
sys.stdout.flush()
if os.environ["VF_END"] == "kill":
    os.kill(os.getppid(), signal.SIGKILL)
    os._exit(1)
sys.exit(3 if os.environ["VF_END"] == "fail" else 0)
"""


def stub(where, launchers):
    import stat

    os.makedirs(where + "/bin", exist_ok=True)
    for n in ("sbatch", "qsub", "vfsub"):
        with open(f"{where}/bin/{n}", "w") as f:
            f.write(SUBMIT.format(py=sys.executable, log=where + "/submitted"))
        os.chmod(f"{where}/bin/{n}", stat.S_IRWXU)
    for n in ("srun", "mpirun", "my_launch", "module"):
        with open(f"{where}/bin/{n}", "w") as f:
            f.write((LAUNCH if n != "module" else SUBMIT).format(py=sys.executable, log=where + ("/launched" if n != "module" else "/modules")))
        os.chmod(f"{where}/bin/{n}", stat.S_IRWXU)


def lines(f):
    return [json.loads(x) for x in open(f)] if os.path.exists(f) else []


def submissions(where):
    return lines(where + "/submitted")


# ---------------------------------------------------------------- queued jobs

SYSTEMS = ["slurm", "slurm", "slurm", "pbs", "pbs", "cedar", "fir", "gpc", "custom"]
MAIL = {"slurm": ["BEGIN", "END", "FAIL", "ALL", "nothing", "abe"], "pbs": ["a", "abe", "eb", "nothing", "ALL"], "custom": ["x"]}
CUSTOM = '''[custom]
command = "vfsub"
{invoke}
required = ["name", "nodes", "directory", "flavour"]
script = """#!/bin/bash
# flavour={{flavour:s}} nodes={{nodes:d}} total={{mpiproc:d}}
set -e
cd "{{workdir:s}}"
{{invoke:s}} {{invoke_args:s}} {{name}} "{{configpath:s}}" > "{{logpath:s}}" 2>&1
echo FINISHED > "{{statuspath:s}}"
"""
'''


@st.composite
def jobs(draw):
    system = draw(st.sampled_from(SYSTEMS))
    base = {"gpc": "pbs", "cedar": "slurm", "fir": "slurm"}.get(system, system)
    c = {"system": system, "name": draw(st.sampled_from(["job", "my_job", "a-b"])), "nodes": draw(st.integers(1, 40)), "time": draw(st.sampled_from(["3:20:10", "30m", "1-00:00", "12"])),
         "mem": draw(st.sampled_from(["16G", "128000M"])), "ompnum": draw(st.integers(1, 32)), "pernode": draw(st.integers(1, 16)), "account": draw(st.sampled_from(["rpp", "def-x_cpu"])),
         "ppn": draw(st.integers(1, 40)), "queue": draw(st.sampled_from(["batch", "long"])), "flavour": draw(st.sampled_from(["v", "w"]))}
    if draw(st.integers(0, 2)) == 0:
        c["invoke"], c["invoke_args"] = "my_launch", draw(st.sampled_from(["", "-x", "-n {mpiproc:d} --per {pernode:d}", "--cfg={configpath:s} -q"]))
    elif base in ("slurm", "pbs") and draw(st.integers(0, 2)) == 0:
        c["invoke_args"] = draw(st.sampled_from(["-x", "-n {nodes:d}", ""]))
    if draw(st.integers(0, 2)) == 0:
        c["module_list"] = draw(st.sampled_from([["gcc/9", "hdf5"], "python", ["one"], ["zlib", "gcc/9", "abc"]]))
    if draw(st.integers(0, 2)) == 0:
        c["module_path"] = draw(st.sampled_from([["/opt/m", "/opt/n"], "/opt/m", ["/opt/z", "/opt/a"]]))
    if draw(st.integers(0, 3)) == 0:
        c["venv"] = draw(st.sampled_from(["ve", "$VFDIR/ve", "~/ve", "missing"]))
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        k = draw(st.sampled_from(["queue", "queue", "queue", "ok", "fail", "kill"]))
        if k == "queue":
            ops.append({"op": k, "overwrite": draw(st.sampled_from(["never", "failed", "always", None])), "submit": draw(st.sampled_from([True, True, False])),
                        "profile": draw(st.sampled_from([None, None, "default", "cProfile", "pyinstrument"])), "psutil": draw(st.booleans()),
                        "mail": draw(st.sampled_from([None, None, *MAIL[base]])), "drop": draw(st.sampled_from([None] * 8 + ["nodes", "directory", "name", "account", "ppn", "system", "cluster"]))
                        if len(ops) == 0 or draw(st.integers(0, 2)) == 0 else None, "misplaced": draw(st.booleans()), "cli": draw(st.booleans())})
        else:
            ops.append({"op": k})
    if ops[0]["op"] != "queue":
        ops.insert(0, {"op": "queue", "overwrite": None, "submit": True, "profile": None, "psutil": False, "mail": None, "drop": None, "misplaced": False, "cli": False})
    return {"cluster": c, "ops": ops, "dir": draw(st.sampled_from(["work", "deep/er/work", "$VFDIR/w2", "with space/w", "~/w"])),
            "temp": draw(st.sampled_from([None, None, "tmp/run", "$VFDIR/t", "~/t", "same"])), "custominvoke": draw(st.booleans()), "foreign": draw(st.booleans())}


def tree(d):
    out = {}
    for r, ds, fs in os.walk(d):
        for f in fs:
            with open(os.path.join(r, f), "rb") as h:
                out[os.path.relpath(os.path.join(r, f), d)] = h.read()
        for x in ds:
            out[os.path.relpath(os.path.join(r, x), d) + "/"] = None
    return out


def headers(script):
    out = {}
    for ln in script.splitlines():
        if ln.startswith("#SBATCH --"):
            k, v = ln[len("#SBATCH --"):].split("#")[0].strip().split("=", 1)
            check(k not in out, "a resource is requested twice", line=ln)
            out[k] = v
        elif ln.startswith("#PBS -l "):
            k, v = ln[len("#PBS -l "):].strip().split("=", 1)
            out[k] = v
        elif ln.startswith("#PBS -q ") or ln.startswith("#PBS -N "):
            out[ln[5:7]] = ln[8:].strip()
    return out


def run_queue(case, ctx):
    import logging
    import shutil
    import subprocess

    import yaml
    from click.testing import CliRunner

    from caput.pipeline import runner
    from caput.pipeline.runner import _cli

    logging.getLogger("caput").setLevel(logging.ERROR)
    where = os.path.realpath(os.path.join(ctx.scratch, f"q{ctx.n}"))
    shutil.rmtree(where, ignore_errors=True)
    os.makedirs(where + "/env/ve/bin")
    os.makedirs(where + "/ve/bin")
    os.makedirs(where + "/home/ve/bin")
    for d in ("/env/ve", "/ve", "/home/ve"):
        with open(where + d + "/bin/activate", "w") as f:
            f.write(f"export VF_VENV={where}{d}\n")
    os.chdir(where)
    stub(where, [])
    path, home = os.environ["PATH"], os.environ.get("HOME")
    os.environ["HOME"] = where + "/home"
    os.environ["VFDIR"] = where + "/env"
    os.environ["PATH"] = where + "/bin:" + path
    cl = dict(case["cluster"])
    system = cl["system"]
    base = {"gpc": "pbs", "cedar": "slurm", "fir": "slurm"}.get(system, system)
    if base == "custom":
        with open("systems.toml", "w") as f:
            f.write(CUSTOM.format(invoke='invoke = "my_launch"' if case["custominvoke"] else ""))
        runner.register_system("systems.toml")
    cl["directory"] = case["dir"]
    if case["temp"] is not None:
        # the same directory may be written in another way
        cl["temp_directory"] = case["temp"] if case["temp"] != "same" else case["dir"] + "/../" + os.path.basename(case["dir"])
    full = lambda d: os.path.join(where, d.replace("$VFDIR", where + "/env").replace("~", where + "/home"))  # noqa: E731
    final = full(case["dir"])
    work = full(case["temp"]) if case["temp"] not in (None, "same") else final
    if case["foreign"]:
        # other things in the directory which are none of the business of the job
        os.makedirs(work)
        with open(work + "/precious.txt", "w") as f:
            f.write("keep")
    venv = {None: None, "ve": where + "/ve", "$VFDIR/ve": where + "/env/ve", "~/ve": where + "/home/ve", "missing": "missing"}[cl.get("venv")]
    required = {"slurm": {"name", "nodes", "time", "mem", "directory", "ompnum", "pernode", "account"},
                "pbs": {"name", "nodes", "time", "directory", "ppn", "queue", "ompnum", "pernode"}, "custom": {"name", "nodes", "directory", "flavour"}}[base]
    token, done, labels, nsub, ran = 0, 0, set(), 0, 0
    here = None  # what was queued last: text of the configuration and the operation
    try:
        for op in case["ops"]:
            token += 1
            labels.add(op["op"] if op["op"] != "queue" else f"queue {op['overwrite']}")
            state = tree(where + "/.")
            exists = [d for d in dict.fromkeys((work, final)) if os.path.isdir(d + "/job")]
            status = " ".join(open(d + "/job/STATUS").read() for d in exists if os.path.exists(d + "/job/STATUS"))
            if op["op"] == "queue":
                conf = {"pipeline": {"tasks": []}, "cluster": dict(cl), "token": token}
                if op["drop"] == "cluster":
                    del conf["cluster"]
                elif op["drop"]:
                    v = conf["cluster"].pop(op["drop"], None)
                    if op["misplaced"] and v is not None:
                        conf[op["drop"]] = v
                text = f"# attempt {token}\n" + yaml.safe_dump(conf)
                with open("config.yaml", "w") as f:
                    f.write(text)
                state["config.yaml"] = text.encode()
                kw = {k: op[k] for k in ("submit", "psutil")}
                if op["overwrite"] is not None:
                    kw["overwrite"] = op["overwrite"]
                if op["profile"] is not None:
                    kw["profile"] = True
                    if op["profile"] != "default":
                        kw["profiler"] = op["profile"]
                if op["mail"] is not None:
                    kw["email"] = "me@x.org"
                    kw["mailtype"] = op["mail"]
                lint = venv is None
                err = None
                if op["cli"] and op["mail"] not in ("nothing", "x"):
                    cmd = ["queue", "config.yaml", "--submit" if op["submit"] else "--nosubmit", "--lint" if lint else "--nolint"]
                    cmd += ["--profile"] * ("profile" in kw) + (["--profiler", kw["profiler"]] if "profiler" in kw else []) + ["--psutil"] * op["psutil"]
                    for k in ("overwrite", "email", "mailtype"):
                        cmd += ["--" + k, kw[k]] if k in kw else []
                    r = CliRunner().invoke(_cli.cli, cmd)
                    err = r.exception
                    check(not isinstance(err, SystemExit), "the command line was not accepted", command=cmd, output=r.output)
                else:
                    try:
                        runner.queue("config.yaml", lint=lint, **kw)
                    except Exception as e:  # noqa: BLE001
                        err = e
                refused = (op["drop"] in ("cluster", "system") or op["drop"] in required or venv == "missing"
                           or (op["mail"] in ("nothing", {"slurm": "abe", "pbs": "ALL"}.get(base)) and base != "custom"))
                skip = bool(exists) and ((op["overwrite"] in (None, "never")) or (op["overwrite"] == "failed" and "FINISHED" in status))
                if err is None and skip:
                    check(tree(where + "/.") == state, "a job that exists was changed although overwriting was not requested for it", overwrite=op["overwrite"],
                          status=status, changed=sorted(k for k, v in tree(where + "/.").items() if state.get(k, 0) != v))
                    labels.add("kept")
                    continue
                if refused:
                    check(isinstance(err, (ValueError, KeyError)), "an impossible job was not refused", error=repr(err), drop=op["drop"], mail=op["mail"], system=system)
                    check(tree(where + "/.") == state, "a job which was refused left something behind", error=repr(err),
                          changed=sorted(k for k, v in tree(where + "/.").items() if state.get(k, 0) != v))
                    labels.add("refused")
                    continue
                check(err is None, "queueing failed", error=repr(err), cluster=conf["cluster"], options=kw)
                now = tree(where + "/.")
                j = os.path.relpath(work, where) + "/job/"
                parents = {os.path.relpath(work, where)}
                while os.path.dirname(next(iter(sorted(parents, key=len)))):
                    parents.add(os.path.dirname(sorted(parents, key=len)[0]))
                allowed = {j + "config.yaml", j + "jobscript.sh", j, "submitted", *(p + "/" for p in parents)}
                changed = {k for k in set(now) | set(state) if now.get(k, 0) != state.get(k, 0)}
                check(changed <= allowed, "queueing changed something else", changed=sorted(changed - allowed))
                check(now.get(j + "config.yaml") == text.encode(), "the job directory does not have the configuration", got=now.get(j + "config.yaml"), want=text)
                check(j + "jobscript.sh" in now, "there is no job script")
                subs = submissions(where)
                nsub += op["submit"]
                check(len(subs) == nsub, "the number of jobs submitted is wrong", got=len(subs), want=nsub)
                if op["submit"]:
                    s = subs[-1]
                    mail = []
                    if op["mail"] is not None and base != "custom":
                        mail = ["--mail-user=me@x.org", f"--mail-type={op['mail']}"] if base == "slurm" else ["-M", "me@x.org", "-m", op["mail"]]
                    check(s["cmd"] == {"slurm": "sbatch", "pbs": "qsub", "custom": "vfsub"}[base], "submitted to another system", got=s)
                    check(s["args"] == [*mail, "jobscript.sh"] and s["cwd"] == work + "/job", "the submission is wrong", got=s, mail=mail)
                script = now[j + "jobscript.sh"].decode()
                if base == "slurm":
                    want = {"account": cl["account"], "nodes": str(cl["nodes"]), "ntasks-per-node": str(cl["pernode"]), "cpus-per-task": str(cl["ompnum"]), "mem": cl["mem"],
                            "time": cl["time"], "job-name": cl["name"]}
                    check(headers(script) == want, "the resources requested are not those configured", got=headers(script), want=want)
                elif base == "pbs":
                    want = {"nodes": f"{cl['nodes']}:ppn={cl['ppn']}", "-q": cl["queue"], "walltime": cl["time"], "-N": cl["name"]}
                    check(headers(script) == want, "the resources requested are not those configured", got=headers(script), want=want)
                else:
                    ln = f"# flavour={cl['flavour']} nodes={cl['nodes']} total={cl['nodes'] * cl['pernode']}"
                    check(ln in script, "the script of the registered system is not filled in", got=script, want=ln)
                here = (text, op)
                done += 1
            else:
                # run the job as the batch system would
                if here is None or not os.path.isfile(work + "/job/jobscript.sh") or (work != final and os.path.exists(final)):
                    continue
                for f in ("launched", "modules"):
                    if os.path.exists(f):
                        os.remove(f)
                env = {**os.environ, "VF_END": op["op"], "VF_TOKEN": str(token), "VF_STATUS": work + "/job/STATUS", "SLURM_CPUS_PER_TASK": str(cl["ompnum"])}
                r = subprocess.run(["bash", "jobscript.sh"], cwd=work + "/job", env=env, capture_output=True, text=True, timeout=60)
                ran += 1
                at = final if op["op"] == "ok" and base != "custom" else work
                launched = lines(where + "/launched")
                check(len(launched) == 1, "the job script did not run the pipeline once", got=launched, stderr=r.stderr, end=op["op"])
                la = launched[0]
                invoke = cl.get("invoke") or {"slurm": "srun", "pbs": "mpirun", "custom": "my_launch" if case["custominvoke"] else "mpirun"}[base]
                check(la["cmd"] == invoke, "the pipeline was started by another command", got=la["cmd"], want=invoke)
                n, p, cfg = cl["nodes"], cl["pernode"], work + "/job/config.yaml"
                ia = cl.get("invoke_args")
                if ia is None:
                    ia = f"-np {n * p} -npernode {p} -bind-to none" if base == "pbs" else ""
                pre = [w.replace("{mpiproc:d}", str(n * p)).replace("{pernode:d}", str(p)).replace("{nodes:d}", str(n)).replace("{configpath:s}", cfg) for w in ia.split()]
                if " " in cfg and "{configpath:s}" in ia:
                    continue
                opts = []
                o = here[1]
                if o["profile"] is not None:
                    opts += ["--profile", "--profiler=" + ("cProfile" if o["profile"] == "default" else o["profile"])]
                if o["psutil"]:
                    opts.append("--psutil")
                body = ["caput-pipeline", "run", *opts, cfg] if base != "custom" else [cl["name"], cfg]
                check([a.lower() for a in la["args"]] == [a.lower() for a in [*pre, *body]], "the pipeline was not started with the configured arguments", got=la["args"], want=[*pre, *body])
                check(la["cwd"] == work, "the pipeline runs in another directory", got=la["cwd"], want=work)
                if base != "custom":
                    check(la["omp"] == str(cl["ompnum"]), "the number of threads is not the one configured", got=la["omp"], want=cl["ompnum"])
                    check(la["venv"] == venv, "the virtual environment is not the one configured", got=la["venv"], want=venv)
                    mods = [m["args"] for m in lines(where + "/modules")]
                    wm = []
                    aslist = lambda v: [v] if isinstance(v, str) else list(v or [])  # noqa: E731
                    if cl.get("module_path") or cl.get("module_list"):
                        wm = [["--force", "purge"], *(["use", m] for m in aslist(cl.get("module_path"))), *(["load", m] for m in aslist(cl.get("module_list")))]
                    check(mods == wm, "the modules loaded are not those configured", got=mods, want=wm)
                    check((r.returncode == 0) == (op["op"] == "ok"), "the exit status of the job", got=r.returncode, end=op["op"], stderr=r.stderr)
                    stat = open(at + "/job/STATUS").read().strip() if os.path.exists(at + "/job/STATUS") else None
                    if op["op"] in ("ok", "fail"):
                        check(stat == {"ok": "FINISHED", "fail": "CRASHED"}[op["op"]], "the status of a job which has ended", got=stat, end=op["op"])
                    if op["op"] == "ok" and work != final:
                        check(not os.path.exists(work), "the temporary directory is left")
                        labels.add("moved")
                with open(at + "/job/jobout.log") as f:
                    log = f.read()
                check(f"output of the job {token}" in log and "errors of the job" in log, "the log of the job does not have its output", got=log)
                check(open(at + "/product.txt").read() == str(token), "the product of the job is not in its directory")
                if case["foreign"]:
                    check(open(at + "/precious.txt").read() == "keep", "another file in the directory was lost")
    finally:
        os.environ["PATH"] = path
        if home is None:
            os.environ.pop("HOME", None)
        else:
            os.environ["HOME"] = home
        os.chdir(ctx.scratch)
        shutil.rmtree(where, ignore_errors=True)
    return Info(done > 0 and len(case["ops"]) > 1, [base, *sorted(labels), *(["ran"] if ran else [])])


# ---------------------------------------------------------------- unknown systems and system files


@st.composite
def unknown(draw):
    return {"name": draw(st.text("abcxyz_", min_size=1, max_size=6)), "lack": draw(st.sampled_from(["script", "command", None]))}


def run_unknown(case, ctx):
    import yaml

    from caput.pipeline import runner

    with open("unk.yaml", "w") as f:
        yaml.safe_dump({"pipeline": {"tasks": []}, "cluster": {"system": "no_" + case["name"], "directory": ctx.scratch + "/unk"}}, f)
    try:
        runner.queue("unk.yaml", submit=False)
    except ValueError:
        pass
    else:
        check(False, "an unknown system was accepted", system=case["name"])
    check(not os.path.exists(ctx.scratch + "/unk"), "a job for an unknown system left something behind")
    keys = {"script": "script = 'x'", "command": "command = 'y'"}
    keys.pop(case["lack"], None)
    with open("reg.toml", "w") as f:
        f.write(f"[reg_{case['name']}]\n" + "\n".join(keys.values()) + "\n")
    try:
        runner.register_system("reg.toml")
        ok = True
    except ValueError:
        ok = False
    check(ok == (case["lack"] is None), "registration of a system", lacks=case["lack"], accepted=ok)
    return Info(case["lack"] is not None, ["lacking" if case["lack"] else "complete"])


PARTS = [
    Part("template", templates, run_template, quick=150, shards=2, rule="several combinations of values are substituted"),
    Part("queue", jobs, run_queue, quick=90, shards=4, rule="a job was queued in a history of several operations"),
    Part("systems", unknown, run_unknown, quick=60, rule="a required entry is missing"),
]
