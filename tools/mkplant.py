"""Makes seeded/<id>/ from a description in a scratch copy of /repo.

python3 tools/mkplant.py SPEC.py [ID...]   SPEC.py defines BUGS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo, np)]
Run tools/plant.sh ID afterwards to confirm it.
"""
import json, os, shutil, subprocess, sys, runpy, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = runpy.run_path(sys.argv[1])["BUGS"]
only = sys.argv[2:]
for b in spec:
    if only and b["id"] not in only:
        continue
    d = os.path.join(V, "seeded", b["id"])
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="mkplant.")
    subprocess.run(["git", "-C", "/repo", "worktree", "prune"], check=True)
    subprocess.run("git -C /repo archive HEAD | tar x -C " + w, shell=True, check=True)
    subprocess.run("git init -q . && git add -A && git -c user.name=x -c user.email=x commit -qm x", shell=True, cwd=w, check=True)
    for f, old, new in b["edits"]:
        p = os.path.join(w, f)
        s = open(p).read()
        assert s.count(old) == 1, (b["id"], f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "diff"], cwd=w, check=True, capture_output=True, text=True).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    shutil.rmtree(w)
    open(os.path.join(d, "demo.py"), "w").write(b["demo"].lstrip("\n"))
    n = b.get("np")
    run = '"$PY" "$HERE/demo.py"'
    if n:
        run = ('export OMP_NUM_THREADS=1\nmpirun --oversubscribe --bind-to none --mca btl self,vader --mca plm isolated '
               '--mca mpi_yield_when_idle 1 -np %d %s </dev/null' % (n, run))
    sh = """#!/bin/bash
# exit 0 when the behaviour is right, nonzero otherwise; run in the repository
. /opt/vp/env.sh
HERE=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OMPI_MCA_ess_singleton_isolated=1
W=$(mktemp -d) || exit 3
trap 'rm -rf "$W"' EXIT
cd "$W" || exit 3
export TMPDIR=$W
%s
""" % run
    open(os.path.join(d, "demo.sh"), "w").write(sh)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    print("made", b["id"])
