"""Paths and environment shared by the driver, the shards and the MPI ranks."""

import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# The checks registered in MANIFEST.json always use /repo; the override exists
# only to try a check on a scratch copy while developing it.
REPO = os.environ.get("VF_REPO", "/repo")
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable


def child_env(extra=None):
    env = dict(os.environ)
    env.update(
        PYTHONHASHSEED="0",
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONNOUSERSITE="1",
        OMPI_ALLOW_RUN_AS_ROOT="1",
        OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
        OMPI_MCA_btl="self,vader",
        OMPI_MCA_btl_vader_single_copy_mechanism="none",
        OMPI_MCA_plm="isolated",
        OMPI_MCA_mpi_yield_when_idle="1",
        OMPI_MCA_ess_singleton_isolated="1",
        OMP_NUM_THREADS=env.get("VF_OMP", "1"),
        OPENBLAS_NUM_THREADS="1",
        NO_COLOR="1",
        TZ="VFT+7:30",
        VF_REPO=REPO,
    )
    env.pop("CAPUT_NO_OPENMP", None)
    env.pop("CAPUT_SKYFIELD_PATH", None)
    env["PYTHONPATH"] = os.pathsep.join([REPO, VERIF])
    if extra:
        env.update(extra)
    return env


def setup_path():
    """Import caput from the repository and the vendored hypothesis last."""
    for p in (VERIF, REPO):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
    v = os.path.join(VERIF, "vendor")
    if v not in sys.path:
        sys.path.append(v)
    if os.environ.get("VF_COV"):
        from tools import cov

        cov.install(os.environ["VF_COV"], REPO)
