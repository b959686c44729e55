"""Build the extension modules a check needs from the repository's working tree.

The repository's own setup.py is executed, with its extension list filtered, so
the sources, the include paths and the compiler flags are the repository's. An
extension is rebuilt unless both its inputs and the built file are byte for byte
those of a previous build made here.
"""

import fcntl
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile

from . import env

EXT = {
    "weighted": "caput.algorithms.median.weighted",
    "truncate": "caput.util.truncate",
    "spherical": "caput.astro.coordinates._spherical",
    "invert": "caput.algorithms._invert_no_zero._invert_no_zero",
}

_DRIVER = r"""
import sys, os, runpy
name, tmp, fast = sys.argv[1], sys.argv[2], sys.argv[3] == "1"
# the version would be taken from git's tags, which need not be versions here
os.environ["GIT_DIR"] = os.path.join(tmp, "nogit")
import Cython.Build
real = Cython.Build.cythonize
def cythonize(exts, **kw):
    exts = [e for e in exts if e.name == name]
    assert len(exts) == 1, "setup.py defines no extension " + name
    if fast:
        for e in exts:
            e.extra_compile_args = [a for a in e.extra_compile_args if a not in ("-flto", "-O3")] + ["-O0"]
            e.extra_link_args = [a for a in e.extra_link_args if a not in ("-flto", "-O3")]
    kw.update(build_dir=os.path.join(tmp, "c"), force=True)
    return real(exts, **kw)
Cython.Build.cythonize = cythonize
sys.argv = ["setup.py", "build_ext", "--force", "--build-lib", os.path.join(tmp, "lib"),
            "--build-temp", os.path.join(tmp, "t")]
runpy.run_path("setup.py", run_name="__main__")
"""


def _sha(path):
    with open(path, "rb") as fh:
        return hashlib.sha256(fh.read()).hexdigest()


def _inputs(name):
    d = os.path.join(env.REPO, os.path.dirname(name.replace(".", "/")))
    files = [os.path.join(env.REPO, "setup.py")]
    for suf in ("pyx", "pxd", "pxi", "h", "hpp", "hh", "c", "cpp"):
        for f in glob.glob(os.path.join(d, "*." + suf)):
            stem = os.path.splitext(f)[0]
            if suf in ("c", "cpp") and os.path.exists(stem + ".pyx"):
                continue  # generated
            files.append(f)
    h = hashlib.sha256()
    for f in sorted(files):
        h.update(f.encode() + b"\0" + _sha(f).encode())
    h.update(
        subprocess.run(
            ["gcc", "-march=native", "-Q", "--help=target"], capture_output=True
        ).stdout
    )
    return h.hexdigest()


def _sofile(name):
    import sysconfig

    return os.path.join(
        env.REPO, name.replace(".", "/") + sysconfig.get_config_var("EXT_SUFFIX")
    )


class BuildError(Exception):
    pass


def ensure(exts):
    """exts: {short name: "full" | "fast"}.  Raises BuildError."""
    if not exts:
        return
    os.makedirs(os.path.join(env.REPO, "build"), exist_ok=True)
    stampfile = os.path.join(env.REPO, "build", "vf-stamp.json")
    with open(os.path.join(env.REPO, "build", "vf-lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        try:
            with open(stampfile) as fh:
                stamp = json.load(fh)
        except (OSError, ValueError):
            stamp = {}
        jobs = []
        for short, mode in exts.items():
            name = EXT[short]
            so = _sofile(name)
            key = _inputs(name)
            old = stamp.get(name)
            if old and old["key"] == key and os.path.exists(so) and _sha(so) == old["so"]:
                if mode == "fast" or old["mode"] == "full":
                    continue
            tmp = tempfile.mkdtemp(prefix="vf-build-")
            p = subprocess.Popen(
                [env.PY, "-c", _DRIVER, name, tmp, "1" if mode == "fast" else "0"],
                cwd=env.REPO,
                env=env.child_env({"PYTHONPATH": ""}),
                stdout=subprocess.PIPE,
                stderr=subprocess.STDOUT,
                text=True,
            )
            jobs.append((name, so, key, mode, tmp, p))
        errs = []
        for name, so, key, mode, tmp, p in jobs:
            out = p.communicate()[0]
            built = glob.glob(
                os.path.join(tmp, "lib", name.replace(".", "/") + ".*so")
            )
            if p.returncode or len(built) != 1:
                errs.append(f"building {name} failed ({p.returncode}):\n{out[-4000:]}")
            else:
                t = os.path.join(env.REPO, "build", "vf-new.so")
                shutil.copyfile(built[0], t)
                os.chmod(t, 0o755)
                os.replace(t, so)
                stamp[name] = {"key": key, "mode": mode, "so": _sha(so)}
            shutil.rmtree(tmp, ignore_errors=True)
        with open(stampfile + ".tmp", "w") as fh:
            json.dump(stamp, fh)
        os.replace(stampfile + ".tmp", stampfile)
        if errs:
            raise BuildError("\n".join(errs))


if __name__ == "__main__":
    ensure({k: "full" for k in sys.argv[1:] or EXT})
