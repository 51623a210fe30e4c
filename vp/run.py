#!/usr/bin/env python3
"""Entry point of every check:  run.py <property> [quick|thorough] [--replay FILE]

1. builds the six C++ extensions of the repository (VERIF_REPO, default /repo) from its current
   working tree into a scratch directory,
2. starts vp/core.py with the interpreter mssm is installed for, with the scratch build in front of
   <repo>/src on the path,
3. removes the scratch directory.

Exit 0: held.  Exit 1 + VIOLATION line: broken.  Anything else: the check itself failed.
"""
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")


def base_env():
    env = dict(os.environ)
    env.update(
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        OPENBLAS_NUM_THREADS="1",
        OMP_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        MPLBACKEND="Agg",
        PIP_NO_INDEX="1",
    )
    return env


def build(dst):
    env = base_env()
    env.update(CONDA_PREFIX="/usr", SETUPTOOLS_SCM_PRETEND_VERSION="1.2.5")
    if shutil.which("ccache"):
        env.update(CC="ccache gcc", CXX="ccache g++", CCACHE_COMPILERCHECK="content")
        if os.path.isdir("/opt/ccache") and os.access("/opt/ccache", os.W_OK):
            env.setdefault("CCACHE_DIR", "/opt/ccache")
        else:
            env.setdefault("CCACHE_DIR", os.path.join(dst, "ccache"))
    lib = os.path.join(dst, "lib")
    r = subprocess.run(
        [PY, "setup.py", "-q", "build_ext", "--force", "--parallel", "8",
         "--build-lib", lib, "--build-temp", os.path.join(dst, "tmp")],
        cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
    )
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-6000:])
        sys.stderr.write("\nERROR: building the extensions from %s failed\n" % REPO)
        return None
    return lib


def main():
    if len(sys.argv) < 2:
        sys.stderr.write(__doc__)
        return 2
    scratch = tempfile.mkdtemp(prefix="vp_build_")
    try:
        lib = os.environ.get("VERIF_PREBUILT") or build(scratch)
        if lib is None:
            return 2
        env = base_env()
        env["PYTHONPATH"] = os.pathsep.join(
            [lib, os.path.join(REPO, "src"), VERIF, os.path.join(VERIF, "vendor")]
        )
        env["VP_SCRATCH"] = os.path.join(scratch, "work")
        env["VP_LIB"] = lib
        env["VERIF_REPO"] = REPO
        env["TMPDIR"] = env["VP_SCRATCH"]
        os.makedirs(env["VP_SCRATCH"], exist_ok=True)
        cmd = [PY, "-B", "-m", "vp.core"]
        if os.environ.get("VP_COVERAGE"):
            cmd = [PY, "-B", "-m", "vp.core"]
            env["COVERAGE_PROCESS_START"] = os.environ["VP_COVERAGE"]
        p = subprocess.run(cmd + sys.argv[1:], cwd=VERIF, env=env)
        rc = p.returncode
        return rc if rc in (0, 1) else (2 if rc == 2 else 3)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
