#!/usr/bin/env python3
"""check.py <PROPERTY> [--replay FILE] [--runs N] [--jobs J] [--logs FILE]

Decides one property by seeded deterministic simulation of the real cis code with fault injection.
Exit 0: held on everything explored.  Exit 1 with "VIOLATION property=<id> replay=<path>": broken.
Exit 2: the check itself could not do its work.
"""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
LIB = os.path.join(HERE, "build", "libsim.so")
PY = os.environ.get("VSIM_PYTHON", "/opt/venv/bin/python")


def build_lib():
    src = os.path.join(HERE, "sim", "shim.c")
    if os.path.exists(LIB) and os.path.getmtime(LIB) >= os.path.getmtime(src):
        return
    os.makedirs(os.path.dirname(LIB), exist_ok=True)
    tmp = LIB + ".%d" % os.getpid()
    subprocess.check_call(["gcc", "-O2", "-shared", "-fPIC", "-o", tmp, src, "-ldl"])
    os.replace(tmp, LIB)


def reexec():
    env = {k: v for k, v in os.environ.items()
           if k in ("PATH", "HOME", "LANG", "LC_ALL", "TMPDIR", "USER") or k.startswith(("VERIF_", "VSIM_"))}
    env.update(PYTHONHASHSEED=os.environ.get("VSIM_HASHSEED", "0"), PYTHONDONTWRITEBYTECODE="1", PYTHONNOUSERSITE="1", PYTHONWARNINGS="ignore",
               MPLBACKEND="Agg", MPLCONFIGDIR=os.path.join(HERE, "build", "mpl"), TZ="UTC", OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1", MALLOC_ARENA_MAX="1", HDF5_USE_FILE_LOCKING="FALSE",
               PYTHONPATH=HERE + ":" + os.environ.get("VSIM_REPO", "/repo"), LD_PRELOAD=LIB, VSIM_STAGE="1")
    os.makedirs(env["MPLCONFIGDIR"], exist_ok=True)
    os.execve(PY, [PY, "-u", os.path.abspath(__file__)] + sys.argv[1:], env)


if __name__ == "__main__":
    if os.environ.get("VSIM_STAGE") != "1":
        build_lib()
        reexec()
    sys.path.insert(0, HERE)
    from sim import master
    sys.exit(master.main(sys.argv[1:]))
