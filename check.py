#!/usr/bin/env python3
"""Deterministic simulation checks of hdf5storage.

  check.py C01 [quick|thorough]     run the check of a property
  check.py --replay FILE            re-run a replay file
  check.py --script FILE [args]     run a tool of tools/
"""
import ctypes
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
PY = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")


def steady():
    """Memory at the same addresses in each invocation, if the kernel lets us."""
    try:
        ctypes.CDLL(None).personality(0x0040000)
    except Exception:
        pass


def outer(args):
    if args and args[0] in ("--replay", "--inner-replay") and len(args) == 2:
        with open(args[1]) as f:
            args = args + [json.load(f)["property"]]
    d = tempfile.mkdtemp(prefix="hs-shim-")
    try:
        so = os.path.join(d, "simdisk.so")
        subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-w", "-o", so,
                        os.path.join(HERE, "sim", "simdisk.c"), "-ldl"], check=True)
        env = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "HDF5_", "LD_"))}
        env.update(LD_PRELOAD=so, VERIF_SHIM=so, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
                   OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", TZ="UTC", LC_ALL="C.UTF-8",
                   PYTHONPATH=HERE, VERIF_INNER="1")
        if "VERIF_HASHSEED" in os.environ:
            env["PYTHONHASHSEED"] = os.environ["VERIF_HASHSEED"]
        return subprocess.run([PY, "-W", "ignore", os.path.abspath(__file__)] + args, env=env, cwd=HERE, preexec_fn=steady).returncode
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main(args):
    if not os.environ.get("VERIF_INNER"):
        return outer(args)
    from sim import engine
    if args and args[0] in ("--replay", "--inner-replay"):
        return engine.replay(args[1], args[2], show=args[0] == "--replay")
    if args and args[0] == "--script":          # a tool, inside the simulator's environment
        import runpy
        sys.argv = args[1:]
        runpy.run_path(args[1], run_name="__main__")
        return 0
    pid = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = os.environ.get("VERIF_SEED", "1")
    return engine.check(pid, tier, seed)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
