#!/usr/bin/env python3
"""Checks that what the simulator needs is here; nothing has to be built ahead."""
import os, subprocess, sys, tempfile
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with tempfile.TemporaryDirectory() as d:
    subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-w", "-o", os.path.join(d, "s.so"), os.path.join(here, "sim", "simdisk.c"), "-ldl"], check=True)
subprocess.run(["/opt/venv/bin/python", "-c", "import sys, h5py, numpy; assert sys.version_info >= (3, 12); sys.monitoring"], check=True)
os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
print("setup ok")
