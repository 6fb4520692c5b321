#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] [--seed N] [--replay FILE]"""
import os, sys
for _k in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_k] = "1"   # one process per core already
VT = "/opt/veriftools/pyvenv/bin/python3"
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "vf"))
try:
    import numpy
except ImportError:
    if os.path.exists(VT) and os.path.realpath(sys.executable) != os.path.realpath(VT) or True:
        if os.environ.get("FG_REEXEC") != "1":
            os.environ["FG_REEXEC"] = "1"
            os.execv(VT, [VT] + sys.argv)
    raise
import importlib
import harness

if __name__ == "__main__":
    if len(sys.argv) < 2:
        sys.exit("usage: check.py <property id> [options]")
    mod = importlib.import_module("props." + sys.argv[1].lower())
    sys.exit(harness.main(mod.CHECK, sys.argv[2:]))
