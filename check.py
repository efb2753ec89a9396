#!/opt/venv/bin/python
"""check.py CNN [--case substr] [--serial] [-v] [--replay file]"""
import importlib
import os
import sys

sys.dont_write_bytecode = True
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("PYTHONHASHSEED", "0")
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(v, "1")
sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

if __name__ == "__main__":
    pid = sys.argv[1]
    from vlib import harness

    module = importlib.import_module("props." + pid.lower())
    sys.exit(harness.main(pid, module, sys.argv[2:]))
