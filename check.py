#!/usr/bin/env python3
"""check.py <property> [quick|thorough] | check.py replay <file>"""
import os
import sys

PY = "/opt/venv/bin/python"
if os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv"):
    os.execv(PY, [PY, "-B", os.path.abspath(__file__)] + sys.argv[1:])
sys.dont_write_bytecode = True
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(v, "1")
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import run  # noqa: E402

if __name__ == "__main__":
    if sys.argv[1] == "setup":
        import numpy, z3
        print("ready: numpy", numpy.__version__, "z3", z3.get_version_string())
        sys.exit(0)
    if sys.argv[1] == "replay":
        sys.exit(run.replay(sys.argv[2]))
    sys.exit(run.main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else None))
