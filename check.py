#!/opt/venv/bin/python
"""Decide one property:  check.py <ID> [--tier quick|thorough]
                         check.py --replay <file>
                         check.py --all

Exit 0: every obligation held.  Exit 1 with "VIOLATION property=<id> replay=<path>".
"""
import os
import sys

os.environ.setdefault("NUMBA_DISABLE_JIT", "1")
os.environ.setdefault("PYVISTA_OFF_SCREEN", "true")
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

from pyvc import driver  # noqa: E402

if __name__ == "__main__":
    sys.exit(driver.main(sys.argv[1:], HERE))
