#!/opt/venv/bin/python
"""Checks that the verifier's dependencies are present."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import numpy  # noqa: E402
import z3  # noqa: E402

x = z3.Int("x")
s = z3.Solver()
s.add(x > 0, x < 1)
assert s.check() == z3.unsat
print("z3", z3.get_version_string(), "numpy", numpy.__version__, "cvc5", os.path.exists("/usr/bin/cvc5"))
