"""Nothing to build: verify that the interpreter, z3 and exoplanet can be imported offline."""
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import sympy                                   # noqa: E402
import z3                                      # noqa: E402
print("z3", z3.get_version_string(), "sympy", sympy.__version__)
