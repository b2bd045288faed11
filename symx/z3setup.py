"""Make the z3 bindings of the tooling venv importable without letting that venv shadow numpy/pandas/scipy."""
import sys
P = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if P not in sys.path:
    sys.path.append(P)
import z3  # noqa: E402,F401
