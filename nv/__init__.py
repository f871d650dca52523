import sys

# z3 lives in the tooling venv (same CPython 3.12); it goes last on the path so
# that numpy, numba, scipy... are the ones the library under test uses.
_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)
