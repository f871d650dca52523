#!/bin/bash
# nothing to build: check that the interpreter, the solver and the sources are there
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
mkdir -p evidence
exec /opt/venv/bin/python -c "
import nv, z3, numba, numpy
from nv.loader import Loader
Loader('/repo').load('neutralocean.fzero')
print('z3', z3.get_version_string(), 'numba', numba.__version__, 'numpy', numpy.__version__)"
