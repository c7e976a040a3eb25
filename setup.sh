#!/bin/bash
# Nothing to compile: check that the interpreter, the libraries and the checks import.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec "${VF_PYTHON:-/opt/venv/bin/python}" -c "
import hypothesis, numpy, networkx, sympy, realalg, decorator
import ref.tri, ref.strand, ref.inter, vf.core
print('ok', hypothesis.__version__)
"
