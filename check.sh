#!/bin/bash
# bash check.sh <property id> [--tier quick|thorough] [--replay FILE] [--only SUB] [--scale X]
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1
exec "${VF_PYTHON:-/opt/venv/bin/python}" -m vf.run "$@"
