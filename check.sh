#!/bin/bash
# usage: check.sh C01 [--tier quick|thorough]  |  check.sh --replay FILE
cd "$(dirname "$(readlink -f "$0")")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONHASHSEED=0
export PYTHONPATH="/repo/src:$PWD"
exec /opt/venv/bin/python -m mc.run "$@"
