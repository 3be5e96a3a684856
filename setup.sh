#!/bin/bash
# self-test of the framework: the reference model against independent packages
cd "$(dirname "$(readlink -f "$0")")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec /opt/venv/bin/python -m mc.selftest
