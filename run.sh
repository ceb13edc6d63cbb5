#!/bin/bash
# usage: run.sh C01 [--replay FILE]      (VERIF_SEED, VERIF_TIER from the environment)
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore
export PYTHONPATH=/repo:$PWD
exec /opt/venv-pypy/bin/python -m hbv.core "$@"
