#!/bin/bash
# ./check.sh PROPERTY   (VERIF_SEED, VERIF_TIER in the environment)
# ./check.sh --selftest
cd "$(dirname "$0")" || exit 2
export PYTHONPATH="$PWD" PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
if [ "$1" = --selftest ]; then
  exec /opt/venv/bin/python -c 'from dst import core; m = core.import_mud(); print("simulator ready for", m.__file__)'
fi
exec /opt/venv/bin/python -m dst.run "$1"
