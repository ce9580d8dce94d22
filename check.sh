#!/bin/bash
# usage: check.sh <property> [--tier quick|thorough] [--replay file]
#        check.sh selftest     (reference model against an independent construction)
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYSCF_CONFIG_FILE=/dev/null PYSCF_TMPDIR="${TMPDIR:-/tmp}"
if [ "$1" = selftest ]; then
  exec /opt/venv/bin/python -m mc.selftest
fi
exec /opt/venv/bin/python -m mc.main "$@"
