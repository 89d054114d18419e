#!/bin/bash
# bash /verif/check.sh C01 [--tier quick|thorough] [--replay FILE] [--only SUBSTRING] : decide one property on /repo's working tree.
cd "$(dirname "$0")" || exit 2
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 LANG=C.UTF-8 PYTHONUTF8=1
unset PYTHONPATH TRACEON_LOG_LEVEL
export TRACEON_THREADS=${TRACEON_THREADS:-1}
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -P lib/main.py "$@"
