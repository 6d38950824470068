#!/bin/bash
# run.sh ID [args]  : one check
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && source /opt/vp/env.sh
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
PY=/opt/venv/bin/python
exec $PY -m vc.main "$@"
