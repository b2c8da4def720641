#!/bin/bash
# check.sh PROPERTY [--tier quick|thorough] [--replay FILE]
# Decides one property of /repo's current working tree (see DESIGN.md).
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export LANG=C.UTF-8 LC_ALL=C.UTF-8 TZ=UTC PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg
unset PYTHONPATH PYTHONSTARTUP LD_PRELOAD
cd "$HERE" || exit 2
exec /opt/venv/bin/python -m vh.runner "$@"
