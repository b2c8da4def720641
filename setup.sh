#!/bin/bash
# Unpacks the harness dependencies and warms the build cache for the current tree.
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1
unset PYTHONPATH
cd "$HERE" || exit 2
exec /opt/venv/bin/python -m vh.build
