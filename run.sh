#!/bin/bash
# usage: run.sh <PROPERTY> [--tier quick|thorough] [--replay FILE] [--cases N] [--jobs N]
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
cd "$here" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export PYTHONPATH="$here:/opt/vp/py2"
exec /opt/venv/bin/python -u -m vf.main "$@"
