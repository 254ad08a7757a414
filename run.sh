#!/bin/bash
# usage: run.sh <property> [--tier quick|thorough] [--seed N] [--replay FILE]
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg QT_QPA_PLATFORM=offscreen
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
unset PYTHONBREAKPOINT
export MPLCONFIGDIR="$(mktemp -d /tmp/vt-mpl.XXXXXX)"
trap 'rm -rf "$MPLCONFIGDIR"' EXIT
py=/opt/venv/bin/python
cd "$here" || exit 3
"$py" -W ignore -c 'import sys; sys.path.insert(0, "'"$here"'"); from vt.core import main; sys.exit(main(sys.argv[1:]))' "$@"
