#!/bin/bash
# usage: run.sh <PROPERTY> [--tier quick|thorough]   |   run.sh replay <file>
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
[ -d /opt/vp/mplconfig ] && cp -r /opt/vp/mplconfig/. "$tmp/" 2>/dev/null
export MPLBACKEND=Agg MPLCONFIGDIR="$tmp" PYTHONPATH="${REPO:-/repo}:$here"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TZ=UTC
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export LANG=C.UTF-8 HOME="${HOME:-/root}" MC_SCRATCH="$tmp"
unset PYTHONHOME DISPLAY WAYLAND_DISPLAY
cd "$here" || exit 2
/opt/venv/bin/python -W ignore -m mc "$@"
