#!/bin/bash
# Nothing to compile: verify that interpreter, dependencies and the code under test can be imported.
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="${REPO:-/repo}:$here" MPLBACKEND=Agg /opt/venv/bin/python -W ignore -c "
import portfolyo, zoneinfo, mc.engine, mc.pfm
zoneinfo.ZoneInfo('Europe/Berlin')
print('setup ok', portfolyo.__file__)"
