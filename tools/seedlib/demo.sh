#!/bin/bash
# exit 0 when the property holds, nonzero otherwise; run from the repository root
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg QT_QPA_PLATFORM=offscreen TZ=UTC
exec /opt/venv/bin/python -W ignore "$here/demo.py"
