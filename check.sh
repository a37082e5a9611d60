#!/bin/bash
# bash check.sh ID [options of lib/run.py]: decides one property (see lib/run.py)
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python lib/run.py "$@"
