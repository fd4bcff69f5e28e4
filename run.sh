#!/bin/bash
# usage: run.sh <PID> <quick|thorough> | run.sh replay <file> | run.sh setup
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. /opt/vp/env.sh
export HERE_VERIF="$here"
unset PYTHONPATH
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -W ignore "$here/harness/main.py" "$@"
