#!/bin/bash
# Nothing to build: the checks are Python run against /repo/src.  Sanity only.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -c "import celpy, kr8s, fastjsonschema; print('ready')"
