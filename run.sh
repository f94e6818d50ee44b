#!/bin/bash
# usage: run.sh PNN [--tier ...] [--replay FILE]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python run.py "$@"
