#!/bin/bash
# check.sh <property> [options of mc/main.py]
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export LC_ALL=C.UTF-8
exec /opt/venv/bin/python -B -m mc.main "$@"
