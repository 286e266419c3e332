#!/bin/bash
# check.sh PROPERTY quick|thorough [--replay FILE]
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 LC_ALL=C.UTF-8
exec /opt/venv/bin/python -m mc.run "$@"
