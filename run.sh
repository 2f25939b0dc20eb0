#!/bin/bash
# run.sh PROPERTY [--tier quick|thorough] [--replay FILE] [--stats]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED="${MC_HASHSEED:-0}" PYTHONUNBUFFERED=1
unset PYTHONPATH PYTHONSTARTUP PYTHONOPTIMIZE
exec /opt/venv/bin/python -m mc.main "$@"
