#!/bin/bash
# bash run_check.sh <PROPERTY> [--tier quick|thorough] [--seed N] [--only target,..] [--replay FILE]
cd "$(dirname "$(readlink -f "$0")")" || exit 3
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 LC_ALL=C.UTF-8 LANG=C.UTF-8
unset PYTHONPATH JAVA_TOOL_OPTIONS
exec /opt/veriftools/pyvenv/bin/python -m vf "$@"
