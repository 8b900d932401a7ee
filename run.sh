#!/bin/bash
# run.sh <Cxx> [--tier quick|thorough] [--space a,b] [--replay FILE]: one check against /repo's working tree.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent/pyc PYTHONPATH="${VERIF_REPO:-/repo}:$PWD" PYTHONHASHSEED=0
id=$(echo "$1" | tr 'C' 'c'); shift
exec /opt/venv/bin/python -B -W ignore -m mc.checks.$id "$@"
