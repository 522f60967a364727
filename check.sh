#!/bin/bash
# usage: check.sh <property id> [--tier quick|thorough] [--replay FILE]
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
cd "$(dirname "$0")" || exit 2
exec python lib/main.py "$@"
