#!/bin/bash
# check.sh <property> [--tier quick|thorough] [--seed N] [--replay FILE] [--one CASE]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec "${DST_PYTHON:-/opt/venv/bin/python}" -m dst.harness "$@"
