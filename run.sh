#!/bin/bash
# run.sh PROPERTY [quick|thorough] [--replay FILE] [--dev] [--kind K] [--cases N]
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="${VERIF_REPO:-/repo}:$here"
export PYTHONHASHSEED=0 LC_ALL=C.UTF-8 LANG=C.UTF-8
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -m vlib.main "$@"
