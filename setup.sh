#!/bin/bash
# nothing to compile: check that the interpreter can import the repository
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="${VERIF_REPO:-/repo}:$here" PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -c "
from vlib import env
nimble = env.setup()
print('nimble', nimble.__version__, 'from', nimble.__file__)
"
