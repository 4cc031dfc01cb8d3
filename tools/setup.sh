#!/bin/bash
# Nothing to build: the checks import the library from /repo's working tree. Verifies the environment.
set -e
cd "$(dirname "$0")/.."
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo:. /opt/venv/bin/python - <<'PY'
import specfile, rpm, vf.core
assert specfile.__file__.startswith("/repo/"), specfile.__file__
print("ok", rpm.__version__)
PY
