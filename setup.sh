#!/bin/bash
# Nothing is installed or kept: every check compiles /repo's native code into a scratch directory of its own.
# This verifies that the tools the checks need are there.
set -eu
cd "$(dirname "$0")"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
PYTHONDONTWRITEBYTECODE=1 "$PY" - <<'EOF'
import ast, glob
import numpy, scipy, meshio
for f in glob.glob('lib/*.py') + glob.glob('checks/*.py'):
    ast.parse(open(f).read(), f)
EOF
command -v clang >/dev/null || command -v gcc >/dev/null
mkdir -p evidence
echo "setup ok"
