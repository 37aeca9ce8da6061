#!/bin/bash
# Nothing to build: the checks import the Python sources of /repo directly.
# This only verifies that the interpreter and libraries the checks use are there.
set -e
cd "$(dirname "$0")"
exec /opt/venv/bin/python - <<'P'
import hypothesis, numpy, scipy, dill, yaml, soundfile
print("setup ok: hypothesis", hypothesis.__version__, "numpy", numpy.__version__)
P
