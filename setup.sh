#!/bin/bash
# Nothing to build: the checks run from the committed files. Verify the tools.
cd "$(dirname "$0")" || exit 1
set -e
command -v tlc >/dev/null
for f in spec/*.tla; do test -s "$f"; done
PYTHONPATH=/repo JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore -c 'import jax, numpy'
mkdir -p evidence
