#!/bin/bash
# check.sh <property> [--replay FILE]: see harness/check.py
cd "$(dirname "$0")"
export PYTHONPATH="${HK_REPO:-/repo}" JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore
export TF_CPP_MIN_LOG_LEVEL=3 JAX_ENABLE_X64=0
exec /opt/venv/bin/python -W ignore harness/check.py "$@"
