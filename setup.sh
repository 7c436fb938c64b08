#!/bin/bash
# Self-check of the framework: compile the module overrides, check them against
# the TLA+ definitions and against Python's exact arithmetic.
cd "$(dirname "$0")" || exit 2
export OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python harness/selfcheck.py
