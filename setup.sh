#!/bin/bash
# Nothing to build: checks load /repo's sources directly.  Verifies that both interpreters and the solver are there.
cd "$(dirname "$0")" || exit 1
python3-vt -c 'import z3; print("z3", z3.get_version_string())' || exit 1
PYTHONPATH=/repo /opt/venv/bin/python -c 'import numpy, PyNite; print("numpy", numpy.__version__)' || exit 1
