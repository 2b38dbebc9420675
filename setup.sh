#!/bin/bash
# nothing to build: check that the interpreter, Hypothesis and /repo import
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
exec env PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c '
import sys; sys.path.insert(0, "/verif")
from lib import harness
harness.bootstrap()
import hypothesis; print("hypothesis", hypothesis.__version__)
'
