#!/bin/bash
# Nothing to build: the machinery is pure Python and runs under the pre-installed venv with Hypothesis.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
/opt/veriftools/pyvenv/bin/python -c 'import hypothesis, sys; print("hypothesis", hypothesis.__version__, "python", sys.version.split()[0])'
