#!/bin/bash
# Nothing to compile: checks import datafold from /repo's working tree. Verify that the interpreter works.
cd "$(dirname "$0")" || exit 1
PYTHONPATH=/repo PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore -c "import numpy, scipy, pandas, sklearn; print('ok')"
