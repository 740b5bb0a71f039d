#!/bin/bash
# Nothing to build: the monitors are Python and import gerabaldi from /repo's working tree. Sanity check only.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo:. /opt/venv/bin/python -c 'import numpy, pandas, scipy, vp.core'
