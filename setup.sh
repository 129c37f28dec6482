#!/bin/bash
# Nothing to compile: the checks import /repo's sources. Fails early if the
# interpreter or the pre-installed libraries are missing.
cd "$(dirname "$0")" || exit 1
MPLBACKEND=Agg MPLCONFIGDIR=$(mktemp -d) PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import numpy, scipy, matplotlib, pandas, pynmea2" || exit 1
mkdir -p evidence out
