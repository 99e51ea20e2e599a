#!/bin/bash
# Nothing to compile: the checks import /repo's working tree directly.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence
PYTHONPATH=/repo PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore -c "import kmcpy, numpy, numba, pymatgen" 
