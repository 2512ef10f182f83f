#!/bin/bash
# nothing to compile: the checks run copt from /repo's working tree
cd "$(dirname "$0")" || exit 1
mkdir -p evidence out
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import numpy, scipy, sklearn"
