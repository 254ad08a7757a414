#!/bin/bash
# Nothing to compile; verifies that the interpreter and its libraries are present.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
export PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python -W ignore -c '
import sys
sys.path.insert(0, "companions")
import numpy, scipy, networkx, sklearn, shapely, matplotlib
import vartools, dynamic_obstacle_avoidance
print("numpy", numpy.__version__)
'
