#!/bin/bash
# Nothing is compiled: the checks import /repo/src directly. Make sure the interpreter and its libraries are there.
set -e
/opt/venv/bin/python -c "import numpy, scipy, cv2, numba, yaml, pandas, joblib, geographiclib, pynmea2"
