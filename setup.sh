#!/bin/bash
# Nothing to install: the checks use /opt/venv (numpy, h5py, vtk) and the
# Hypothesis of /opt/veriftools. This only verifies that both are there.
set -e
bash /opt/vp/build.sh ext >/dev/null
here=$(cd "$(dirname "$0")" && pwd); cd "$(mktemp -d)"
/opt/venv/bin/python -W ignore - <<PY
import sys
sys.path.insert(0, '$here')
from harness.core import import_hypothesis
print('hypothesis', import_hypothesis().__version__)
PY
