#!/bin/bash
# Nothing to build: pure Python. Checks that the tools the checks need are here.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
PYTHONPATH=/repo/src PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python - <<'PY'
import vlib.env
import hypothesis, numpy, scipy, mfpml
print("hypothesis", hypothesis.__version__, "numpy", numpy.__version__, "mfpml", mfpml.__file__)
PY
