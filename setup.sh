#!/bin/bash
# Nothing is compiled ahead of time: tslearn is pure Python, its kernels are
# compiled by numba in each check.  This only verifies the toolchain is there.
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1 KERAS_BACKEND=torch CUDA_VISIBLE_DEVICES=
mkdir -p evidence
exec /opt/venv/bin/python - <<'PY'
import sys
sys.path.insert(0, "/repo"); sys.path.insert(0, ".")
import numpy, scipy, sklearn, numba, torch, tslearn
import vmon.core, vmon.gen, vmon.ref
print("ready: tslearn", tslearn.__version__, "from", tslearn.__file__)
PY
