#!/bin/bash
# bash /verif/check.sh <PROPERTY> [quick|thorough]      run one check
# bash /verif/check.sh --replay <file>                  re-run one saved failing case
here="$(cd "$(dirname "$0")" && pwd)"
export VP_REPO="${VP_REPO:-/repo}"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 JAX_PLATFORMS=cpu TF_CPP_MIN_LOG_LEVEL=3
unset JAX_ENABLE_X64 JAX_DEBUG_NANS JAX_NUMPY_DTYPE_PROMOTION
exec /opt/venv/bin/python "$here/harness/run.py" "$@"
