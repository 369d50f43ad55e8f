#!/bin/bash
# Nothing to build: the checks are Python and import /repo's working tree.
set -e
cd "$(dirname "$0")"
mkdir -p evidence replays
PYTHONPATH=vendor /opt/venv/bin/python -c "import hypothesis; print('hypothesis', hypothesis.__version__)"
