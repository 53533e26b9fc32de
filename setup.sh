#!/bin/bash
# Nothing to install: compiles the extensions of /repo's working tree (as each check does again) and checks the tools.
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1
python /opt/vp/build_ext.py > /dev/null 2>&1
python -c 'import numpy, scipy, numba' || exit 1
mkdir -p "$(dirname "$0")/evidence"
exit 0
