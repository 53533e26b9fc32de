#!/bin/bash
# usage: run.sh <property id> <quick|thorough>     (also: run.sh --replay FILE)
# Sets the environment up, rebuilds the compiled extensions from /repo's working tree, and runs one check.
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 NUMBA_NUM_THREADS=1 MKL_NUM_THREADS=1
unset PYTHONPATH
here="$(cd "$(dirname "$0")" && pwd)"
SCRATCH="$(mktemp -d /tmp/verif_scratch.XXXXXX)" || exit 3
export SCRATCH MPLCONFIGDIR="$SCRATCH/mpl"
mkdir -p "$MPLCONFIGDIR"
if ! python /opt/vp/build_ext.py > "$SCRATCH/build.log" 2>&1; then
    echo "ERROR: the compiled extensions do not build"; tail -20 "$SCRATCH/build.log"
    rm -rf "$SCRATCH"; exit 3
fi
cd "$SCRATCH" || exit 3
if [ "$1" = "--replay" ]; then
    python "$here/lib/vk.py" --replay "$2"; rc=$?
else
    python "$here/lib/vk.py" "$1" "${2:-quick}"; rc=$?
fi
cd / && rm -rf "$SCRATCH"
exit $rc
