#!/bin/bash
# usage: check.sh <property id> [quick|thorough]      (or: check.sh --replay <file>)
here="$(cd "$(dirname "$0")" && pwd)"
unset PYTHONPATH
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1
export MPLBACKEND=Agg TZ=UTC OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export MPLCONFIGDIR="$here/.cache/mpl"
export HDF5_USE_FILE_LOCKING=FALSE
mkdir -p "$MPLCONFIGDIR"
cd "$here" || exit 3
exec /opt/venv/bin/python -B -m mc.run "$@"
