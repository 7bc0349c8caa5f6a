#!/bin/bash
# check.sh <property> : runs one check against /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=${OMP_NUM_THREADS:-4}
export JAX_PLATFORMS=cpu CUDA_VISIBLE_DEVICES= TF_CPP_MIN_LOG_LEVEL=3 NO_GCE_CHECK=true
work=$(mktemp -d /tmp/verif.XXXXXX)
export TMPDIR=$work
/opt/venv/bin/python "$here/harness/run.py" "$@" 2>"$work/stderr"
rc=$?
if [ $rc -ne 0 ]; then grep -v '^[WE]0000\|^WARNING: All log' "$work/stderr" | tail -40 >&2; fi
rm -rf "$work"
exit $rc
