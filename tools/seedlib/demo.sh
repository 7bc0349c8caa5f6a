#!/bin/bash
# exit 0: the property holds for this scenario; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$here" TMPDIR="$work" JAX_PLATFORMS=cpu CUDA_VISIBLE_DEVICES= TF_CPP_MIN_LOG_LEVEL=3 NO_GCE_CHECK=true
timeout 280 /opt/venv/bin/python "$here/demo.py"
rc=$?
rm -rf "$work"
exit $rc
