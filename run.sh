#!/bin/bash
# usage: run.sh <PROPERTY-ID>   (VERIF_TIER=quick|thorough, VERIF_SEED=n)
# Runs one check against /repo's current working tree.
here="$(cd "$(dirname "$0")" && pwd)"
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export PYTHONPATH="/repo:$here"
export MPLBACKEND=Agg TF_CPP_MIN_LOG_LEVEL=3 CUDA_VISIBLE_DEVICES=-1 TF_ENABLE_ONEDNN_OPTS=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export LC_ALL=C.UTF-8
unset EML_DEBUG_LOG EML_DEBUG_FATAL_ERRORS CFLAGS CPPFLAGS LDFLAGS
id="$1"; shift
/opt/venv/bin/python -W ignore -m checks.run "$id" "$@"
rc=$?
case $rc in
132|134|135|136|139)
    # the code under test, loaded into Python, brought the process down
    mkdir -p "$here/evidence/replay"
    printf '{"property": "%s", "key": "process-crash", "detail": {"status": %d, "how": "run again: the process that holds the extension modules ends with a signal"}}\n' "$id" $rc > "$here/evidence/replay/$id-crash.json"
    echo "VIOLATION property=$id replay=$here/evidence/replay/$id-crash.json"
    rc=1;;
esac
exit $rc
