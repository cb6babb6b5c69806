#!/bin/bash
# check.sh <property id> [args of run.py]: rebuild /repo's extensions, run the check.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root LANG="${LANG:-C.UTF-8}"
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg MPLCONFIGDIR=/opt/mplconfig
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 HYPOTHESIS_STORAGE_DIRECTORY=/nonexistent
unset PYTHONPATH
log=$(mktemp)
work=$(mktemp -d)
trap 'rm -rf "$work" "$log"' EXIT
if ! bash /opt/vp/build.sh ext >"$log" 2>&1; then
    tail -n 30 "$log" >&2
    echo "check.sh: /repo does not build" >&2
    exit 2
fi
args=()
for a in "$@"; do
    if [ -f "$a" ]; then a=$(realpath "$a"); fi
    args+=("$a")
done
cd "$work" || exit 2
/opt/venv/bin/python -W ignore "$here/run.py" "${args[@]}"
rc=$?
exit $rc
