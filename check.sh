#!/bin/bash
# check.sh <property> <quick|thorough> [...]: builds the custom ops from /repo's working
# tree, then runs the property's generated-input search.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
log=$(mktemp)
( flock 9 2>/dev/null; build_ops ) 9>/tmp/.verif_build.lock >"$log" 2>&1
if [ $? -ne 0 ]; then cat "$log"; rm -f "$log"; echo "build of the custom ops failed"; exit 4; fi
rm -f "$log"
export PYTHONPATH=$PYTHONPATH:$here:$here/vendor
export VERIF_SEED=${VERIF_SEED:-1}
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 HYPOTHESIS_STORAGE_DIRECTORY=/nonexistent
cd "$here" && exec python -m vf.run "$@"
