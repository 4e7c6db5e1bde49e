#!/bin/bash
# Builds the custom ops once; every check rebuilds them anyway when /repo changed.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
build_ops || exit 1
PYTHONPATH=$PYTHONPATH:$here:$here/vendor python -c "import hypothesis; print('hypothesis', hypothesis.__version__)"
