#!/bin/bash
# run.sh <PROPERTY> [quick|thorough]   |   run.sh replay <file>   |   run.sh determinism <PROPERTY> [n]
# Rebuilds the native ops from /repo's working tree, then runs the simulation.
cd "$(dirname "$0")" || exit 3
HERE=$PWD
. /opt/vp/env.sh
BLOG=$(mktemp)
if ! ( build_ops ) >"$BLOG" 2>&1; then
  echo "build of the native operations failed" >&2; tail -5 "$BLOG" >&2
fi
rm -f "$BLOG"
cd "$HERE" || exit 3
export TF_CPP_MIN_LOG_LEVEL=3 CUDA_VISIBLE_DEVICES= PYTHONWARNINGS=ignore
exec python -m sim.engine "$@"
