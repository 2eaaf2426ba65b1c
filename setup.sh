#!/bin/bash
# Builds the native operations from /repo's working tree and checks that the simulator starts.
cd "$(dirname "$0")" || exit 3
. /opt/vp/env.sh
( build_ops ) >/dev/null 2>&1 || echo "native operations did not build" >&2
cd "$(dirname "$0")" 2>/dev/null || cd /verif
python -c "import sys; sys.path.insert(0, '/verif'); from sim import boot; print('simulator ready')"
