#!/bin/bash
# check.sh PXX [args]: run one check against /repo's current working tree.
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
exec "$PY" -m mc.run "$@"
