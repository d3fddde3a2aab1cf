#!/bin/bash
# nothing to build: the checks are Python and import /repo/src; verify the interpreter is usable
set -e
cd "$(dirname "$0")"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
mkdir -p evidence
"${PY:-python3}" -c "import jax, flax, numpy, scipy"
