#!/bin/bash
# Pre-compiles the numba kernels of the current /repo tree into .cache (keyed by a hash of the tree).
cd "$(dirname "$(readlink -f "$0")")" || exit 2
. ./env.sh
exec "$VERIF_PY" -m mc.run --warm
