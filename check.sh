#!/bin/bash
# usage: check.sh <property> [quick|thorough]
V="$(cd "$(dirname "$0")" && pwd)"
P="$1"; T="${2:-quick}"
export VERIF_SEED="${VERIF_SEED:-1}"
if [ ! -x "$V/.build/govc" ] || [ -n "$(find "$V/govc" -newer "$V/.build/govc" -name '*.go' | head -1)" ]; then
  "$V/build.sh" >&2 || { echo "govc does not build" >&2; exit 2; }
fi
exec "$V/.build/govc" -verif "$V" -prop "$P" -tier "$T" -seed "$VERIF_SEED"
