#!/bin/bash
# usage: check.sh PROPERTY
# Builds the simulator from /repo's working tree and searches for a violation.
# Environment: VERIF_SEED (default 1), VERIF_TIER (quick|thorough).
# Exit 0: held on everything explored; 1: VIOLATION line printed; else: error.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
prop="$1"; shift
tier="${VERIF_TIER:-quick}"
seed="${VERIF_SEED:-1}"
mkdir -p "$here/.build"
dir="$(mktemp -d "$here/.build/run-$prop-XXXXXX")" || exit 3
trap 'rm -rf "$dir"' EXIT
if ! python3 "$here/tools/build.py" "$dir"; then
  echo "check error: the simulator could not be built from the working tree" >&2
  exit 3
fi
if [ "$tier" = thorough ]; then
  "$dir/sim" check -prop "$prop" -tier thorough -seed "$seed" -count "${VERIF_RUNS:-100000000}" -secs "${VERIF_SECS:-780}" -verif "$here" "$@"
else
  "$dir/sim" check -prop "$prop" -tier quick -seed "$seed" -secs "${VERIF_SECS:-240}" -verif "$here" "$@"
fi
