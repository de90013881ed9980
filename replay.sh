#!/bin/bash
# usage: replay.sh FILE     replays a violation on /repo's working tree
set -u
here="$(cd "$(dirname "$0")" && pwd)"
file="$(realpath "$1")"
mkdir -p "$here/.build"
dir="$(mktemp -d "$here/.build/replay-XXXXXX")" || exit 3
trap 'rm -rf "$dir"' EXIT
python3 "$here/tools/build.py" "$dir" || exit 3
"$dir/sim" rerun -file "$file"
