#!/bin/bash
# replay.sh FILE: executes a replay file against /repo's working tree.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
file=$(readlink -f "$1")
dir=$(mktemp -d /tmp/simcheck.XXXXXX) || exit 2
trap 'rm -rf "$dir"' EXIT
race=
grep -q '"race": true' "$file" && race=race
"$here/build.sh" "$dir" $race || { echo "build failed" >&2; exit 2; }
"$dir/simcheck" replay -race "$dir/simcheck-race" "$file"
