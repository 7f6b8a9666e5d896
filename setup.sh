#!/bin/bash
# Warms the build cache, so that a check starts quickly. A check builds everything it needs by itself.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
dir=$(mktemp -d /tmp/simcheck.XXXXXX) || exit 1
trap 'rm -rf "$dir"' EXIT
"$here/build.sh" "$dir" race
