#!/bin/bash
# check.sh PROPERTY [TIER]: decides one property for /repo's working tree.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
dir=$(mktemp -d /tmp/simcheck.XXXXXX) || exit 2
trap 'rm -rf "$dir"' EXIT
race=
case $prop in C01|C06|C10) race=race;; esac
level=exploration
case $prop in C04|C07) level=fault_enumeration;; esac
secs=60
[ "$tier" = thorough ] && secs=1200
secs=${SIM_SECONDS:-$secs}
"$here/build.sh" "$dir" $race || { echo "build failed" >&2; exit 2; }
mkdir -p "$here/evidence" "$here/replays" "$dir/t"
args=()
[ -n "$race" ] && args=(-race "$dir/simcheck-race")
"$dir/simcheck" check -property "$prop" -tier "$tier" -seed "$seed" -seconds "$secs" -workers "${SIM_WORKERS:-8}" "${args[@]}" \
  -evidence "$here/evidence/$prop.json" -replays "$here/replays" -tmp "$dir/t" -known "$here/known-findings.txt" -level "$level"
rc=$?
[ $rc -gt 1 ] && rc=2
exit $rc
