#!/bin/bash
# run.sh PROPERTY...: the checks of the properties on a copy of /repo in which every match also
# goes through most concurrency constructs of the language. They have to stay quiet.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
dir=$(mktemp -d /tmp/torture.XXXXXX) || exit 2
trap 'rm -rf "$dir"' EXIT
cp -a /repo "$dir/repo"
cp "$here/torture.go.txt" "$dir/repo/torture.go"
sed -i 's/^	m.tokens.Reset(data)$/	torture()\n	m.tokens.Reset(data)/' "$dir/repo/fastMatcher.go"
for p in "${@:-C02}"; do
  SIM_SRC=$dir/repo SIM_SECONDS=${SIM_SECONDS:-15} bash "$here/../../check.sh" "$p" quick 2>&1 | tail -3 | cut -c1-900
done
