#!/bin/bash
# build.sh DIR [race]: instruments /repo's working tree and builds the simulator in DIR.
set -e
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
dir=$1
for g in /opt/veriftools/go1.27.3/bin /opt/veriftools/go1.26*/bin /usr/local/go/bin; do
  [ -x "$g/go" ] && { export PATH=$g:$PATH; break; }
done
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GO111MODULE=on GOWORK=off GOSUMDB=off
mkdir -p "$dir/m"
cp "$here/sim/mod.txt" "$dir/m/go.mod"
cp "$here/sim/sum.txt" "$dir/m/go.sum"
cp -r "$here/sim/simrt" "$here/sim/simcheck" "$dir/m/"
go run "$here/sim/gen/main.go" -src "${SIM_SRC:-/repo}" -out "$dir/m" >&2
cd "$dir/m"
if [ "$2" = race ]; then
  go build -o "$dir/simcheck" ./simcheck >&2 &
  p=$!
  CGO_ENABLED=1 go build -race -o "$dir/simcheck-race" ./simcheck >&2
  wait $p
else
  go build -o "$dir/simcheck" ./simcheck >&2
fi
