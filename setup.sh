#!/bin/bash
# Compiles everything the checks compile, so that they find it in Go's build cache.
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
cd /verif/harness || exit 1
go build -o /dev/null ./cmd/core || exit 1
go build -race -o /dev/null ./cmd/core || exit 1
go build -o /dev/null ./cmd/graph || exit 1
goroot=$(go env GOROOT)
work=$(mktemp -d /tmp/aqlverif.XXXXXX) || exit 1
sed 's/^\tsec, nsec, mono := runtimeNow()$/&\n\tsec += clockShift()/' "$goroot/src/time/time.go" >"$work/time.go"
cp clock.go.txt "$work/clock.go"
printf '{"Replace":{"%s/src/time/time.go":"%s/time.go","%s/src/time/clock.go":"%s/clock.go"}}' "$goroot" "$work" "$goroot" "$work" >"$work/overlay.json"
go build -overlay "$work/overlay.json" -o /dev/null ./cmd/core
rm -rf -- "${work:?}"
cd /repo || exit 1
go build -o /dev/null github.com/mna/pigeon || exit 1
go build -o /dev/null ./cmd/aqltest || exit 1
go build -o /dev/null ./cmd/aqlgraph || exit 1
go build -race -o /dev/null ./wasm/aqlparse/server || exit 1
GOOS=js GOARCH=wasm go build -o /dev/null ./wasm/aqlparse || exit 1
