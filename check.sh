#!/bin/bash
# check.sh ID [replay file]: builds the check of a property against the working
# tree of /repo and runs it. Exit 0 held, 1 violation, 2 the check could not run.
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
id=${1:?usage: check.sh ID}
repo=/repo
root=$(cd "$(dirname "$0")" && pwd) || exit 2
cd "$root/harness" || exit 2
work=$(mktemp -d /tmp/aqlverif.XXXXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
trap 'exit 2' INT TERM
fail() {
    echo "error: $1" >&2
    cat "$work/log" >&2
    exit 2
}
cmd=core
flags=()
pflags=()
progs=()
case $id in
C16|C17) flags=(-race) ;;
C26) cmd=graph ;;
C28) progs=(cmd/aqltest) ;;
C29|C37) progs=(wasm/aqlparse) ;;
C30) progs=(wasm/aqlparse/server) pflags=(-race) ;;
C32) cmd=graph progs=(cmd/aqlgraph) ;;
esac
ld=(-ldflags "-X aqlverif/fw.Root=$root")
go build "${flags[@]}" "${ld[@]}" -o "$work/check" "./cmd/$cmd" >"$work/log" 2>&1 || fail "the check does not build"
# the programs under test, built from /repo without touching it
for prog in "${progs[@]}"; do
    [ "$prog" = wasm/aqlparse ] && export GOOS=js GOARCH=wasm
    go build -C "$repo" "${pflags[@]}" -o "$work/${prog##*/}" "./$prog" >"$work/log" 2>&1 || fail "$prog does not build"
    unset GOOS GOARCH
done
# a copy of the library whose parser is generated anew
if [ "$id" = C38 ]; then
    mkdir "$work/bin" "$work/regen" || exit 2
    cp -a "$repo/." "$work/regen/" && rm -rf "$work/regen/.git" || exit 2
    go build -C "$repo" -o "$work/bin/pigeon-real" github.com/mna/pigeon >"$work/log" 2>&1 || fail "the generator does not build"
    printf '#!/bin/sh\ntouch "%s/ran"\nexec "%s/bin/pigeon-real" "$@"\n' "$work" "$work" >"$work/bin/pigeon"
    chmod +x "$work/bin/pigeon"
    sed "s|=> $repo\$|=> $work/regen|" go.mod >"$work/regen.mod"
    cp go.sum "$work/regen.sum"
    grep -q "=> $work/regen" "$work/regen.mod" || exit 2
    if ! PATH=$work/bin:$PATH go generate -C "$work/regen" ./... >"$work/log" 2>&1 ||
        ! go build -modfile "$work/regen.mod" -o "$work/probe-regen" ./cmd/core >>"$work/log" 2>&1; then
        cp "$work/log" "$work/regen.err"
    fi
    [ -e "$work/ran" ] || fail "no parser was generated"
fi
# a program without the race detector
if [ "$id" = C17 ]; then
    go build "${ld[@]}" -o "$work/probe-plain" ./cmd/core >"$work/log" 2>&1 || fail "the program without the race detector does not build"
fi
# a program whose clock can be set
if [ "$id" = C36 ]; then
    goroot=$(go env GOROOT)
    sed 's/^\tsec, nsec, mono := runtimeNow()$/&\n\tsec += clockShift()/' "$goroot/src/time/time.go" >"$work/time.go"
    cp clock.go.txt "$work/clock.go"
    printf '{"Replace":{"%s/src/time/time.go":"%s/time.go","%s/src/time/clock.go":"%s/clock.go"}}' "$goroot" "$work" "$goroot" "$work" >"$work/overlay.json"
    go build -overlay "$work/overlay.json" "${ld[@]}" -o "$work/probe-clock" ./cmd/core >"$work/log" 2>&1 || fail "the program with another clock does not build"
fi
export VERIF_REPO=$repo VERIF_BUILD=$work VERIF_GOROOT=$(go env GOROOT)
if [ -n "$2" ]; then
    "$work/check" -replay "$2"
else
    "$work/check" -prop "$id"
fi
