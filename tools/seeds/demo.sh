#!/bin/sh
# Run with the repository as working directory.
repo=$(pwd)
here=$(cd "$(dirname "$0")" && pwd) || exit 2
export HOME="${HOME:-/root}"
export PATH="$PATH:/opt/veriftools/go1.27.3/bin"
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod GO111MODULE=on GONOSUMDB='*' GOFLAGS=-mod=mod GONOSUMCHECK=1 GOSUMDB=off
dir=$(mktemp -d) || exit 2
trap 'rm -rf "$dir"' EXIT
cp "$here"/*.go "$dir"/ || exit 2
cp "$repo"/go.sum "$dir"/ 2>/dev/null
cat > "$dir/go.mod" <<M
module github.com/mem-memov/semnet/demo

go 1.18

require github.com/mem-memov/semnet v0.0.0

replace github.com/mem-memov/semnet => $repo
M
cd "$dir" || exit 2
go run .
