#!/bin/bash
# setup.sh : build the engine into bin/symgo unless it is up to date
set -eu
here=$(cd "$(dirname "$0")" && pwd)
cd "$here/engine"
sum=$(cat ./*.go go.mod go.sum | sha256sum | cut -d' ' -f1)
if [ -x "$here/bin/symgo" ] && [ "$(cat "$here/bin/symgo.sum" 2>/dev/null)" = "$sum" ]; then exit 0; fi
mkdir -p "$here/bin"
export GOFLAGS=-mod=readonly GOPROXY=off GOTOOLCHAIN=local GOWORK=off
go build -o "$here/bin/symgo.$$" .
mv "$here/bin/symgo.$$" "$here/bin/symgo"
echo "$sum" > "$here/bin/symgo.sum"
