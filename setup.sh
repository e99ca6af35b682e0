#!/bin/bash
# Warms the build cache; every check builds what it needs by itself.
set -e
cd "$(dirname "$0")/harness"
source ./env.sh
export GOFLAGS=-mod=readonly
d=$(mktemp -d)
trap 'rm -rf -- "$d"' EXIT
go test -c -o "$d/a.test" ./props
CGO_ENABLED=1 go test -c -race -o "$d/b.test" ./props
