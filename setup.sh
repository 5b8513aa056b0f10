#!/bin/bash
# Builds the harness once to show that it builds offline and to warm the build
# cache; every check builds it again from /repo's working tree.
set -e
cd "$(dirname "$0")/harness"
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
go test -c -mod=readonly -o "$tmp/h.test" .
go test -c -race -mod=readonly -o "$tmp/hr.test" .
