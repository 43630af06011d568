#!/bin/bash
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p .bin evidence
go build -o .bin/check ./cmd/check || exit 1
# warm the build cache for the oracles (best effort)
(cd /repo && go build ./... && go test -vet=off -c -o /dev/null . ) >/dev/null 2>&1
exit 0
