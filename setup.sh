#!/bin/bash
# Builds the verification-condition generator from the committed, vendored sources.
cd "$(dirname "$0")" || exit 1
V=$(pwd)
. "$V/env.sh"
mkdir -p "$V/bin" || exit 1
cd "$V/govc" && GOFLAGS=-mod=vendor go build -o "$V/bin/govc" . || exit 1
echo "built $V/bin/govc"
