#!/bin/bash
# Warms the build cache: builds the check binaries with and without the race detector.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
mkdir -p "$here/bin" "$here/evidence" "$here/replay"
cd "$here/harness"
go build -o "$here/bin/check" ./cmd/check
go build -race -o "$here/bin/check-race" ./cmd/check
