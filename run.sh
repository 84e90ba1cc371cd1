#!/bin/bash
# run.sh <property> [quick|thorough] [options of the check binary, e.g. -case N]
# Builds the check binary from /repo's working tree and runs the check of one property.
set -u
here=$(cd "$(dirname "$0")" && pwd)
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
shift
[ $# -gt 0 ] && shift
. /opt/vp/env.sh
mkdir -p "$here/bin" "$here/evidence" "$here/replay"
race=""
case $prop in C19) race="-race" ;; esac
bin="$here/bin/check$race"
(cd "$here/harness" && go build $race -o "$bin" ./cmd/check) || { echo "build failed" >&2; exit 2; }
exec "$bin" -prop "$prop" -root "$here" -tier "$tier" "$@"
