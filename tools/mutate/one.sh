#!/bin/bash
# one.sh FILE INDEX CHECK...: builds the checks with one mutant of /repo's FILE (overlay) and runs them at full quick depth.
. /opt/vp/env.sh
d=$(mktemp -d /tmp/mutone.XXXX); mkdir $d/bin $d/evidence $d/replay; cp /verif/known_findings.json $d
/tmp/mutate /repo/$1 $2 $d/m.go || exit 2
diff /repo/$1 $d/m.go | head -20
echo "{\"Replace\":{\"/repo/$1\":\"$d/m.go\"}}" > $d/ov.json
(cd ${HARNESS:-/verif/harness} && go build -overlay $d/ov.json -o $d/bin/check ./cmd/check) || exit 2
shift 2
for c in $*; do $d/bin/check -prop $c -root $d -tier quick > $d/$c.log 2>&1; rc=$?; echo "$c rc=$rc $(grep -m1 -A1 ^VIOLATION $d/$c.log | cut -c1-300)"; done
rm -r $d
