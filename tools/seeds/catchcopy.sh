#!/bin/bash
# catchcopy.sh [id ...]: like catch.sh, in a copy of /repo and of the harness (can run beside other work).
w=$(mktemp -d /tmp/catch.XXXXXX); . /opt/vp/env.sh
cp -a /verif/harness $w/harness; cp /verif/known_findings.json $w/; mkdir -p $w/bin $w/evidence $w/replay
git -C /repo worktree prune; git clone -q /repo $w/repo
(cd $w/harness && sed -i "s#=> /repo#=> $w/repo#" go.mod)
cd $w
for id in ${*:-$(ls /verif/seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C $w/repo apply /verif/seeded/$id/patch.diff || continue
  race=""; [ $p = C19 ] && race=-race
  s=$(date +%s)
  (cd $w/harness && go build $race -o $w/bin/check$race ./cmd/check) && VERIF_SEED=${VERIF_SEED:-1} $w/bin/check$race -prop $p -root $w -tier ${TIER:-quick} > $w/log 2>&1; rc=$?
  v=$(grep -c "^VIOLATION property=$p" $w/log); t=$(( $(date +%s) - s ))
  git -C $w/repo checkout -q -- .
  if [ $rc = 1 ] && [ $v -gt 0 ]; then echo "$id $p CAUGHT (${t}s)"; else echo "$id $p MISSED rc=$rc (${t}s)"; fi
done
rm -rf "$w"
