#!/bin/bash
# catch.sh [id ...]: applies each seeded bug to /repo, runs the quick check of its property (or ALL=1: all checks), undoes it.
cd /verif || exit 2
[ -n "$(git -C /repo status --porcelain)" ] && { echo /repo not clean; exit 2; }
for id in ${*:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || continue
  props=$p; [ -n "$ALL" ] && props=$(seq -f C%02g 1 24)
  out=""
  for q in $props; do
    s=$(date +%s)
    bash run.sh $q ${TIER:-quick} >/tmp/catch.$q.log 2>&1; rc=$?
    v=$(grep -c "^VIOLATION property=$q" /tmp/catch.$q.log)
    if [ $rc = 1 ] && [ $v -gt 0 ]; then out="$out $q"; elif [ $rc != 0 ]; then out="$out $q(rc=$rc)"; fi
    t=$(( $(date +%s) - s ))
  done
  git -C /repo checkout -- . ; git -C /repo clean -fdq
  case " $out " in *" $p "*) echo "$id $p CAUGHT by$out (${t}s)";; *) echo "$id $p MISSED ($out) (${t}s)";; esac
done
