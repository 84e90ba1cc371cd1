#!/bin/bash
# v.sh <property> [tier]: distinct violations of a run, grouped (development help)
bash "$(dirname "$0")/../run.sh" "$1" "${2:-quick}" -v >/tmp/v.out.$$ 2>&1
rc=$?
grep -a "^  case" /tmp/v.out.$$ | sed -E 's/^  case [0-9]+: //; s#op[0-9]+#opN#g; s#[0-9]+#N#g' | cut -c1-${W:-220} | sort | uniq -c | sort -rn | head -${N:-30}
[ $rc -gt 1 ] && tail -15 /tmp/v.out.$$
rm -f /tmp/v.out.$$
exit $rc
