#!/bin/bash
# tools/sens.sh PATCH CHECK.. : run checks against a scratch copy of /repo with PATCH applied (-R PATCH: reversed)
rev=""; [ "$1" = "-R" ] && { rev="-R"; shift; }
patch=$(readlink -f "$1"); shift
d=$(mktemp -d /tmp/sens-XXXXXX)
cp -a /repo/. $d/
git -C $d apply $rev "$patch" || { echo "PATCH FAILED"; rm -rf "$d"; exit 3; }
for c in "$@"; do
  (cd /verif && MLREPO=$d ./check $c ${SENS_ARGS:-} > $d.log 2>&1; rc=$?; echo "$(basename $patch) $c exit=$rc $(grep -c '^VIOLATION' $d.log) $(grep -v "^C[0-9][0-9]/" $d.log | head -1 | cut -c1-160)")
done
rm -rf "$d" $d.log
