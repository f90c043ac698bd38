#!/bin/sh
# tools/revert.sh COMMIT CHECK..: do the checks notice when a fix is undone?
C=$1; shift
git -C /repo diff $C $C^ | git -C /repo apply || exit 9
for i in "$@"; do /verif/check.sh $i quick 2>&1 | grep -E "VIOLATION|held|VIOLATED|rror" | head -3; done
git -C /repo checkout -- .
