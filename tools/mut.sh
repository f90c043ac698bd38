#!/bin/sh
# tools/mut.sh FILE 'python expression over s' CHECK..: apply a mutation to /repo, run checks, undo
F=/repo/src/$1; X=$2; shift 2
python3 - "$F" "$X" <<'P' || { echo "-- NO CHANGE $X"; exit 9; }
import sys
p,x=sys.argv[1:]; s=open(p).read(); t=eval(x)
assert s!=t, "no change"
open(p,'w').write(t)
P
echo "-- $X" | cut -c1-110
for i in "$@"; do /verif/check.sh $i quick 2>&1 | grep -E "VIOLATION|held|VIOLATED|rror" | head -2 | cut -c1-300; done
git -C /repo checkout -q -- .
