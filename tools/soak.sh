#!/bin/sh
# tools/soak.sh N CHECK..: the checks stay quiet whatever the seed
N=$1; shift
for c in "$@"; do for s in $(seq 1001 $((1000+N))); do VERIF_SEED=$s /verif/check.sh $c quick >/tmp/soak.log 2>&1 || { echo "$c seed $s: rc $?"; tail -3 /tmp/soak.log | cut -c1-400; }; done; done
echo soaked
