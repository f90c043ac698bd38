#!/bin/sh
# run TLC by hand: tools/t.sh Module [cfg]
cd /verif/specs; M=$1; C=${2:-$1.cfg}
exec timeout 600 java -Xss512m -XX:+UseParallelGC -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -workers 8 -noGenerateSpecTE -metadir /tmp/tlcm -config $C $M.tla 2>&1 | grep -v "^Parsing\|^Semantic proc\|^Linting"
