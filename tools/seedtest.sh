#!/bin/bash
# tools/seedtest.sh ID..: confirm planted bugs in a scratch copy: the demo passes without the change, the change
# builds, the stable tests still pass, and the demo fails with it.
W=/tmp/seedwork; mkdir -p $W
if [ ! -d $W/repo ]; then cp -a /repo $W/repo; fi
R=$W/repo
git -C $R fetch -q /repo HEAD 2>/dev/null; git -C $R checkout -q -f FETCH_HEAD 2>/dev/null
for id in "$@"; do
  D=/verif/seeded/$id
  git -C $R checkout -q -- .
  (cd $R && timeout 300 bash $D/demo.sh >$W/demo0.log 2>&1); a=$?
  git -C $R apply $D/patch.diff || { echo "$id: patch does not apply"; continue; }
  (cd $R && CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only cargo test --workspace --no-fail-fast --offline --locked >$W/test.log 2>&1); t=$?
  passed=$(grep -E '^test .* ok$' $W/test.log | wc -l)
  (cd $R && timeout 300 bash $D/demo.sh >$W/demo1.log 2>&1); b=$?
  echo "$id: demo without=$a tests rc=$t passed=$passed demo with=$b"
  [ $a -ne 0 ] && tail -5 $W/demo0.log
  [ $b -eq 0 ] && tail -5 $W/demo1.log
  git -C $R checkout -q -- .
done
