#!/bin/bash
# seedtest.sh ID...: confirm planted bugs in a scratch copy: patch applies, builds, tests pass, demo 0 / nonzero
for id in "$@"; do
 d=/verif/seeded/$id; w=$(mktemp -d /tmp/st.XXXX); cp -a /repo $w/r
 ( cd $w/r; git apply $d/patch.diff || { echo "$id: PATCH FAILS"; exit; }
   export CARGO_TARGET_DIR=$w/r/target RUSTUP_TOOLCHAIN=1.82.0 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only
   cargo test --offline --all-features > $w/log 2>&1 || { cargo test --offline > $w/log2 2>&1; }
   t=$(grep -h "^test result" $w/log | tr '\n' ';'); grep -h "FAILED\|^error" $w/log | head -5
   bash $d/demo.sh > $w/demo.log 2>&1; rc=$?
   (cd /repo; bash $d/demo.sh > $w/demo0.log 2>&1); rc0=$?
   echo "$id: tests [$t] demo patched=$rc base=$rc0"; tail -3 $w/demo.log; [ $rc0 = 0 ] || tail -20 $w/demo0.log
 ); rm -rf "$w"
done
