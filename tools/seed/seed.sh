#!/bin/bash
# seed.sh ID...: confirms planted bugs in a scratch copy (builds, tests pass, demo passes without and fails with it).
# The copy in /tmp/seed is kept for speed: remove it when done.
cd /verif/seeded || exit 1
S=/tmp/seed; mkdir -p $S
rsync -a --delete --exclude target --exclude .git /repo/ $S/repo/ 2>/dev/null || { mkdir -p $S/repo; cp -a /repo/src /repo/tests /repo/benches /repo/Cargo.* $S/repo/; }
export HOME=/root RUSTUP_TOOLCHAIN=1.85.1 CARGO_NET_OFFLINE=true RUST_BACKTRACE=0
for id in "$@"; do
  cp /verif/tools/seed/demo.sh /verif/tools/seed/kit.rs $id/
  rm -rf $S/repo/src; cp -r /repo/src $S/repo/src; find $S/repo/src -type f -exec touch {} +
  (cd $S/repo && DEMO_TARGET=$S/dt bash /verif/seeded/$id/demo.sh > $S/ok.log 2>&1); a=$?
  (cd $S/repo && git apply --unsafe-paths --directory=$S/repo /verif/seeded/$id/patch.diff 2>/dev/null || patch -s -p1 < /verif/seeded/$id/patch.diff) || { echo "$id: patch does not apply"; continue; }
  (cd $S/repo && DEMO_TARGET=$S/dt bash /verif/seeded/$id/demo.sh > $S/bad.log 2>&1); b=$?
  t=ok
  [ -n "$NOTEST" ] || for f in --all-features ""; do
    (cd $S/repo && CARGO_TARGET_DIR=$S/tt timeout 300 cargo test --offline --locked $f -- --test-threads 1 > $S/test.log 2>&1) || { t="TESTS FAIL $f: $(grep -E '^test .*FAILED|^error' $S/test.log | head -3 | tr '\n' ' ')"; break; }
  done
  echo "$id: demo unpatched=$a patched=$b tests=$t | $(tail -1 $S/bad.log | cut -c1-120)"
  [ $a = 0 ] || tail -5 $S/ok.log | cut -c1-200
done
