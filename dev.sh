#!/bin/bash
# dev.sh FEATURES -> build IR and print path ; used while developing
cd /verif/harness && export RUST_BACKTRACE=0
f=${1:-}; [ "$f" = plain ] && f=; t=/verif/work/ir-${f:-plain}
cargo +1.85.1 rustc --offline --release --bin harness --target-dir $t ${f:+--features $f} -- --emit=llvm-ir -Clinker=/bin/true 2>&1 | grep -E "^error" -A9 | head -60 | cut -c1-200
ls -t $t/release/deps/harness-*.ll | head -1
