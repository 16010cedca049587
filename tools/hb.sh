#!/bin/bash
# development helper: build one harness binary and run it: hb.sh c01 [args]
b=$1; shift
cd /verif/harness
if [ -f /verif/tools/gen_$b.py ]; then mkdir -p /tmp/hb/gen; python3 /verif/tools/gen_$b.py /tmp/hb/gen/$b.rs ${VERIF_SEED:-1} ${VERIF_TIER:-quick}; export ${b^^}_RS=/tmp/hb/gen/$b.rs; fi
RUSTFLAGS="--cfg undine_verif -Awarnings" CARGO_TARGET_DIR=/verif/target cargo build -q --offline --release --bin $b || exit 3
mkdir -p /tmp/hb/$b
time /verif/target/release/$b ${b^^} /tmp/hb/$b "$@"
echo "exit $?"
