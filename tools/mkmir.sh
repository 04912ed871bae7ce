#!/bin/bash
# mkmir.sh OUTDIR : MIR of /repo's current working tree into OUTDIR/mir
# Uses a scratch target directory (hard links of the dependencies already
# built in /repo/target when they are there), removed afterwards.
OUT=$1
mkdir -p "$OUT"
cp "$(dirname "$0")/rustc_wrapper.sh" "$OUT/w.sh"
. /opt/vp/env.sh >/dev/null
R=${VERIF_REPO:-/repo}
cd "$R" || exit 3
T=$R/target/verif-$$
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/debug"
if [ -d $R/target/debug/deps ]; then
  for d in deps .fingerprint build; do
    [ -d "$R/target/debug/$d" ] && cp -al "$R/target/debug/$d" "$T/debug/$d"
  done
fi
export CARGO_TARGET_DIR=$T TRAVIS_RUST_VERSION=x RUSTC_WORKSPACE_WRAPPER="$OUT/w.sh"
cargo build -p goko -p pointcloud -p serve_goko --lib --offline >"$OUT/cargo.log" 2>&1
rc=$?
[ $rc = 0 ] && [ -s "$OUT/mir/goko.mir" ] && [ -s "$OUT/mir/pointcloud.mir" ] && [ -s "$OUT/mir/serve_goko.mir" ]
