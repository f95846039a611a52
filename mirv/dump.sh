#!/bin/bash
# usage: dump.sh CFG OUT.json   (MIR of /repo's current tree, via the mirdump driver)
set -e
B=${MIRV_BUILD:-/verif/build}
cd "${MIRV_REPO:-/repo}"
. /opt/vp/env.sh
export RUSTUP_TOOLCHAIN=nightly
SYS=$(rustc --print sysroot)
export LD_LIBRARY_PATH="$SYS/lib:$LD_LIBRARY_PATH"
export RUSTC_WORKSPACE_WRAPPER=$B/driver/debug/mirdump
export CARGO_TARGET_DIR=$B/mir
export MIRDUMP_CFG="$1" MIRDUMP_OUT="$2"
export RUSTFLAGS="-A warnings -Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums"
# force the crate itself to be re-checked whatever the mtimes are
rm -rf -- "$CARGO_TARGET_DIR/debug/build/pydantic-core"
find "$CARGO_TARGET_DIR/debug/.fingerprint" -maxdepth 1 -name 'pydantic-core-*' -exec rm -rf {} + 2>/dev/null || true
ulimit -v 16000000
exec cargo check --offline --lib -p pydantic-core
