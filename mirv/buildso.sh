#!/bin/bash
# usage: buildso.sh OUTDIR   - builds /repo's extension module (own target directory) into OUTDIR/pydantic_core
set -e
out="$1"
B=${MIRV_BUILD:-/verif/build}
R=${MIRV_REPO:-/repo}
cd "$R"
. /opt/vp/env.sh
export CARGO_TARGET_DIR=$B/so
# force the crate itself to be rebuilt whatever the mtimes are
rm -rf -- $B/so/debug/build/pydantic-core
find "$CARGO_TARGET_DIR/debug/.fingerprint" -maxdepth 1 -name 'pydantic-core-*' -exec rm -rf {} + 2>/dev/null || true
rm -f $B/so/debug/lib_pydantic_core.so
cargo build --offline --lib --features extension-module
mkdir -p "$out/pydantic_core"
cp "$R"/python/pydantic_core/*.py "$out/pydantic_core/"
cp $B/so/debug/lib_pydantic_core.so "$out/pydantic_core/_pydantic_core.cpython-312-x86_64-linux-gnu.so"
