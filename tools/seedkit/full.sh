#!/bin/bash
# builds the crate of the tree in the current directory (the C++ binding replaced by a stub) and runs demo.rs against it
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 9
trap 'rm -rf "$T"' EXIT
cp -r "$D/shadow/." "$T/" || exit 9
for p in ebi alp-binding cuda-binding; do cp -r "$p/src" "$T/$p/" || exit 9; done
mkdir -p "$T/ebi/examples"
cp "$D/demo.rs" "$T/ebi/examples/demo.rs"
cd "$T" && unset RUSTC_WORKSPACE_WRAPPER RUSTFLAGS
CARGO_TARGET_DIR="$T/target" cargo +nightly build --offline -q -p ebi --example demo 1>&2 || exit 8
timeout 60 "$T/target/debug/examples/demo"
