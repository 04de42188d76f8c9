#!/bin/bash
# builds the modules io and compression_common of the tree in the current directory together with main.rs and runs it
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 9
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src"
cp -r ebi/src/io ebi/src/io.rs ebi/src/compression_common ebi/src/compression_common.rs "$T/src/" || exit 9
cp "$D/main.rs" "$T/src/main.rs"
cd "$T" && rustc --edition 2021 -C debug-assertions=on -A warnings -o demo src/main.rs 1>&2 || exit 8
timeout 60 ./demo
