#!/bin/bash
# Compiles demo.rs against the freshly built libraries and runs it: it exits 0 when the property holds.
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
trap 'rm -rf "$out"' EXIT
lib=${CARGO_TARGET_DIR:-/opt/vp/target}/debug
ext=
for c in measures measures_core measures_distributions measures_exponential_family measures_combinators measures_bayesian symbolic_math mathjit; do
  [ -f "$lib/lib$c.rlib" ] && ext="$ext --extern $c=$lib/lib$c.rlib"
done
rustc --edition 2024 -Awarnings -L dependency="$lib/deps" $ext "$here/demo.rs" -o "$out/demo" || exit 3
timeout 120 "$out/demo"
