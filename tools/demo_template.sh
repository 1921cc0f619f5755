#!/bin/bash
# Builds demo.rs against the crates of the tree in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
mkdir "$w/src" && cp "$here/demo.rs" "$w/src/main.rs" || exit 2
{ printf '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\n'
  for d in @DEPS@; do printf '%s = { path = "%s/%s" }\n' "$d" "$repo" "$d"; done
} > "$w/Cargo.toml"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$w/Cargo.lock"
cd "$w" && CARGO_TARGET_DIR="$w/target" cargo build --offline -q || exit 3
exec_out="$w/target/debug/demo"
timeout 120 "$exec_out"
