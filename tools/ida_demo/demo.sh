#!/bin/bash
# run in the repository's root: exit 0 when the property holds for the demonstrated case
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
# /repo/src is not built by the workspace: lay it out as a crate, with the interfaces it misses
mkdir -p "$t/c"; cp -r "$repo/src" "$t/c/src"; cp -r "$here/crate/shim" "$t/shim"; cp "$here/crate/Cargo.lock" "$t/c/Cargo.lock"
for m in linear nonlinear; do [ -e "$t/c/src/$m" ] || [ -e "$t/c/src/$m.rs" ] || cp "$here/crate/$m.rs" "$t/c/src/$m.rs"; done
mkdir -p "$t/c/src/demo"; cp "$here/demo.rs" "$t/c/src/demo/mod.rs"; cp "$here/crate/util.rs" "$t/c/src/demo/util.rs"
echo 'pub mod demo;' >> "$t/c/src/lib.rs"
echo 'fn main() { ida::demo::main() }' > "$t/c/demo_main.rs"
cat > "$t/c/Cargo.toml" <<T
[package]
name = "ida"
version = "0.1.0"
edition = "2021"
[workspace]
[lib]
path = "src/lib.rs"
[[bin]]
name = "demo"
path = "demo_main.rs"
[dependencies]
ndarray = { path = "../shim/ndarray" }
failure = { path = "../shim/failure" }
log = { path = "../shim/log" }
num-traits = "0.2"
[features]
profiler = []
data_trace = []
T
cd "$t/c" || exit 1
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings
cargo build --offline --quiet --target-dir "$t/target" 2>"$t/log" || { cat "$t/log"; exit 3; }
timeout 100 "$t/target/debug/demo"
