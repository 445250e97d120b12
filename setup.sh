#!/bin/bash
# builds every harness crate once (checks rebuild what changed)
cd "$(dirname "$0")" || exit 2
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
mkdir -p target out evidence
for c in core ida; do
  [ -d "harness-$c" ] || continue
  if [ -x "harness-$c/prepare.py" ]; then python3 "harness-$c/prepare.py" || exit 2; fi
  cargo build --offline --locked --quiet --manifest-path "harness-$c/Cargo.toml" --target-dir "target/$c" 2>"out/setup-$c.log" || { tail -40 "out/setup-$c.log"; exit 2; }
done
