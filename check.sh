#!/bin/bash
# usage: check.sh <property> [quick|thorough] [options passed to the harness binary]
# Rebuilds the harnesses against /repo's working tree and decides one property.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here" || exit 2
id="$1"; tier="${2:-${VERIF_TIER:-quick}}"; shift; [ $# -gt 0 ] && shift
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
n="${id#C}"; n=$((10#$n))
if [ "$n" -le 15 ]; then c=core; else c=ida; fi
mkdir -p evidence out target
[ -n "${REPLAY:-}" ] || rm -f "evidence/$id.json" out/"$id"-*.replay
# the parts of harness-ida a property needs, for when another part does not compile
case "$n" in
  16|17|18|19|20|21|34) parts=interp ;;
  22|23|24) parts=step ;;
  25) parts=step,drive ;;
  26|27) parts=drive ;;
  28|35) parts=roots ;;
  29|30|36) parts=nls ;;
  31) parts=drive,misc ;;
  32) parts=sample ;;
  37|38|39|40) parts=meta ;;
  *) parts=misc ;;
esac
build() {
  cargo build --offline --locked --quiet --manifest-path "harness-$c/Cargo.toml" --target-dir "target/$c" "$@" >"out/build-$c.log" 2>&1
}
(
  flock 9
  if [ -x "harness-$c/prepare.py" ]; then python3 "harness-$c/prepare.py" || exit 1; fi
  build || { [ $c = ida ] && build --no-default-features --features $parts; }
) 9>"target/$c.lock" || { tail -60 "out/build-$c.log" >&2; echo "build failed" >&2; exit 2; }
[ -n "${REPLAY:-}" ] && exec "target/$c/debug/harness-$c" --replay "$REPLAY"
exec "target/$c/debug/harness-$c" --property "$id" --tier "$tier" --seed "${VERIF_SEED:-1}" \
  --evidence "evidence/$id.json" --out out --known known-findings.txt "$@"
