#!/bin/bash
# usage: replay.sh <file.replay>: runs a reported counterexample natively (f64) against /repo's code
f="$(realpath "$1")"
REPLAY="$f" exec "$(dirname "$0")/check.sh" "$(sed -n 's/^property //p' "$f")"
