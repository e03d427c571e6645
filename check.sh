#!/bin/bash
# check.sh <property>: rebuild the simulator from /repo's working tree and decide one property.
cd "$(dirname "$0")" || exit 3
log=$(mktemp)
if ! sim/build.sh >"$log" 2>&1; then
  tail -50 "$log" >&2; rm -f "$log"
  echo "check.sh: the simulator does not build against /repo" >&2
  exit 3
fi
rm -f "$log"
export ASSSIM_VERIF="$PWD"
exec sim/target/x86_64-unknown-linux-gnu/release/asssim check "$@"
