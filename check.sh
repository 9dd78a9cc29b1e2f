#!/bin/bash
# check.sh <property> [thorough]   |   check.sh replay <file>
# Rebuilds from /repo's working tree, then runs the simulation. 0 held, 1 violation, 2 no answer.
V="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$V"
[ "$2" = thorough ] && export VERIF_TIER=thorough
mkdir -p "$V/evidence" "$V/target"
log="$V/target/build.$$.log"
if ! "$V/build.sh" >"$log" 2>&1; then
  grep -A12 '^error' "$log" | head -60 >&2
  rm -f "$log"
  echo "the tree does not build" >&2
  exit 2
fi
rm -f "$log"
if [ "$1" = replay ]; then exec "$V/target/release/sim" replay "$2"; fi
exec "$V/target/release/sim" check "$1"
