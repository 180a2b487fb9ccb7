#!/bin/bash
# Usage: check.sh PROPERTY [quick|thorough] [monitor options]
VERIF="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
prop="$1"
tier="${2:-${VERIF_TIER:-quick}}"
shift; shift
seed="${VERIF_SEED:-1}"
random=100
[ "$tier" = thorough ] && random=400
. "$VERIF/tools/env.sh"
mkdir -p "$BUILD" "$VERIF/evidence/replay"
exec 9>"$BUILD/lock"
flock 9
bash "$VERIF/tools/build.sh" "$seed" "$random"
built=$?
if [ $built -ge 2 ]; then
  echo "ERROR: the monitors do not build against /repo"
  exit 4
fi
rm -f "$VERIF/evidence/$prop.json"
if [ "$prop" = C22 ]; then
  python3 "$VERIF/tools/ub.py" "$tier" "$seed" 9>&-
else
  "$CARGO_TARGET_DIR/debug/yamon" "$prop" --tier "$tier" --seed "$seed" --verif "$VERIF" "$@" 9>&-
fi
code=$?
if [ $built -eq 1 ]; then
  # documented declarations that no longer compile do not do what the property says
  replay="$VERIF/evidence/replay/$prop-build.txt"
  { echo "derived types that do not compile:"; cat "$BUILD/broken"; cat "$BUILD/log.first" 2>/dev/null; } >"$replay"
  echo "VIOLATION property=$prop replay=$replay"
  exit 1
fi
exit $code
