#!/bin/bash
# Usage: build.sh SEED RANDOM_GROUPS. Builds the monitors against /repo's working tree.
# Exit 0: built. 1: types of the zoo do not compile any more (they are named in $BUILD/broken and left
# out of what was built). 2: cannot build.
VERIF="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
. "$VERIF/tools/env.sh"
mkdir -p "$BUILD/zoo"
rm -f "$BUILD/broken"
# what cargo cannot tell from modification times
stamp="$( (cd /repo && find yaserde yaserde_derive Cargo.toml -type f -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum; rustc -V; pwd) | sha256sum | cut -d' ' -f1)"
if [ "$(cat "$BUILD/stamp" 2>/dev/null)" != "$stamp" ]; then
  rm -rf "$CARGO_TARGET_DIR"/debug/.fingerprint/{yaserde,yaserde_derive,ymcore,yamon,zoo*}-* 2>/dev/null
  echo "$stamp" >"$BUILD/stamp"
fi
for attempt in 1 2 3 4; do
  python3 "$VERIF/tools/gen_zoo.py" "$BUILD/zoo" "$1" "$2" 6 $(cat "$BUILD/broken" 2>/dev/null) || exit 2
  if (cd "$VERIF/harness" && cargo build --offline --keep-going) >"$BUILD/log" 2>&1; then
    [ -s "$BUILD/broken" ] && exit 1
    exit 0
  fi
  [ $attempt = 1 ] && grep -m20 -A12 '^error' "$BUILD/log" >"$BUILD/log.first"
  # groups of the generated files that the errors point into
  before="$(cat "$BUILD/broken" 2>/dev/null)"
  python3 "$VERIF/tools/broken.py" "$BUILD/zoo" "$BUILD/log" >>"$BUILD/broken"
  if [ "$(cat "$BUILD/broken")" = "$before" ]; then
    break
  fi
done
grep -m5 -A12 '^error' "$BUILD/log"
exit 2
