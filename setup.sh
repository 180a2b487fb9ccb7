#!/bin/bash
# Builds the monitors once.
VERIF="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
bash "$VERIF/tools/build.sh" "${VERIF_SEED:-1}" 100 || exit 1
. "$VERIF/tools/env.sh"
exec python3 "$VERIF/tools/ub.py" build "${VERIF_SEED:-1}"
