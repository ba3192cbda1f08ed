#!/bin/bash
# Usage: check.sh PROPERTY [quick|thorough]: build against /repo's working tree, then search.
here="$(cd "$(dirname "$0")/.." && pwd)"
tier="${2:-${VERIF_TIER:-quick}}"
case "$1" in
C*) exec node "$here/sdksim/main.mjs" check "$1" --tier "$tier" --seed "${VERIF_SEED:-1}" --verif "$here" ;;
esac
bash "$here/tools/build.sh" >"$here/sim/build.log" 2>&1 || { tail -40 "$here/sim/build.log"; echo "build failed"; exit 3; }
exec "$here/sim/target/debug/nexosim" check "$1" --tier "$tier" --seed "${VERIF_SEED:-1}" --verif "$here"
