#!/bin/bash
# run.sh PROP [quick|thorough]   decide one property against /repo's working tree
# run.sh replay FILE             run one recorded execution
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$here"
. "$here/tools/env.sh"
build || { echo "build of the harness against /repo failed" >&2; exit 2; }
if [ "$1" = C22 ] || { [ "$1" = replay ] && grep -q '"property": "C22"' "$2"; }; then
  build_variants || { echo "build of the harness variants against /repo failed" >&2; exit 2; }
fi
if [ "$1" = replay ]; then exec "$here/build/vmc" replay "$2"; fi
exec "$here/build/vmc" run "$1" "${2:-${VERIF_TIER:-quick}}"
