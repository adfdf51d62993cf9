#!/bin/bash
# check.sh ID [quick|thorough]: decides one property on the current working tree of /repo.
here="$(cd "$(dirname "$0")" && pwd)"
bash "$here/build.sh" || { echo "check error: build failed" >&2; exit 3; }
export DST_ROOT="$here"
exec "$here/target/release/dst" check "$1" --tier "${2:-${VERIF_TIER:-quick}}"
