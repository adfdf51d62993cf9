#!/bin/bash
# replay.sh FILE [--trace]: runs a recorded failure again.
here="$(cd "$(dirname "$0")" && pwd)"
file="$(realpath "$1")"; shift
bash "$here/build.sh" || exit 3
export DST_ROOT="$here"
exec "$here/target/release/dst" replay "$file" "$@"
