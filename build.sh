#!/bin/bash
# Builds the simulation harness against the current working tree of /repo.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
cd "$here/sim/harness"
export CARGO_TARGET_DIR="$here/target"
export CARGO_INCREMENTAL=0
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.build-lock"
flock 9
# The programs' sources become modules of the harness.
bins="$here/sim/harness/src/bins"
rm -rf "$bins"
for b in garble preproc; do
    mkdir -p "$bins/$b"
    # Files the programs may share with each other become submodules.
    (cd /repo/src/bin && find . -name '*.rs' ! -path ./garble.rs ! -path ./preproc.rs ! -path ./preproc_size.rs -exec cp --parents {} "$bins/$b" \;)
    main=/repo/src/bin/$b.rs
    if [ -f "/repo/src/bin/$b/main.rs" ]; then
        main=/repo/src/bin/$b/main.rs
        cp -r "/repo/src/bin/$b/." "$bins/$b"
    fi
    { cat "$main"; printf '\npub fn verif_main() -> std::process::ExitCode {\n    std::process::Termination::report(main())\n}\n'; } > "$bins/$b.rs"
    find "$bins/$b" "$bins/$b.rs" -name '*.rs' -exec \
        sed -E -i "s/\b(std::)?process::exit\b/simrt::process::exit/g; s/\bcrate::/crate::bins::$b::/g" {} +
done
# Rebuild on a change of content, whatever the time stamps say.
now="$( (cd /repo && find src extern build.rs Cargo.toml Cargo.lock -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; \
         cd "$here/sim" && find . -path ./target -prune -o -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum) | sha256sum)"
stamp="$CARGO_TARGET_DIR/.stamp"
if [ -x "$CARGO_TARGET_DIR/release/dst" ] && [ "$(cat "$stamp" 2>/dev/null)" = "$now" ]; then
    exit 0
fi
rm -f "$stamp"
cargo clean --release --offline -q -p dst -p scalable_mpc -p simrt 2>/dev/null || true
cargo build --release --offline -q 2> "$CARGO_TARGET_DIR/.build-log" || { cat "$CARGO_TARGET_DIR/.build-log" >&2; exit 3; }
echo "$now" > "$stamp"
