#!/bin/bash
# build_sim "release checked": (re)build the simulator against the sources now in /repo. Offline.
build_sim() {
    local here=${here:-$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)} p hash stamp flag
    export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
    unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR
    mkdir -p "$here/target"
    exec 9> "$here/target/.lock"
    flock 9
    # what's in the sources decides, not their timestamps
    hash=$( (cd /repo && find Cargo.toml src -type f -print0 | sort -z | xargs -0 sha256sum; ls /repo/build.rs 2>/dev/null) | sha256sum | cut -d' ' -f1)
    for p in $1; do
        stamp="$here/target/.foca.$p"
        if [ "$(cat "$stamp" 2>/dev/null)" != "$hash" ]; then
            cargo clean --offline --manifest-path "$here/sim/Cargo.toml" --target-dir "$here/target" --profile "$p" -p foca > /dev/null 2>&1
        fi
        cargo build --offline --locked --quiet --manifest-path "$here/sim/Cargo.toml" --target-dir "$here/target" --profile "$p" 2> "$here/target/build.$p.log" || {
            cat "$here/target/build.$p.log" >&2
            flock -u 9
            return 1
        }
        echo "$hash" > "$stamp"
    done
    flock -u 9
    exec 9>&-
}
if [ "${BASH_SOURCE[0]}" = "$0" ]; then
    build_sim "${1:-release checked}"
fi
