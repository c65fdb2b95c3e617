#!/bin/bash
# run.sh setup | check <property> | replay <file>
# Builds the checker from /verif/engine and runs it; everything it writes stays under /verif/build,
# /verif/evidence and /verif/replays.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export PGROOT="$here"
export HOME="${HOME:-/root}"
export PATH="$PATH:/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin"
export CARGO_NET_OFFLINE=true
export RUSTUP_TOOLCHAIN="${PG_TOOLCHAIN:-stable}"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET RUSTC_WRAPPER
mkdir -p "$here/build"
cargo build --release --offline --quiet --manifest-path "$here/engine/Cargo.toml" --target-dir "$here/build/engine" >"$here/build/engine.log" 2>&1 || {
    cat "$here/build/engine.log" >&2
    exit 2
}
if [ "$1" = setup ]; then
    cargo build --release --offline --quiet --manifest-path "$here/host/Cargo.toml" --target-dir "$here/build/host" || exit 2
    exit 0
fi
exec "$here/build/engine/release/pgcheck" "$@"
