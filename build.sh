#!/bin/bash
# Builds what a check needs from /repo's current working tree: build.sh sim|twin|plain|cli ...
# Everything goes to /verif/target; nothing in /repo is written.
cd "$(dirname "$0")" || exit 2
V=$PWD
export HOME=${HOME:-/root} RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS RUSTDOCFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
T=$V/target
mkdir -p "$T" || exit 2
# Cargo decides by modification times; compare contents as well, so that no change is overlooked.
fp=$(cd /repo && find src Cargo.toml Cargo.lock rust-toolchain* .cargo -type f 2>/dev/null | LC_ALL=C sort | xargs -d '\n' cat | sha256sum)
fresh() { # KIND DIR CARGO-ARGS...: forget the library in DIR if /repo's contents changed
    [ "$(cat "$T/$1.fp" 2>/dev/null)" = "$fp" ] && return
    rm -f "$T/$1.fp"
    [ -d "$T/$1" ] && cargo clean -q --offline --target-dir "$T/$1" -p jotdown "${@:2}" 2>/dev/null
    return 0
}
done_() { echo "$fp" >"$T/$1.fp"; }
for what in "$@"; do
    case $what in
    sim | twin) fresh $what --release --manifest-path sim/Cargo.toml ;;
    plain) fresh plain --profile plain --manifest-path sim/Cargo.toml ;;
    cli) fresh cli --manifest-path /repo/Cargo.toml ;;
    esac
    case $what in
    sim)  cargo build -q --release --offline --locked --manifest-path sim/Cargo.toml --target-dir "$T/sim" ;;
    twin) cargo build -q --release --offline --locked --manifest-path sim/Cargo.toml --target-dir "$T/twin" --features det ;;
    plain) cargo build -q --profile plain --offline --locked --manifest-path sim/Cargo.toml --target-dir "$T/plain" ;;
    cli)  cargo build -q --offline --locked --manifest-path /repo/Cargo.toml -p jotdown --features cli --bin jotdown --target-dir "$T/cli" \
              --config profile.dev.opt-level=2 &&
          gcc -shared -fPIC -O2 -o "$T/simos.so.$$" sim/os/simos.c && mv "$T/simos.so.$$" "$T/simos.so" ;;
    esac || { echo "build of $what failed" >&2; exit 2; }
    done_ $what
done
