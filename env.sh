# sourced by check.sh and setup.sh: offline builds, everything below /verif/target (git-ignored)
VERIF_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_DIR
export PATH=/usr/local/bin:/usr/bin:/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_TARGET_DIR LD_LIBRARY_PATH LD_PRELOAD
T="$VERIF_DIR/target"
mkdir -p "$T" "$VERIF_DIR/evidence" "$VERIF_DIR/replays"

quietly() { # run a build step; show its output only when it fails
    local log="$T/build.log"
    if ! "$@" >"$log" 2>&1; then
        echo "harness error: build step failed: $*" >&2
        tail -60 "$log" >&2
        exit 3
    fi
}
build_shim() {
    quietly gcc -O1 -fPIC -shared -fno-delete-null-pointer-checks -Wno-nonnull-compare -o "$T/iosim.so" "$VERIF_DIR/shim/iosim.c" -ldl
}
build_cli() {
    CARGO_PROFILE_DEV_DEBUG=0 CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_INCREMENTAL=0 \
        quietly cargo build --manifest-path /repo/Cargo.toml -p xsd-parser-cli -p wsdl-parser-cli --locked --offline --target-dir "$T/cli"
}
build_sim() { # $1 = binary
    quietly cargo build --manifest-path "$VERIF_DIR/sim/Cargo.toml" --locked --offline --target-dir "$T/sim" --bin "$1"
}
build_e2e() { # $1 = number of schemas, then optionally the only indices to use
    local n="$1" d="$T/e2e$E2E_KIND" round; shift
    build_sim e2egen
    export E2E_DIR="$d"
    mkdir -p "$d"
    : >"$d/skip"; : >"$d/broken"
    cp "$VERIF_DIR/sim/Cargo.lock" "$d/Cargo.lock"
    for round in 1 2 3 4 5 6 7 8; do
        if ! "$T/sim/debug/e2egen" "$d" "$n" 8 "$@" >"$T/build.log" 2>&1; then
            # the conversion of one schema took the process down
            local at; at="$(cat "$d/doing" 2>/dev/null)"
            if [ -z "$at" ] || grep -q "^$at " "$d/skip"; then
                echo "harness error: e2egen failed" >&2; tail -40 "$T/build.log" >&2; exit 3
            fi
            echo "$at generate crashes: $(tail -1 "$T/build.log" | tr -d '\n')" | tee -a "$d/skip" >>"$d/broken"
            continue
        fi
        cargo build --manifest-path "$d/Cargo.toml" --offline --target-dir "$T/sim" --keep-going --message-format short >"$T/build.log" 2>&1 && return
        # schemas whose generated code does not compile are reported by E01 and left out
        python3 "$VERIF_DIR/tools/broken.py" "$d" "$T/build.log" || exit 3
    done
    echo "harness error: the generated workspace does not build" >&2; tail -60 "$T/build.log" >&2; exit 3
}
