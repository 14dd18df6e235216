#!/bin/bash
# check.sh <property> <quick|thorough>: builds the checker of one property from /repo's current tree and runs it.
# check.sh setup: builds every checker.
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD" RUSTUP_TOOLCHAIN=nightly-2025-10-03 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/target"
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS
mkdir -p evidence
build() { # crate bin
    cargo build --release --quiet --manifest-path "$1/Cargo.toml" --bin "$2" 2>"$CARGO_TARGET_DIR-$2.log" || {
        cat "$CARGO_TARGET_DIR-$2.log" >&2
        echo "check.sh: $2 does not build against /repo" >&2
        return 2
    }
    rm -f "$CARGO_TARGET_DIR-$2.log"
}
# The programs of the crate itself.
export VERIF_TOOLS="$CARGO_TARGET_DIR/tools/release"
tools() {
    cargo build --release --quiet --target-dir "$CARGO_TARGET_DIR/tools" --manifest-path ../repo/m68000/Cargo.toml --bin disassemble --bin decoder --bin scc68070 2>"$CARGO_TARGET_DIR-tools.log" || {
        cat "$CARGO_TARGET_DIR-tools.log" >&2
        echo "check.sh: the programs of /repo do not build" >&2
        return 2
    }
    rm -f "$CARGO_TARGET_DIR-tools.log"
}
# The static library of the documented build.
export VERIF_FFI_LIB="$CARGO_TARGET_DIR/lib/release"
library() {
    (cd ../repo && cargo build --lib --release --features=ffi --quiet --target-dir "$CARGO_TARGET_DIR/lib") 2>"$CARGO_TARGET_DIR-lib.log" || {
        cat "$CARGO_TARGET_DIR-lib.log" >&2
        echo "check.sh: the static library of /repo does not build" >&2
        return 2
    }
    rm -f "$CARGO_TARGET_DIR-lib.log"
}
# The checkers in other build configurations (C27).
export VERIF_CONF="$CARGO_TARGET_DIR/conf"
conf() { # profile features
    local d="$VERIF_CONF/$1${2:+-$2}" log="$CARGO_TARGET_DIR-$1${2:+-$2}.log"
    local m=(mc/Cargo.toml --bin mc_exec --bin mc_steps --bin mc_hist --bin mc_asm --bin mc_api --bin mc_text --bin mc_cpu)
    [ "$2" = c ] && m=(mc-ffi/Cargo.toml --bin mc_ffi) && set -- "$1"
    cargo build --profile "$1" ${2:+--features "$2"} --quiet --target-dir "$d" --manifest-path "${m[@]}" 2>"$log" || {
        cat "$log" >&2
        echo "check.sh: the checkers do not build against /repo in the configuration $1 $2" >&2
        return 2
    }
    rm -f "$log"
}
confs() { # quick|thorough
    local all=(plain:ffi plain:c) p=() c x
    [ "$1" = thorough ] && all+=(plain: whole: size: slow:ffi)
    for x in mc_exec mc_steps mc_hist mc_asm mc_api mc_text mc_cpu; do build mc $x || return 2; done
    build mc-ffi mc_ffi || return 2
    for c in "${all[@]}"; do conf "${c%:*}" "${c#*:}" & p+=($!); done
    for x in "${p[@]}"; do wait "$x" || return 2; done
}
# The program of C28, built for this machine and for the hosts that Miri interprets.
export VERIF_HOST="$CARGO_TARGET_DIR/host/release/mc-host" VERIF_HOST_MANIFEST="$PWD/mc-host/Cargo.toml" VERIF_MIRI="$CARGO_TARGET_DIR/miri"
host() { # target...
    local log="$CARGO_TARGET_DIR-host.log" t p=()
    mkdir -p "$VERIF_MIRI"
    cargo build --release --quiet --target-dir "$CARGO_TARGET_DIR/host" --manifest-path mc-host/Cargo.toml 2>"$log" || {
        cat "$log" >&2
        echo "check.sh: mc-host does not build against /repo" >&2
        return 2
    }
    for t in "$@"; do
        (env -u RUSTUP_TOOLCHAIN XDG_CACHE_HOME="$VERIF_MIRI" CARGO_TARGET_DIR="$VERIF_MIRI/build" MIRIFLAGS="-Zmiri-disable-stacked-borrows" \
            cargo +nightly miri run --offline --quiet --manifest-path mc-host/Cargo.toml --target "$t" -- none >"$log" 2>&1 || {
            cat "$log" >&2
            echo "check.sh: mc-host cannot be interpreted for $t" >&2
            exit 2
        }) || return 2
    done
    rm -f "$log"
}
hosts() { [ "$1" = thorough ] && host powerpc-unknown-linux-gnu x86_64-unknown-linux-gnu || host powerpc-unknown-linux-gnu; }
case "$1" in
    C02|C03|C04|C05) crate=mc bin=mc_exec ;;
    C06|C07|C08|C20|C21) crate=mc bin=mc_steps ;;
    C09|C10|C11|C17|C19|C22) crate=mc bin=mc_hist ;;
    C16) crate=mc bin=mc_time ;;
    C29) crate=mc bin=mc_cpu ;;
    C12) crate=mc bin=mc_asm ;;
    C15|C18|C24) crate=mc bin=mc_api ;;
    C01|C13) crate=mc bin=mc_text ;;
    C14) crate=mc-ffi bin=mc_ffi ;;
    C23) crate=mc bin=mc_tools; tools || exit 2 ;;
    C30) crate=mc bin=mc_board; tools || exit 2 ;;
    C25) crate=mc-ffi bin=mc_head; library || exit 2 ;;
    C26) crate=mc-ffi bin=mc_cores ;;
    C27) crate=mc bin=mc_conf; confs "${2:-quick}" || exit 2 ;;
    C28) crate=mc bin=mc_host; hosts "${2:-quick}" || exit 2 ;;
    setup) for x in mc:mc_exec mc:mc_steps mc:mc_hist mc:mc_time mc:mc_asm mc:mc_api mc:mc_text mc:mc_tools mc:mc_conf mc:mc_host mc:mc_cpu mc:mc_board mc-ffi:mc_ffi mc-ffi:mc_head mc-ffi:mc_cores; do [ -f "${x%:*}/src/bin/${x#*:}.rs" ] && { build "${x%:*}" "${x#*:}" || exit 2; }; done; tools || exit 2; library || exit 2; confs quick || exit 2; hosts quick || exit 2; exit 0 ;;
    *) echo "usage: check.sh C01..C30|setup [quick|thorough]" >&2; exit 2 ;;
esac
build "$crate" "$bin" || exit 2
exec "$CARGO_TARGET_DIR/release/$bin" run "$1" "${2:-quick}"
