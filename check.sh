#!/bin/bash
# check.sh <property> <quick|thorough>   decide one property on /repo's working tree
# check.sh replay <file>                 re-run one recorded case
# check.sh build                         build every checker
# exit 0: held on everything explored; 1: VIOLATION; 2: could not build; 3: the engine failed
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export RUSTUP_TOOLCHAIN=nightly-2025-03-01 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never PATH="/root/.cargo/bin:$PATH"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET RUSTC_WRAPPER
export CARGO_TARGET_DIR="$HERE/target" VERIF_DIR="$HERE"
PROP="$1"; TIER="${2:-quick}"

bin_of() {
    case "$1" in
        P01|P02|P03|P04|P05) echo solve ;;
        P06|P07|P08|P09|P10|P11|P12) echo simplex ;;
        P13|P14|P15|P16) echo io ;;
        P18|P19|P21) echo la ;;
        P17) echo types ;;
        P20) echo network ;;
        *) echo "" ;;
    esac
}

build() { # build [cargo args]
    mkdir -p "$CARGO_TARGET_DIR"
    (
        flock 9
        # Cargo trusts modification times; a tree that was swapped in may carry older ones. Rebuild
        # the crates under test whenever the content differs from what was built last.
        local sum
        sum="$( { find /repo/src /repo/Cargo.toml /repo/Cargo.lock "$HERE/mc/src" "$HERE/mc/Cargo.toml" "$HERE/mc/Cargo.lock" -type f -print0 2>/dev/null | sort -z | xargs -0 sha256sum; } | sha256sum)"
        if [ "$(cat "$CARGO_TARGET_DIR/content" 2>/dev/null)" != "$sum" ]; then
            rm -f "$CARGO_TARGET_DIR/content"
            find "$CARGO_TARGET_DIR/release/.fingerprint" -maxdepth 1 -regextype posix-extended \
                -regex '.*/(relp|mc)-[0-9a-f]{16}' -exec rm -rf {} + 2>/dev/null
        fi
        cd "$HERE/mc" || exit 2
        # Rebuilding one checker must not hide that the others are out of date.
        if ! cargo build --release --offline --locked "$@" >"$CARGO_TARGET_DIR/build.log" 2>&1; then
            grep -E '^error' -A12 "$CARGO_TARGET_DIR/build.log" | head -60
            tail -3 "$CARGO_TARGET_DIR/build.log"
            exit 2
        fi
        echo "$sum" >"$CARGO_TARGET_DIR/content"
    ) 9>"$CARGO_TARGET_DIR/lock"
}

if [ "$PROP" = build ]; then build --bins || exit 2; exit 0; fi
FILE=""
if [ "$PROP" = replay ]; then FILE="$TIER"; PROP="$(head -1 "$FILE")"; fi
BIN="$(bin_of "$PROP")"
if [ -z "$BIN" ]; then echo "unknown property $PROP"; exit 2; fi
build --bin "$BIN" || { echo "$PROP: cannot build the checker against /repo"; exit 2; }
RUN="$CARGO_TARGET_DIR/release/$BIN"
if [ -n "$FILE" ]; then "$RUN" replay "$FILE"; exit $?; fi

ulimit -c 0
T="$(mktemp -d)"
MC_LAST="$T/last" "$RUN" "$PROP" "$TIER"; rc=$?
if [ $rc -ge 128 ]; then
    # The code under test ended the process (stack overflow, abort): find the case that does it.
    echo "$PROP: the process died with status $rc; looking for the case that ends it"
    "$RUN" last "$PROP" "$TIER" "$T/last" "$T"
    mkdir -p "$HERE/replays"
    for f in "$T"/*.txt; do
        [ -e "$f" ] || continue
        said="$("$RUN" replay "$f" 2>/dev/null)"; died=$?
        if [ $died -ge 128 ]; then
            cp "$f" "$HERE/replays/$PROP-dies.txt"
            echo "$PROP: ${said#replay: } => ends the process with status $died"
            echo "VIOLATION property=$PROP replay=$HERE/replays/$PROP-dies.txt"
            rc=1
            break
        fi
    done
    [ $rc = 1 ] || { echo "$PROP: could not reproduce it"; rc=3; }
fi
rm -rf "${T:?}"
exit $rc
