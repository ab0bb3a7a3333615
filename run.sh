#!/bin/bash
# run.sh setup | check <id> | replay <file> | show <id> [n]
# Rebuilds the harness from /repo's working tree (hooks on), then runs it.
set -u
ROOT="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
REPO=/repo
export HOME="${HOME:-/root}" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
export VERIF_ROOT="$ROOT" VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR
TARGET="$ROOT/target"
mkdir -p "$TARGET" "$ROOT/evidence" "$ROOT/replays"

# The crate's build script regenerates segment_metadata.rs and formats the sources in
# place: whatever it does to them is undone after every build.
SAVED=""
restore() {
    if [ -n "$SAVED" ] && [ -f "$SAVED" ]; then
        tar -C "$REPO" -xpf "$SAVED"
        rm -f "$SAVED"
    fi
    SAVED=""
}
trap restore EXIT
trap 'exit 2' INT TERM HUP

content_id() {
    (cd "$REPO" && find src build.rs Cargo.toml Cargo.lock -type f -print0 2>/dev/null | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
}

# build_with <name> <command...>: forces a rebuild of the crate when its content changed,
# whatever the modification times say.
build_with() {
    local name="$1"; shift
    exec 9>"$TARGET/.lock"
    flock 9
    local id; id="$(content_id)"
    SAVED="$TARGET/.repo-src.$$.tar"
    tar -C "$REPO" -cpf "$SAVED" src || { SAVED=""; return 1; }
    if [ "$(cat "$TARGET/.built-$name" 2>/dev/null)" != "$id" ]; then
        rm -f "$TARGET/.built-$name"
        cargo clean "${CLEAN_ARGS[@]}" -p meerkat >/dev/null 2>&1
    fi
    "$@" >"$TARGET/.build-$name.log" 2>&1
    local rc=$?
    restore
    if [ $rc -eq 0 ]; then
        echo "$id" >"$TARGET/.built-$name"
    else
        grep -E -A12 '^error' "$TARGET/.build-$name.log" | head -60 >&2
        tail -3 "$TARGET/.build-$name.log" >&2
    fi
    flock -u 9
    return $rc
}

# two builds of the harness and the crate: with the overflow and debug checks of a development
# build (mkverif), and with production arithmetic (mkverif-wrapping)
cargo_harness() { # cargo_harness <target dir> <binary> <cargo options...>
    local dir="$1" out="$2"; shift 2
    cargo build --config "$ROOT/harness/.cargo/config.toml" --manifest-path "$ROOT/harness/Cargo.toml" \
        --target-dir "$dir" --offline --release "$@" && cp -f "$dir/release/mkverif" "$TARGET/$out"
}

both() { # both <target dir> <binary> <cargo options...>
    local dir="$1" out="$2" o=() k f; shift 2
    cargo_harness "$dir" "$out" "$@" || return 1
    for k in mkverif meerkat; do
        for f in overflow-checks debug-assertions; do
            o+=(--config "profile.release.package.$k.$f=false")
        done
    done
    cargo_harness "$dir" "$out-wrapping" "$@" "${o[@]}"
}

harness() { # harness <target dir> <binary> <cargo options...>
    CLEAN_ARGS=(--manifest-path "$ROOT/harness/Cargo.toml" --config "$ROOT/harness/.cargo/config.toml" --target-dir "$1" --release)
    build_with "$2" both "$@"
}

# the hooks a check cannot do without, as alternatives in order of preference
needs() {
    case "$1" in
    C01 | C02 | C03 | C04 | C17 | C20) echo encoders ;;
    C08 | C25) echo rle ;;
    C09) echo varint ;;
    C10) echo offsets ;;
    C13 | C15) echo io ;;
    C22 | C23 | C24) echo segment,entries,io segment,io ;;
    C26 | C28) echo encoders,segment,io ;;
    C12) echo encoders,segment,entries,io encoders,segment,io ;;
    C18) echo encoders,segment,entries encoders,segment ;;
    C11 | C14 | C16 | C21 | C27) echo segment,entries segment ;;
    *) echo none ;;
    esac
}

# The harness with the hooks of one check only. A change of the crate that the hooks of one area
# do not follow leaves the checks of the other areas working.
reduced() { # reduced <id>
    local set area o flags
    for set in $(needs "$1"); do
        flags=""
        for area in encoders rle varint offsets io segment entries; do
            case ",$set," in
            *",$area,"*) ;;
            *) flags="$flags${flags:+, }\"--cfg\", \"meerkat_verif_no_$area\"" ;;
            esac
        done
        o=(--no-default-features --config "build.rustflags=[$flags]")
        [ "$set" = none ] || o+=(--features "$set")
        MKVERIF="mkverif-${set//,/-}"
        echo "reduced harness: $set"
        harness "$TARGET/reduced" "$MKVERIF" "${o[@]}" && return 0
    done
    return 1
}

# the real binary, which prints its effective configuration under the guard
server() {
    export CARGO_TARGET_DIR="$TARGET/server" RUSTFLAGS="--cfg meerkat_verif"
    local area
    for area in encoders rle varint offsets io segment entries; do
        RUSTFLAGS="$RUSTFLAGS --cfg meerkat_verif_no_$area"
    done
    CLEAN_ARGS=(--manifest-path "$REPO/Cargo.toml")
    build_with server cargo build --manifest-path "$REPO/Cargo.toml" --locked --offline --bin meerkat
    local rc=$?
    unset CARGO_TARGET_DIR RUSTFLAGS
    return $rc
}

prepare() { # prepare <id>
    MKVERIF=mkverif
    harness "$TARGET" mkverif || reduced "$1" || { echo "build failed"; exit 2; }
    if [ "$1" = C19 ]; then
        server || { echo "server build failed"; exit 2; }
        export VERIF_MEERKAT="$TARGET/server/debug/meerkat"
    fi
}

case "${1:-}" in
setup)
    harness "$TARGET" mkverif && server
    exit $?
    ;;
check)
    id="$2"
    prepare "$id"
    "$TARGET/$MKVERIF" check "$id"
    rc=$?
    if [ $rc -eq 0 ] && [ "$id" != C19 ]; then
        # a further share of the exploration, from another seed, with production arithmetic
        [ "$VERIF_TIER" = thorough ] && share=0.5 || share=0.2
        cp "$ROOT/evidence/$id.json" "$TARGET/.evidence-$id.json"
        VERIF_SCALE=$share VERIF_SEED=$((VERIF_SEED + 1000003)) "$TARGET/$MKVERIF-wrapping" check "$id"
        rc=$?
        if [ $rc -eq 0 ]; then
            python3 "$ROOT/tools/merge_evidence.py" "$TARGET/.evidence-$id.json" "$ROOT/evidence/$id.json" || exit 2
        fi
        rm -f "$TARGET/.evidence-$id.json"
    fi
    exit $rc
    ;;
replay)
    f="$(realpath "$2")"
    prepare "$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$f")"
    "$TARGET/$MKVERIF" replay "$f" && "$TARGET/$MKVERIF-wrapping" replay "$f"
    exit $?
    ;;
show)
    prepare "$2"
    "$TARGET/$MKVERIF" show "$2" "${3:-10}"
    exit $?
    ;;
*)
    echo "usage: run.sh setup | check <id> | replay <file> | show <id> [n]" >&2
    exit 2
    ;;
esac
