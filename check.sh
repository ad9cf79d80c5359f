#!/bin/bash
# check.sh ID            decide one property (VERIF_SEED, VERIF_TIER); exit 0, or 1 with a VIOLATION line
# check.sh replay FILE   run a recorded case again; exit 1 if it fails exactly as recorded
# check.sh setup         build everything once
# check.sh sim ARGS...   anything else ripsim offers (determinism N, one ID INDEX)
#
# The simulated world, the driver and both builds of ripcalc are made here, from /repo's current
# working tree; nothing is written in /repo.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="${RIPSIM_REPO:-/repo}"
build="${RIPSIM_BUILD:-$here/build}"
export HOME="${HOME:-/root}"
export PATH="/usr/local/bin:$HOME/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN="${RIPSIM_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET RUSTFLAGS CARGO_ENCODED_RUSTFLAGS LD_PRELOAD

broken() { echo "check.sh: $*" >&2; exit 3; }

mkdir -p "$build" || broken "cannot make $build"
exec 9>"$build/lock"
flock 9

step() { # name, command...
    local log="$build/$1.log"; shift
    "$@" >"$log" 2>&1 || { tail -n 40 "$log" >&2; return 1; }
}

world() {
    local src="$here/sim/world/simworld.c" out="$build/simworld.so"
    if [ ! -e "$out" ] || [ "$src" -nt "$out" ]; then
        gcc -O2 -Wall -Wextra -shared -fPIC -fvisibility=hidden -o "$out.new" "$src" -ldl && mv "$out.new" "$out"
    fi
}
driver() { cargo build --release --offline --locked --manifest-path "$here/sim/Cargo.toml" --target-dir "$build/sim"; }
# cargo compares times of modification; forgetting ripcalc's fingerprints makes it compile the
# sources as they are now.  The dependencies stay built.
checked() {
    rm -rf "$build"/checked/debug/.fingerprint/ripcalc-*
    CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=0 CARGO_PROFILE_DEV_OVERFLOW_CHECKS=true CARGO_PROFILE_DEV_DEBUG_ASSERTIONS=true \
        cargo build --offline --locked --manifest-path "$repo/Cargo.toml" --target-dir "$build/checked" --bin ripcalc
}
release() {
    rm -rf "$build"/release/release/.fingerprint/ripcalc-*
    cargo build --release --offline --locked --manifest-path "$repo/Cargo.toml" --target-dir "$build/release" --bin ripcalc
}

# The builds without one or both of the optional features, for C23 and whatever is not about one
# property; they share the dependencies of the first.
needs_variants() {
    case "${1:-}" in
        C23 | setup | sim) true ;;
        C[0-9][0-9]*) false ;;
        replay) grep -q '^property C23' "${2:-/dev/null}" 2>/dev/null ;;
        *) false ;;
    esac
}
variant() { # name, features
    rm -rf "$build"/checked/debug/.fingerprint/ripcalc-*
    CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=0 CARGO_PROFILE_DEV_OVERFLOW_CHECKS=true CARGO_PROFILE_DEV_DEBUG_ASSERTIONS=true \
        cargo build --offline --locked --manifest-path "$repo/Cargo.toml" --target-dir "$build/checked" --bin ripcalc --no-default-features --features "$2" \
        && mv "$build/checked/debug/ripcalc" "$build/ripcalc-$1"
}
checked_and_variants() {
    step checked checked || return 1
    cp "$build/checked/debug/ripcalc" "$build/ripcalc-checked.new" && mv "$build/ripcalc-checked.new" "$build/ripcalc-checked" || return 1
    rm -f "$build/ripcalc-bare" "$build/ripcalc-console-only" "$build/ripcalc-bigint-only" "$build/unbuildable"
    needs_variants "$@" || return 0
    local v
    for v in bare: console-only:console bigint-only:num-bigint; do
        step "variant-${v%%:*}" variant "${v%%:*}" "${v#*:}" && continue
        # the sources do not compile, or something is wrong here
        grep -q 'could not compile `ripcalc`' "$build/variant-${v%%:*}.log" && ! grep -q -e 'signal:' -e 'No space left' "$build/variant-${v%%:*}.log" || return 1
        echo "${v%%:*}" >>"$build/unbuildable"
    done
}

step world world & a=$!
step driver driver & b=$!
checked_and_variants "$@" & c=$!
step release release & d=$!
for p in $a $b $c $d; do wait $p || broken "the build failed"; done
[ "${1:-}" = setup ] && exit 0

# a private copy, so that a later build does not change what this run executes
run="$(mktemp -d "${TMPDIR:-/tmp}/ripsim.XXXXXXXX")" || broken "no scratch directory"
trap 'rm -rf "$run"' EXIT
cp "$build/simworld.so" "$run/simworld.so" && cp "$build/sim/release/ripsim" "$run/ripsim" \
    && cp "$build/ripcalc-checked" "$run/ripcalc-checked" && cp "$build/release/release/ripcalc" "$run/ripcalc-release" \
    || broken "build products are missing"
unbuildable="$(cat "$build/unbuildable" 2>/dev/null)"
if needs_variants "$@"; then
    for v in bare console-only bigint-only; do
        [ ! -e "$build/ripcalc-$v" ] || cp "$build/ripcalc-$v" "$run/" || broken "build products are missing"
    done
fi
flock -u 9
exec 9>&-

export RIPSIM_REPO="$repo" RIPSIM_WORLD="$run/simworld.so" RIPSIM_BUILDS="$run"
export RIPSIM_EVIDENCE="${RIPSIM_EVIDENCE:-$here/evidence}" RIPSIM_REPLAYS="${RIPSIM_REPLAYS:-$here/replays}"
# a build that does not come into being cannot answer like the others
if [ -n "$unbuildable" ] && [ "${1:-}" = C23 ]; then
    mkdir -p "$RIPSIM_REPLAYS"
    file="$RIPSIM_REPLAYS/C23-unbuildable.replay"
    { echo "# ./check.sh replay <this file>"; echo "property C23"; echo "unbuildable" $unbuildable; } >"$file"
    echo "check.sh: cannot be built:" $unbuildable
    echo "VIOLATION property=C23 replay=$file"
    "$run/ripsim" unbuildable C23
    exit 1
fi
if [ "${1:-}" = replay ] && grep -q '^unbuildable ' "${2:-/dev/null}" 2>/dev/null; then
    if [ "unbuildable $(echo $unbuildable)" = "$(grep '^unbuildable ' "$2")" ]; then
        echo "VIOLATION property=C23 replay=$2"
        exit 1
    fi
    echo "check.sh: cannot be built now:" ${unbuildable:-none}
    exit 0
fi
[ -z "$unbuildable" ] || [ "${1:-}" != sim ] || broken "cannot be built: $unbuildable"
case "${1:-}" in
    C[0-9][0-9]*) "$run/ripsim" check "$1" ;;
    replay) [ -e "${2:-}" ] || broken "no such file: ${2:-}"; "$run/ripsim" replay "$2" ;;
    sim) shift; "$run/ripsim" "$@" ;;
    *) broken "usage: check.sh ID | replay FILE | setup | sim ARGS" ;;
esac
