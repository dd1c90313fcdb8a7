#!/bin/bash
# check.sh ID [--replay FILE]: rebuild the harness against /repo's working tree and decide property ID.
# With VERIF_TIER=thorough a coverage-guided search (VERIF_GUIDED seconds) follows the random one.
# check.sh --build: only build.
cd "$(dirname "$0")" || exit 2
root=$PWD
export VERIF_ROOT=$root
log=$(mktemp) || exit 2
# build DIR TARGET ARG...
build() {
    if ! (cd "$1" && CARGO_TARGET_DIR=$2 cargo build --offline --release --locked "${@:3}") >"$log" 2>&1; then
        cat "$log" >&2
        rm -f "$log"
        echo "the harness does not build against /repo" >&2
        exit 2
    fi
}
build harness "$root/target"
if [ "$1" = --build ] || [ -n "$2" ] || [ "$VERIF_TIER" != thorough ]; then
    rm -f "$log"
    [ "$1" = --build ] && exit 0
    exec "$root/target/release/check" "$@"
fi
"$root/target/release/check" "$@" || exit
export RUSTC_WRAPPER=$root/guided/covwrap.sh
build guided "$root/target/guided" --features guided
rm -f "$log"
exec "$root/target/guided/release/guided" "$@"
