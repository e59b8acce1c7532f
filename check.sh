#!/bin/bash
# check.sh ID [quick|thorough]   run one check against /repo's current working tree
# check.sh replay FILE           run the failing case of a replay file again
# check.sh setup                 build only
# VP_REPO=DIR checks another tree (used for seeded bugs in scratch copies).
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="${VP_REPO:-/repo}"
export HOME="${HOME:-/root}" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS RUST_BACKTRACE
build() {
    # the program under test, with the settings of the project's own build
    (
        cd "$repo" || exit 1
        touch -c src/lib.rs src/main.rs
        CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TARGET_DIR="$repo/target" \
            cargo build --offline --quiet --bin dump_syms
    ) || return 1
    # the harness
    (cd "$here/harness" && cargo build --offline --quiet --target-dir "$here/target/harness") || return 1
}
build >"${TMPDIR:-/tmp}/vp-build.$$" 2>&1 || {
    cat "${TMPDIR:-/tmp}/vp-build.$$" >&2
    rm -f "${TMPDIR:-/tmp}/vp-build.$$"
    echo "build failed" >&2
    exit 2
}
rm -f "${TMPDIR:-/tmp}/vp-build.$$"
export VP_BIN="$repo/target/debug/dump_syms" VP_VERIF="$here"
case "${1:-}" in
setup) exit 0 ;;
replay) exec "$here/target/harness/debug/vp" replay "$2" ;;
"") echo "usage: $0 ID [quick|thorough] | replay FILE | setup" >&2; exit 2 ;;
*) exec "$here/target/harness/debug/vp" check "$@" ;;
esac
