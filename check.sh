#!/bin/bash
# check.sh build | check.sh <id> | check.sh replay <file>
#
# Builds the harness against /repo's current working tree and runs one check.
# Exit 0: held; 1: VIOLATION line printed; anything else: the check itself failed.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
profile=${VERIF_PROFILE:-release}

# build <target dir> <rustflags>
build() {
    export CARGO_TARGET_DIR=$1 RUSTFLAGS=$2
    # cargo goes by mtimes: have it always look at the library again
    rm -rf "$CARGO_TARGET_DIR/$profile/.fingerprint"/rusty_network-*
    (cd "$here/harness" && cargo build --offline --profile "$profile" --bin vh) >"$here/target/build.log" 2>&1
}

mkdir -p "$here/target"
exec 9>"$here/target/lock"
flock 9
bin=
if build "$here/target/hooks" "--cfg verif_hooks"; then
    bin=$here/target/hooks/$profile/vh
elif build "$here/target/plain" ""; then
    # The guarded accessors do not compile on this tree: look from outside only.
    echo "note: built without the hooks (cfg verif_hooks does not compile on this tree)" >&2
    bin=$here/target/plain/$profile/vh
else
    cat "$here/target/build.log" >&2
    echo "error: the harness does not build against /repo" >&2
    exit 2
fi
exec 9>&-

export VERIF_DIR=$here
case "$1" in
build) exit 0 ;;
replay) exec "$bin" replay "$2" ;;
*) exec "$bin" check "$1" ;;
esac
