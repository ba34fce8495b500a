#!/bin/bash
# Usage: check.sh ID [ARGS...]   builds the explorer from /repo's working tree and runs one check.
# Exit 0: held on everything explored. Exit 1: VIOLATION printed. Exit 3: no verdict (build failed).
set -u
dir=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$dir
id=$1
shift
case $id in K12) crate=ctmc ;; K*) crate=crymc ;; *) crate=tlsmc ;; esac
target=${VERIF_TARGET:-$dir/target}
mkdir -p "$target"
build() {
    # Never trust time stamps for the code under test: forget what was built from /repo.
    rm -rf "$target"/release/.fingerprint/turtls-* "$target"/release/.fingerprint/crylib-*
    CARGO_TARGET_DIR=$target cargo build --release --offline --manifest-path "$dir/$crate/Cargo.toml" >"$target/build-$crate.log" 2>&1
}
if ! ( flock 9; build ) 9>"$target/.lock"; then
    cat "$target/build-$crate.log"
    echo "check.sh: $crate does not build against /repo"
    exit 3
fi
exec "$target/release/$crate" "$id" "$@"
