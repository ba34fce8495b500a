#!/bin/bash
# Builds every explorer once, so that the checks only have to rebuild what comes from /repo.
set -eu
dir=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$dir/target" "$dir/evidence"
for crate in tlsmc crymc ctmc; do
    [ -d "$dir/$crate" ] || continue
    ( flock 9; CARGO_TARGET_DIR=$dir/target cargo build --release --offline --manifest-path "$dir/$crate/Cargo.toml" ) 9>"$dir/target/.lock"
done
