#!/bin/bash
# build.sh PROFILE...: builds the checks against the current tree of /repo.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export CARGO_TARGET_DIR="$here/target" CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_PROFILE CARGO_INCREMENTAL

for profile in "$@"; do
    # cargo trusts modification times; make it look at the library again.
    for f in "$here/target/$profile/.fingerprint/eth_trie_utils-"*; do
        [ -d "$f" ] && rm -r -- "$f"
    done
    log="$here/target/build-$profile.log"
    mkdir -p "$here/target"
    if ! cargo build --quiet --offline --locked --manifest-path "$here/harness/Cargo.toml" \
        --profile "$profile" --bin trie-checks >"$log" 2>&1; then
        cat "$log" >&2
        echo "build of the checks failed ($profile)" >&2
        exit 2
    fi
done
