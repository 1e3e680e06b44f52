#!/bin/bash
# Build what the checks build anyway, so that they find it in the cache.
cd "$(dirname "$0")" || exit 1
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never RUSTC_WRAPPER= PATH=/root/.cargo/bin:$PATH
unset RUSTFLAGS CARGO_TARGET_DIR
(cd engine && cargo build --release --offline) || exit 1
bash harness/build-sqlite.sh "$PWD/harness/target" || exit 1
for b in hx hk; do bash harness/build-ir.sh $b "$PWD/harness/target" || exit 1; done
(cd native && RUSTFLAGS="--cfg rustix_use_libc -A warnings" CARGO_TARGET_DIR="$PWD/target" cargo build --offline --bins) || exit 1
