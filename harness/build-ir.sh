#!/bin/bash
# Build a harness and all of backpak to one LLVM IR file: build-ir.sh BIN TARGETDIR
set -e
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR="$2" CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export RUSTFLAGS="--cfg rustix_use_libc -C no-vectorize-loops -C no-vectorize-slp -A warnings"
exec cargo rustc --release --offline --bin "$1" -- --emit=llvm-ir -C linker=/bin/true
