#!/bin/bash
# Compile the SQLite that rusqlite bundles to LLVM IR: build-sqlite.sh TARGETDIR
set -e
cd "$(dirname "$0")"
mkdir -p "$1"
V=$(sed -n '/^name = "libsqlite3-sys"/{n;s/version = "\(.*\)"/\1/p}' /repo/Cargo.lock)
S=$(ls -d "${CARGO_HOME:-$HOME/.cargo}"/registry/src/*/libsqlite3-sys-"$V"/sqlite3 /root/.cargo/registry/src/*/libsqlite3-sys-"$V"/sqlite3 2>/dev/null | head -1)
F="-S -emit-llvm -O1 -w -fno-pic -fno-builtin -fno-vectorize -fno-slp-vectorize -ffp-contract=off -fno-jump-tables -fno-stack-protector -U_FORTIFY_SOURCE"
clang $F -o "$1/aux.part" c/aux.c &
clang $F -DLONGDOUBLE_TYPE=double -DSQLITE_CORE -DSQLITE_DEFAULT_FOREIGN_KEYS=1 -DSQLITE_ENABLE_API_ARMOR -DSQLITE_ENABLE_COLUMN_METADATA \
  -DSQLITE_ENABLE_MEMORY_MANAGEMENT -DSQLITE_THREADSAFE=1 -DSQLITE_USE_URI -DHAVE_USLEEP=0 -DSQLITE_OMIT_LOAD_EXTENSION -DSQLITE_MAX_MMAP_SIZE=0 \
  -o "$1/sqlite3.part" "$S/sqlite3.c"
wait
cat "$1/sqlite3.part" "$1/aux.part" | grep -v '^!' > "$1/sqlite3.ll.new"
mv "$1/sqlite3.ll.new" "$1/sqlite3.ll"
rm -f "$1/sqlite3.part" "$1/aux.part"
