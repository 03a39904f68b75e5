#!/bin/bash
# Builds everything the checks need from /repo's working tree into /verif/build (incremental).
set -eu
HERE=$(cd "$(dirname "$0")" && pwd)
export LC_ALL=C.UTF-8 PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
BUILD=${VERIF_BUILD:-$HERE/build}
mkdir -p "$BUILD"
if [ ! -f "$BUILD/build.ninja" ]; then
  cmake -S "$HERE/cmake" -B "$BUILD" -G Ninja \
    -DCMAKE_C_COMPILER=/usr/bin/clang-18 -DCMAKE_CXX_COMPILER=/usr/bin/clang++-18 \
    -DCMAKE_BUILD_TYPE=None -DCMAKE_CXX_FLAGS="-O2 -g0 -fpch-instantiate-templates -Xclang -fno-pch-timestamp" -DCMAKE_C_FLAGS="-O2 -g0" \
    -DCMAKE_EXE_LINKER_FLAGS="-fuse-ld=lld" -DCMAKE_SHARED_LINKER_FLAGS="-fuse-ld=lld" \
    ${VERIF_REPO:+-DREPO="$VERIF_REPO"} -DLLVM_DIR=/usr/lib/llvm-20/lib/cmake/llvm >"$BUILD/configure.log" 2>&1 ||
    { cat "$BUILD/configure.log"; exit 1; }
fi
[ -f "$BUILD/locale/en_US.UTF-8/LC_CTYPE" ] || { mkdir -p "$BUILD/locale"; localedef -i en_US -f UTF-8 "$BUILD/locale/en_US.UTF-8"; }
exec ninja -C "$BUILD" -j"${JOBS:-8}" "${@:-all}"
