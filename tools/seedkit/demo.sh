#!/bin/bash
# Run with cwd = the ceres-solver tree.  Builds what the demonstration needs from
# that tree in a scratch directory and runs it.  LIB: none | core.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
LIB=@LIB@
tmp="$(mktemp -d)" || exit 3
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/gen/ceres/internal" "$tmp/o"
cat > "$tmp/gen/ceres/internal/export.h" <<'X'
#ifndef CERES_EXPORT_H
#define CERES_EXPORT_H
#define CERES_EXPORT
#define CERES_NO_EXPORT
#define CERES_DEPRECATED __attribute__((__deprecated__))
#define CERES_DEPRECATED_EXPORT CERES_DEPRECATED
#define CERES_DEPRECATED_NO_EXPORT CERES_DEPRECATED
#endif
X
cat > "$tmp/gen/ceres/internal/config.h" <<'X'
#ifndef CERES_INTERNAL_CONFIG_H_
#define CERES_INTERNAL_CONFIG_H_
#define CERES_USE_EIGEN_SPARSE
#define CERES_NO_LAPACK
#define CERES_NO_SUITESPARSE
#define CERES_NO_CUDA
#define CERES_NO_CUDSS
#define CERES_NO_ACCELERATE_SPARSE
#define CERES_NO_CHOLMOD_PARTITION
#define CERES_NO_EIGEN_METIS
#endif
X
flags="-std=c++17 -O@OPT@ -w -pthread -DCERES_STATIC_DEFINE -DCERES_RESTRICT_SCHUR_SPECIALIZATION @EXTRA@
 -I$here/shim -I$tmp/gen -I$repo/include -I$repo/internal -I$repo/internal/ceres -I/usr/include/eigen3"
if [ "$LIB" = core ]; then
  ls "$repo"/internal/ceres/*.cc "$repo"/internal/ceres/generated/*.cc |
    grep -vE '(_test|_benchmark|benchmark_utils|benchmark|cuda|test_util|evaluator_test_utils|numeric_diff_test_utils|gmock|gtest)' > "$tmp/list"
fi
echo "$here/demo.cc" >> "$tmp/list"
nl -ba "$tmp/list" | xargs -P 8 -n 2 sh -c 'g++ '"$(echo $flags)"' -c "$2" -o "'"$tmp"'/o/$1.o" || exit 255' sh || { echo "demo: build failed"; exit 4; }
g++ -pthread @EXTRA@ -o "$tmp/demo" "$tmp"/o/*.o -Wl,--start-group /usr/lib/x86_64-linux-gnu/libabsl_*.a -Wl,--end-group -lpthread -ldl || exit 4
cd "$tmp" && timeout 120 ./demo
