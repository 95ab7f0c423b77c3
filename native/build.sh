#!/bin/bash
# build.sh OUTDIR MODE PROGRAM.bc   MODE: plain | asan | tsan
# Native build of the same bitcode of /repo's sources and harness that the
# engine executes (PROGRAM.bc: without model and rt), against libstdc++, with
# the externals that the model defines renamed to the model's version.
set -e
OUT=$1; MODE=$2; BC=$3
V=$(cd "$(dirname "$0")/.." && pwd); ENGINE=${VK_ENGINE:-$V/build/engine}
CXX=/usr/lib/llvm-18/bin/clang++
mkdir -p "$OUT"
case $MODE in plain) S=""; D=-DVK_PLAIN;; asan) S="-fsanitize=address"; D=-DVK_ASAN;; tsan) S="-fsanitize=thread"; D=-DVK_TSAN;; esac
$CXX -std=c++17 -O1 -g1 -w -I$V/model -c $V/model/model.cc -o $OUT/model.o &
p1=$!
$CXX -std=c++17 -O1 -g1 -w $D -I$V/model -c $V/native/replay.cc -o $OUT/replay.o &
p2=$!
wait $p1; wait $p2
for o in $OUT/model.o $OUT/replay.o; do /usr/bin/nm --defined-only $o; done | awk '$3 ~ /^vkm_/ {x=substr($3,5); print x" "$3}' | sort -u > $OUT/redef
$ENGINE --instrument $BC $OUT/inst.bc $MODE $OUT/redef
$CXX -O1 -w -fno-pie $S -c $OUT/inst.bc -o $OUT/u.o
$CXX $S -no-pie -rdynamic -o $OUT/replay $OUT/u.o $OUT/model.o $OUT/replay.o -ldl -lpthread -lrt
