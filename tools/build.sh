#!/bin/bash
# Builds the simulator against the library sources in /repo's working tree: build.sh [harness|lib|all]
# Everything is written to $OUT (default /verif/build).
set -e
HERE=$(cd "$(dirname "$0")/.." && pwd); REPO=${REPO:-/repo}; OUT=${OUT:-$HERE/build}; MODE=${1:-all}
H=${HOBJ:-$HERE/build/h}; mkdir -p "$H" "$OUT/l"
exec 9>"$H.lock"; flock 9
CXX="clang++ -std=c++17 -O2 -g1 -Wall"
if [ "$MODE" != lib ] || [ ! -f "$H/ok" ]; then
  rm -f "$H/ok"; pids=()
  for f in rt os image text gen exec exec_e main; do
    if [ ! -f "$H/$f.o" ] || [ -n "$(find "$HERE/sim" -newer "$H/$f.o" \( -name '*.h' -o -name "$f.cpp" \))" ]; then $CXX -c "$HERE/sim/$f.cpp" -o "$H/$f.o" & pids+=($!); fi
  done
  for p in "${pids[@]}"; do wait $p; done
  grep -hoE '\bsim_[A-Za-z0-9_]+ *[(;={\[]' "$HERE/sim/rt.cpp" "$HERE/sim/os.cpp" | sed -E 's/ *[(;={\[]$//' | sort -u | sed -E 's/^sim_(.*)$/\1 sim_\1/' > "$H/redefs.new"; mv "$H/redefs.new" "$H/redefs"
  touch "$H/ok"
fi
[ "$MODE" = harness ] && exit 0
flock -u 9; exec 9>&-
WORK=$OUT/l
find "$WORK" -type f -delete
CFLAGS="-O1 -g -fno-builtin -fsanitize=address,bounds -fsanitize-address-use-after-return=never -mllvm -asan-instrumentation-with-call-threshold=0 -mllvm -asan-opt=0 -mllvm -asan-opt-same-temp=0 -mllvm -asan-opt-globals=0 -mllvm -asan-mapping-offset=0x200000000000 -femulated-tls -fno-common -fno-sanitize-address-globals-dead-stripping -fno-data-sections -ftrivial-auto-var-init=pattern -fstack-protector-all -w -Wno-implicit-function-declaration -Wno-int-conversion -Wno-incompatible-function-pointer-types"
cc1() { # file object
  clang $CFLAGS $EXTRA -I"$REPO/include" -I"$REPO/sample" -I"$REPO/src" -c "$1" -o "$2" && objcopy --redefine-syms="$H/redefs" "$2" && objcopy --rename-section .data=libdata --rename-section .bss=libbss "$2"
}
pids=()
for f in "$REPO"/src/*.c; do
  b=$(basename "$f" .c); case $b in win*|windows*) continue;; esac
  cc1 "$f" "$WORK/$b.o" & pids+=($!)
done
cc1 "$REPO/sample/enclose_io_unix.c" "$WORK/enclose_io_unix.o" & pids+=($!)
clang -O1 -g -w -I"$REPO/include" -I"$REPO/sample" -I"$HERE/sim" -c "$HERE/sim/glue.c" -o "$WORK/glue.o" & pids+=($!)
for p in "${pids[@]}"; do wait $p; done
clang++ -no-pie -o "$OUT/sim.new" "$H"/*.o "$WORK"/*.o -lz -lm
mv "$OUT/sim.new" "$OUT/sim"
