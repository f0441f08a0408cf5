#!/bin/bash
# build_sut.sh OUTDIR: builds /repo's working tree, instrumented, into OUTDIR/sut.so. Never writes in /repo.
set -e
OUT=$1; REPO=${LB_REPO:-/repo}
HERE=$(cd "$(dirname "$0")" && pwd)
export LC_ALL=C
unset CFLAGS CXXFLAGS LDFLAGS
mkdir -p "$OUT"
FLAGS="-g1 -O1 -fPIC -fno-omit-frame-pointer -U_FORTIFY_SOURCE -fno-common -fsanitize=address -fsanitize=bounds -fno-sanitize-recover=bounds --param asan-globals=1 -fsanitize-coverage=trace-pc -w"
cmake -S "$REPO" -B "$OUT/cm" -G Ninja -DCMAKE_BUILD_TYPE=Debug -DCMAKE_C_COMPILER=gcc -DCMAKE_CXX_COMPILER=g++ \
  -DCMAKE_C_FLAGS="$FLAGS" -DCMAKE_C_FLAGS_DEBUG="" -DCMAKE_C_STANDARD_LIBRARIES=-lm -DLBASIC_NOTEST=ON \
  -DCMAKE_EXE_LINKER_FLAGS="-no-pie -Wl,--unresolved-symbols=ignore-all" >"$OUT/cmake.log" 2>&1 || { cat "$OUT/cmake.log" >&2; exit 1; }
ninja -C "$OUT/cm" LegacyBasic >"$OUT/ninja.log" 2>&1 || { cat "$OUT/ninja.log" >&2; exit 1; }
# every object that went into the program
ninja -C "$OUT/cm" -t inputs LegacyBasic 2>/dev/null | grep '\.o$' > "$OUT/objs" || true
if [ ! -s "$OUT/objs" ]; then (cd "$OUT/cm" && find . -name '*.o') > "$OUT/objs"; fi
mkdir -p "$OUT/o"; n=0; objs=()
(cd "$OUT/cm"; while read -r f; do n=$((n+1)); objcopy --redefine-syms="$HERE/redefine.syms" "$f" "$OUT/o/$n.o"; done < "$OUT/objs")
gcc -shared -fsanitize=address -Wl,-z,norelro -Wl,-Bsymbolic -Wl,-z,lazy -o "$OUT/sut.so" "$OUT"/o/*.o -lm -Wl,--unresolved-symbols=ignore-all
