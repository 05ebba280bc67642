#!/bin/bash
# usage: build.sh OUT_DIR   -- builds the simulator with the sources of $SELDON (default /repo)
# Every step is keyed by the content of what goes in, so an unchanged tree costs nothing.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${SELDON:-/repo}
OUT=$1
mkdir -p "$OUT/obj"
CXX=${CXX:-g++}
SUTFLAGS="-std=c++20 -O1 -g0 -fPIC -D_GLIBCXX_ASSERTIONS -fsanitize-coverage=trace-pc -include $HERE/simrng.hpp -I$HERE/shim -I$REPO/include"
SIMFLAGS="-std=c++20 -O2 -g0"

# --- key of the repository's sources (contents only) and of the seams
sutkey=$( (cd "$REPO" && find include src -type f | LC_ALL=C sort | xargs sha256sum;
           cd "$HERE" && sha256sum simrng.hpp shim/fmt/std.h sut_api.hpp sut_sim.cpp sut_net.cpp build.sh; $CXX --version) | sha256sum | cut -c1-24)
simkey=$( (cd "$HERE" && sha256sum *.hpp core.cpp guard.cpp model.cpp props*.cpp main.cpp build.sh; $CXX --version) | sha256sum | cut -c1-24)
SO="$OUT/libsut-$sutkey.so"
EXE="$OUT/sim-$simkey-$sutkey"
if [ -x "$EXE" ] && [ -f "$SO" ]; then echo "$EXE"; exit 0; fi

T=$(mktemp -d "$OUT/tmp.XXXXXX") || exit 3
trap 'rm -r -f "$T"' EXIT
jobs_file="$T/jobs"; : > "$jobs_file"
if [ ! -f "$SO" ]; then
  i=0
  for f in $(cd "$REPO" && find src -name '*.cpp' | LC_ALL=C sort); do
    i=$((i+1)); d=""
    [ "$f" = src/main.cpp ] && d="-Dmain=seldon_main"
    echo "$CXX $SUTFLAGS $d -c $REPO/$f -o $T/repo$i.o" >> "$jobs_file"
  done
  for f in sut_sim sut_net; do
    echo "$CXX $SUTFLAGS -I$HERE -c $HERE/$f.cpp -o $T/$f.sut.o" >> "$jobs_file"
  done
fi
for f in "$HERE"/core.cpp "$HERE"/guard.cpp "$HERE"/model.cpp "$HERE"/props*.cpp "$HERE"/main.cpp; do
  b=$(basename "$f" .cpp)
  k=$( (cat "$f" "$HERE"/*.hpp "$HERE"/build.sh; $CXX --version) | sha256sum | cut -c1-24)
  o="$OUT/obj/$b-$k.o"
  echo "$o" >> "$T/objs"
  [ -f "$o" ] || echo "$CXX $SIMFLAGS -c $f -o $T/$b.tmp.o && mv $T/$b.tmp.o $o" >> "$jobs_file"
done
xargs -a "$jobs_file" -d '\n' -P "$(nproc)" -I{} bash -c '{}' > "$T/log" 2>&1
rc=$?
if [ $rc -ne 0 ]; then cat "$T/log" >&2; echo "build failed" >&2; exit 3; fi
if [ ! -f "$SO" ]; then
  $CXX -shared -o "$T/so" "$T"/repo*.o "$T"/*.sut.o -lfmt -Wl,-z,now -Wl,-soname,libsut-$sutkey.so > "$T/log" 2>&1 || { cat "$T/log" >&2; exit 3; }
  mv "$T/so" "$SO"
fi
$CXX -no-pie -rdynamic -o "$T/exe" $(cat "$T/objs") "$SO" -Wl,-rpath,'$ORIGIN' -Wl,-z,now -ldl -lpthread > "$T/log" 2>&1 || { cat "$T/log" >&2; exit 3; }
mv "$T/exe" "$EXE"
echo "$EXE"
