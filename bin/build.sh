#!/bin/bash
# build.sh ID [variant...]: rebuilds the library from /repo's working tree and
# links checks/ID.cpp against it.  Everything goes to $VERIF_ROOT/build/ID.
# A variant is NAME:CC:FLAGS (commas for spaces); the default is the project's own.
set -e
ID=$1; shift
V=${VERIF_ROOT:-/verif}
R=${REPO_ROOT:-/repo}
B=$V/build/$ID
mkdir -p "$B"
low=$(echo "$ID" | tr A-Z a-z)
INC="-I$R/include -I$R/third_party"
PROJ="-O3 -pedantic -std=c99 -m64 -mavx2 -mbmi2 -march=native -mtune=native -fPIC -w"
[ -f "$V/checks/$low.sh" ] && . "$V/checks/$low.sh"
CC=${LIB_CC:-gcc}
FLAGS=${LIB_FLAGS:-$PROJ}
pids=()
run() { "$@" & pids+=($!); }
if [ -z "$NO_LIB" ]; then
  run $CC $FLAGS $LIB_EXTRA $INC -c "$R/src/target.c" -o "$B/target.o"
  rm -f "$B"/tp_*.o
  for f in "$R"/third_party/*.c; do
    run $CC $FLAGS $LIB_EXTRA $INC -c "$f" -o "$B/tp_$(basename "$f" .c).o"
  done
fi
for f in vf ref; do
  run g++ -O2 -std=c++17 -march=native -c "$V/core/$f.cpp" -o "$B/$f.o"
done
run g++ -O2 -std=c++17 -march=native -Wall -Wno-misleading-indentation $H_FLAGS -I"$V/core" $INC -c "$V/checks/$low.cpp" -o "$B/check.o"
# variant NAME CC FLAGS...: the whole library once more, its symbols prefixed NAME_
variant() {
  local n=$1 cc=$2; shift 2
  ( set -e
    mkdir -p "$B/$n"; l=()
    for f in "$R/src/target.c" "$R"/third_party/*.c; do
      o="$B/$n/$(basename "$f" .c).o"; l+=("$o"); $cc $PROJ "$@" $INC -c "$f" -o "$o"
    done
    ld -r -o "$B/$n/all.o" "${l[@]}"
    nm -g --defined-only "$B/$n/all.o" | awk -v n="$n" '{print $3, n "_" $3}' > "$B/$n/map"
    objcopy --redefine-syms="$B/$n/map" "$B/$n/all.o" "$B/$n.o" ) & pids+=($!)
  EXTRA_OBJS="$EXTRA_OBJS $B/$n.o"
}
type extra_build >/dev/null 2>&1 && extra_build
for p in "${pids[@]}"; do wait "$p"; done
type extra_link >/dev/null 2>&1 && extra_link
LIBO=
[ -z "$NO_LIB" ] && LIBO="$B/target.o $(ls "$B"/tp_*.o | tr '\n' ' ')"
g++ -o "$B/check" "$B/check.o" "$B/vf.o" "$B/ref.o" $LIBO $EXTRA_OBJS -lgmp -lpthread $H_LIBS
