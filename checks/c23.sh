# shared objects of the library with a probe at every basic block and memory
# access, inserted into the compiler's own output (see c23_probe.py)
NO_LIB=1
H_LIBS=-ldl
ctlib() { # NAME CC FLAGS...
  local n=$1 cc=$2; shift 2
  echo "$n" >> "$B/configs"
  ( set -e; D="$B/ct/$n"; mkdir -p "$D"; l=(); k=0; : > "$D/names"
    for f in "$R/src/target.c" "$R"/third_party/*.c "$V/checks/c23_mem.c"; do
      b=$(basename "$f" .c); x=; if [ "$b" = c23_mem ]; then x=-fno-builtin; [ $cc = clang ] || x="$x -fno-tree-loop-distribute-patterns"; fi
      $cc "$@" $x -pedantic -std=c99 -m64 -mavx2 -fPIC -w -g0 -fcf-protection=none $INC -S "$f" -o "$D/$b.s"
      python3 "$V/checks/c23_probe.py" "$D/$b.s" "$D/$b.p.s" "$D/$b.n" $b $k; k=$((k + 100000)); cat "$D/$b.n" >> "$D/names"
      $cc -c "$D/$b.p.s" -o "$D/$b.o"; rm -f "$D/$b.s" "$D/$b.p.s"; l+=("$D/$b.o")
    done
    gcc -c "$V/checks/c23_probe.s" -o "$D/probe.o"
    gcc -shared -Wl,-Bsymbolic,-z,now -o "$D/libfaz.so" "${l[@]}" "$D/probe.o" ) & pids+=($!)
}
. "$V/checks/configs.inc"
extra_build() {
  : > "$B/configs"
  # the other ways to swap, which only the Diffie-Hellman functions use
  for v in LOGIC CMOV; do i=$(cd "$B"; opt_inc SWAP_METHOD $v); ctlib gcc-O3-swap$v gcc $i -O3 -mbmi2 -march=native -mtune=native; [ "$VERIF_TIER" = thorough ] && ctlib clang-O3-swap$v clang $i -O3 -mbmi2 -march=native -mtune=native; done
  ctlib gcc-O3 gcc -O3 -mbmi2 -march=native -mtune=native
  ctlib clang-O3 clang -O3 -mbmi2 -march=native -mtune=native
  if [ "$VERIF_TIER" = thorough ]; then
    ctlib gcc-O2 gcc -O2 -mbmi2 -march=native -mtune=native; ctlib clang-O2 clang -O2 -mbmi2 -march=native -mtune=native
    ctlib gcc-noadx gcc -O3 -march=haswell; ctlib clang-noadx clang -O3 -march=haswell; ctlib gcc-nobmi gcc -O3 -march=haswell -mno-bmi2; ctlib clang-nobmi clang -O3 -march=haswell -mno-bmi2
  fi
}
