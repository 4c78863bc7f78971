# Builds of the library, one shared object per configuration, from /repo's
# working tree.  conf_all [all|native] fills $B/configs and $B/jobs; conf_run
# builds them (8 at a time) as $B/cfg/NAME/libfaz.so.
conf() { echo "$1" >> configs; echo "lib $*" >> jobs; }
# opt_inc OPTION VALUE: the headers with a documented compile-time option set
opt_inc() { local d="$PWD/opt/$2"; rm -rf "$d"; mkdir -p "$d"; cp "$R"/include/* "$d/"; sed -i -E "s/^([[:space:]]*#[[:space:]]*define[[:space:]]+$1[[:space:]]+)[A-Za-z0-9_]+/\\1$2/" "$d"/*.h; echo "-I$d"; }
conf_all() {
  rm -f jobs configs
  NATIVE="-march=native -mtune=native"; HASWELL="-march=haswell"; NOBMI="-march=haswell -mno-bmi2"
  for cc in clang gcc; do for o in O3 O2 O1 Os O0; do
    conf $cc-$o-native $cc -$o $NATIVE; [ "$1" = native ] && continue
    conf $cc-$o-noadx $cc -$o $HASWELL; conf $cc-$o-nobmi $cc -$o $NOBMI
  done; done
  if [ "$1" != native ]; then for v in LOGIC CMOV; do
    i=$(opt_inc SWAP_METHOD $v); conf gcc-O3-swap$v gcc -O3 $NATIVE $i; [ $v = LOGIC ] && [ "$VERIF_TIER" != thorough ] || conf clang-O2-swap$v clang -O2 $NATIVE $i; conf gcc-O0-swap$v gcc -O0 $NATIVE $i
  done; fi
  if [ "$VERIF_TIER" = thorough ]; then for cc in clang gcc; do
    conf $cc-O3-skylake $cc -O3 -march=skylake; conf $cc-O3-v3 $cc -O3 -march=x86-64-v3; conf $cc-O3-skylake-noadx $cc -O3 -march=skylake -mno-adx
    conf $cc-O3-noinline $cc -O3 $NATIVE -fno-inline; conf $cc-O2-protect $cc -O2 $NATIVE -fstack-protector-all -D_FORTIFY_SOURCE=2; conf $cc-O3-unroll $cc -O3 $NATIVE -funroll-loops
    conf $cc-O3-nopic $cc -O3 $NATIVE -fno-plt -fvisibility=default; conf $cc-O3-noavx512 $cc -O3 -march=native -mno-avx512f; conf $cc-O2-fp $cc -O2 $NATIVE -fno-omit-frame-pointer
  done; conf gcc-Og-native gcc -Og $NATIVE; conf gcc-Ofast-native gcc -Ofast $NATIVE; conf clang-Ofast-native clang -Ofast $NATIVE; fi
}
# conf_wp: programs that contain the library, optimised as a whole, in groups of
# one instruction set each; the first of a group is the one not optimised
conf_wp() {
  local m g o cc; mkdir -p wp; rm -f wp/list
  for g in native noadx nobmi; do
    case $g in native) m=$NATIVE;; noadx) m=$HASWELL;; nobmi) m=$NOBMI;; esac
    echo "wp gcc-O0-$g $g gcc -O0 $m" >> jobs
    for o in O2 O3; do
      echo "wp gcc-$o-lto-$g $g gcc -$o -flto $m" >> jobs
      [ $o = O3 ] || [ $g = native ] || [ "$VERIF_TIER" = thorough ] && echo "wp clang-$o-lto-$g $g clang -$o -flto $m" >> jobs
    done
    [ $g = native ] || [ "$VERIF_TIER" = thorough ] || continue
    echo "wp gcc-O2-lto-inline-$g $g gcc -O2 -flto -finline-functions -finline-limit=20000 $m" >> jobs
    [ "$VERIF_TIER" = thorough ] || continue
    for cc in gcc clang; do for o in O1 Os; do echo "wp $cc-$o-lto-$g $g $cc -$o -flto $m" >> jobs; done; done
    echo "wp clang-O0-$g $g clang -O0 $m" >> jobs
    echo "wp gcc-O3-whole-$g $g gcc -O3 -flto -fwhole-program -finline-limit=20000 $m" >> jobs
    echo "wp clang-O3-lto-inline-$g $g clang -O3 -flto -Wl,-mllvm,-inline-threshold=20000 $m" >> jobs
  done
}
conf_run() {
  cat > job.sh <<J
set -e
if [ "\$1" = lib ]; then n=\$2; cc=\$3; shift 3; mkdir -p cfg/\$n
  \$cc "\$@" -pedantic -std=c99 -m64 -mavx2 \$(echo "\$@" | grep -q mno-bmi2 || echo -mbmi2) -fPIC -w $INC -shared -Wl,-Bsymbolic -o cfg/\$n/libfaz.so $R/src/target.c $(ls $R/third_party/*.c | tr '\n' ' ')
elif [ "\$1" = wp ]; then n=\$2; g=\$3; cc=\$4; shift 4; mkdir -p wp; echo "\$n \$g" >> wp/list
  if [ \$cc = clang ]; then l=-fuse-ld=lld; else l=; fi
  \$cc "\$@" \$l -std=gnu11 -m64 -mavx2 \$(echo "\$@" | grep -q mno-bmi2 || echo -mbmi2) -w $INC -o wp/\$n $R/src/target.c $(ls $R/third_party/*.c | tr '\n' ' ') $V/checks/c26_wp.c 2>/dev/null
else mkdir -p sub; g++ -O2 -std=c++17 -march=native -w -DONE_BUILD -I$V/core $INC -c $V/checks/\$2.cpp -o sub/\$2.o; fi
J
  xargs -P 8 -L 1 bash job.sh < jobs
}
