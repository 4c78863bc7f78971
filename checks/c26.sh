# every configuration of the library as a shared object, and the harnesses of
# the functional checks linked against whichever of them is on the library path
NO_LIB=1
. "$V/checks/configs.inc"
C26_SUBS="c01 c02 c03 c04 c05 c06 c07 c08 c09 c10 c11 c12 c13 c14 c15 c16 c17 c18 c19 c20"
extra_build() { ( cd "$B"; conf_all all; conf_wp; for s in $C26_SUBS; do echo "sub $s" >> jobs; done; conf_run ) & pids+=($!); }
extra_link() {
  for s in $C26_SUBS; do g++ -o "$B/sub/$s" "$B/sub/$s.o" "$B/vf.o" "$B/ref.o" -L"$B/cfg/gcc-O3-native" -lfaz -lgmp -lpthread & done; wait
}
