# two shared objects of the library: the project's own build, whose accesses to
# writable static memory trap, and one that calls the scheduler at every block
NO_LIB=1
H_LIBS="-rdynamic -ldl"
extra_build() {
  S="$R/src/target.c $(ls $R/third_party/*.c | tr '\n' ' ')"
  run gcc $PROJ $INC -shared -Wl,-Bsymbolic,-z,now,-z,relro,-z,separate-code -o "$B/plain.so" $S
  run clang $PROJ -O0 $INC -shared -Wl,-Bsymbolic,-z,now,-z,relro,-z,separate-code -o "$B/plain0.so" $S
  run gcc $PROJ -O1 -fsanitize-coverage=trace-pc $INC -shared -Wl,-Bsymbolic,-z,now,-z,relro,-z,separate-code -o "$B/blocks.so" $S
}
