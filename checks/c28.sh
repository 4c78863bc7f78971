# the processor is replaced by a model: each cpuid (and xgetbv) instruction of
# the compiled source becomes a call to the emulator in checks/c28.cpp
extra_build() {
  printf '%s\n' '#include "cpu_caps.c"' 'int vp_has(int i) { switch (i) { case 0: return cpu_has(CMOV); case 1: return cpu_has(SSE); case 2: return cpu_has(SSE2); case 3: return cpu_has(SSE3); case 4: return cpu_has(SSSE3); case 5: return cpu_has(SSE4_1); case 6: return cpu_has(SSE4_2); case 7: return cpu_has(AVX); case 8: return cpu_has(AVX2); case 9: return cpu_has(BMI); case 10: return cpu_has(BMI2); default: return cpu_has(ADX); } }' > "$B/caps_has.c"
  rm -f "$B/tp_cpu_caps.o" "$B"/caps.*
  if ! $CC $FLAGS $INC -I"$R/third_party" -mno-red-zone -S "$B/caps_has.c" -o "$B/caps.raw.s" 2>/dev/null; then
    $CC $FLAGS $INC -mno-red-zone -S "$R/third_party/cpu_caps.c" -o "$B/caps.raw.s"
    printf 'int vp_has(int i) { (void)i; return -1; }\n' > "$B/caps.stub.c"; $CC -c "$B/caps.stub.c" -o "$B/caps.stub.o"; EXTRA_OBJS="$EXTRA_OBJS $B/caps.stub.o"
  fi
  sed -E '/^[[:space:]]*\./!{s/\bcpuid\b/call vp_cpuid/g; s/\bxgetbv\b/call vp_xgetbv/g}' "$B/caps.raw.s" > "$B/caps.s"
  gcc -c "$B/caps.s" -o "$B/caps.o"; EXTRA_OBJS="$EXTRA_OBJS $B/caps.o"
}
extra_link() { rm -f "$B/tp_cpu_caps.o"; }
