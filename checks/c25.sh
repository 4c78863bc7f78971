# the system calls of the generator's object, and of no other, go to the fault injector
extra_link() {
  : > "$B/io.map"
  for s in open open64 openat openat64 __open_2 __open64_2 __openat_2 __openat64_2 read __read_chk readv pread pread64 close fopen fopen64 getrandom getentropy syscall abort exit _exit _Exit quick_exit __assert_fail printf __printf_chk puts putchar fprintf __fprintf_chk fwrite fputs perror; do echo "$s vf_$s" >> "$B/io.map"; done
  objcopy --redefine-syms="$B/io.map" "$B/tp_prng.o"
}
