extra_build() {
  variant noadx gcc -mno-adx
  variant nobmi gcc -mno-adx -mno-bmi2
}
