NO_LIB=1
. "$V/checks/configs.inc"
extra_build() { ( cd "$B"; conf_all all; conf_run ) & pids+=($!); }
H_LIBS=-ldl
