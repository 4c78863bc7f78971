# builds of the library as shared objects, loaded at run time
NO_LIB=1
H_LIBS="-rdynamic -ldl"
. "$V/checks/configs.inc"
extra_build() { ( cd "$B"; conf_all all; if [ "$VERIF_TIER" != thorough ]; then for f in configs jobs; do grep -E -- '-O[03]-(native|noadx|nobmi)( |$)' $f > $f.t; mv $f.t $f; done; fi; conf_run ) & pids+=($!); }
