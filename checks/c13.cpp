#include "eddsa_gen.h"
int main(int argc, char **argv) { return ed_main(argc, argv, "C13", true); }
