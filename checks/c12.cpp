#include "eddsa_ver.h"
int main(int argc, char **argv) { return ver_main(argc, argv, "C12", false); }
