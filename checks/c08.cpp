#include "dh.h"
int main(int argc, char **argv) { return dh_main(argc, argv, "C08", false, false, true); }
