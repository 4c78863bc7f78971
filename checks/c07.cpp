#include "dh.h"
int main(int argc, char **argv) { return dh_main(argc, argv, "C07", false, true, false); }
