#include "dh.h"
int main(int argc, char **argv) { return dh_main(argc, argv, "C09", true, true, true); }
