#include "field_vec.h"
int main(int argc, char **argv) { return vec_main<true>(argc, argv, "C04"); }
