#include "field_vec.h"
int main(int argc, char **argv) { return vec_main<false>(argc, argv, "C02"); }
