#include <algorithm>
#include <memory>
#include "field_full.h"
#ifdef ONE_BUILD
#define noadx_Fp448 Fp448
#define nobmi_Fp448 Fp448
#endif
int main(int argc, char **argv) {
  static Full<7> f;
  f.libs = {{"native", &Fp448._1w_full}, {"noadx", &noadx_Fp448._1w_full}, {"nobmi", &nobmi_Fp448._1w_full}};
  mpn_copyi((mp_limb_t *)f.p, c448().p.v->_mp_d, 7); f.a24 = 39082;
  f.V = {0, ~0ull, 1, 0xfffffffeffffffffull, 1ull << 32, 1ull << 63, 0xffffffff00000000ull, ~0ull - 1, 0xffffffffull, ~0ull >> 1};
  vf::Check c; c.property = "C03"; c.level = "exploration";
  c.rule = "Every index of every listed space is run on three builds of the code (native, without ADX, without ADX and BMI2) and compared with exact integer arithmetic; cases are distinct operand tuples by construction of the spaces.";
  c.assumptions = {"GMP's mpn layer is the reference", "operands outside the listed spaces are not covered"};
  c.sections = f.sections();
  return vf::run(argc, argv, c);
}
