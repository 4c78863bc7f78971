#include <algorithm>
#include <memory>
#include "field_full.h"
#ifdef ONE_BUILD
#define noadx_Fp25519 Fp25519
#define nobmi_Fp25519 Fp25519
#endif
int main(int argc, char **argv) {
  static Full<4> f;
  f.libs = {{"native", &Fp25519._1w_full}, {"noadx", &noadx_Fp25519._1w_full}, {"nobmi", &nobmi_Fp25519._1w_full}};
  mpn_copyi((mp_limb_t *)f.p, c25519().p.v->_mp_d, 4); f.a24 = 121666;
  f.V = {0, ~0ull, 1, ~0ull >> 1, ~0ull - 18, 1ull << 63, ~0ull - 37, ~0ull - 1, 0xffffffffull, 19, 38, 18, 37, 0xffffffff00000000ull, ~0ull - 19, 2, 0x5555555555555555ull, 0xaaaaaaaaaaaaaaaaull, ~0ull - 36, 39, 1ull << 32, (1ull << 63) + 1, ~0ull / 38, ~0ull / 38 + 1};
  vf::Check c; c.property = "C01"; c.level = "exploration";
  c.rule = "Every index of every listed space is run on three builds of the code (native, without ADX, without ADX and BMI2) and compared with exact integer arithmetic; cases are distinct operand tuples by construction of the spaces.";
  c.assumptions = {"GMP's mpn layer is the reference", "operands outside the listed spaces are not covered"};
  c.sections = f.sections();
  return vf::run(argc, argv, c);
}
