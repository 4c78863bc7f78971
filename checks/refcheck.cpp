// Validates the reference model: known-answer vectors from RFC 7748, RFC 8032,
// and Python's hashlib (values passed in by refcheck.py on stdin).
#include <cstdio>
#include <iostream>
#include <sstream>
#include "ref.h"
using namespace ref;
static std::vector<u8> unhex(const std::string &s) { std::vector<u8> r; if (s == "-") return r; for (size_t i = 0; i + 1 < s.size(); i += 2) r.push_back((u8)strtol(s.substr(i, 2).c_str(), 0, 16)); return r; }
static std::string hex(const u8 *p, size_t n) { std::string s; char b[3]; for (size_t i = 0; i < n; i++) { snprintf(b, 3, "%02x", p[i]); s += b; } return s; }
int main() {
  std::string line; int n = 0, bad = 0;
  while (std::getline(std::cin, line)) {
    std::istringstream is(line); std::vector<std::string> f; std::string t; while (is >> t) f.push_back(t);
    if (f.empty()) continue;
    u8 out[300]; std::string got, want = f.back();
    if (f[0] == "sha512") { auto m = unhex(f[1]); sha512(m.data(), m.size(), out); got = hex(out, 64); }
    else if (f[0] == "sha384") { auto m = unhex(f[1]); Sha512 s(true); s.add(m.data(), m.size()); s.fin(out); got = hex(out, 48); }
    else if (f[0] == "sha512bits") { auto m = unhex(f[1]); unsigned nb = atoi(f[2].c_str()); Sha512 s; s.add(m.data(), m.size() - 1); s.fin(out, m.back(), nb); got = hex(out, 64); }
    else if (f[0] == "shake128" || f[0] == "shake256") { auto m = unhex(f[1]); int d = atoi(f[2].c_str()); (f[0] == "shake128" ? shake128 : shake256)(m.data(), m.size(), out, d); got = hex(out, d); }
    else if (f[0] == "sha3") { auto m = unhex(f[2]); sha3(atoi(f[1].c_str()), m.data(), m.size(), out); got = hex(out, atoi(f[1].c_str()) / 8); }
    else if (f[0] == "x25519" || f[0] == "x448") { auto k = unhex(f[1]), u = unhex(f[2]); auto &c = f[0] == "x448" ? c448() : c25519(); xdh(c, k.data(), u.data(), out); got = hex(out, c.bytes); }
    else if (f[0] == "base") { for (int q = 0; q < 2; q++) { auto &c = q ? c448() : c25519(); auto k = unhex(f[1]); k.resize(56); u8 nine[56] = {(u8)(q ? 5 : 9)}, o2[56]; xdh(c, k.data(), nine, out); xdh_base(c, k.data(), o2); got = hex(out, c.bytes) == hex(o2, c.bytes) ? "ok" : "differ"; if (got != want) break; } }
    else if (f[0] == "eddsa") {   // eddsa curve mode sk pk ctx msg sig
      auto &c = f[1] == "448" ? c448() : c25519(); Mode m = (Mode)atoi(f[2].c_str());
      auto sk = unhex(f[3]), ctx = unhex(f[5]), msg = unhex(f[6]);
      EdKey k = ed_key(c, sk.data()); if (hex(k.pk, c.kbytes) != f[4]) { got = "pk " + hex(k.pk, c.kbytes); }
      else { ed_sign(c, m, k, k.pk, ctx.data(), ctx.size(), msg.data(), msg.size(), out); got = hex(out, 2 * c.kbytes);
        if (ed_verify(c, m, k.pk, ctx.data(), ctx.size(), msg.data(), msg.size(), out) != 2) got += "!verify";
        out[3] ^= 1; if (ed_verify(c, m, k.pk, ctx.data(), ctx.size(), msg.data(), msg.size(), out) == 2) got += "!accept"; }
    } else continue;
    n++;
    if (got != want) { bad++; printf("MISMATCH %s\n got %s\n", line.substr(0, 300).c_str(), got.c_str()); }
  }
  // group law facts: base points on curve, order L, elligator lands on the curve and its map is not constant
  for (int q = 0; q < 2; q++) { auto &c = q ? c448() : c25519(); if (!pt_on(c, c.Bx, c.By) || !pt_eq(c, pt_mul(c, c.L, pt_affine(c.Bx, c.By)), pt_id())) { bad++; puts("base point"); } n += 2; }
  for (int q = 0; q < 2; q++) { auto &c = q ? c448() : c25519(); Z k(7); for (int i = 0; i < 60; i++) { k = i < 20 ? Z::pow2(23 * i) - Z(i % 3 - 1) : k * k % (c.L * Z(i)) + Z(i); if (!pt_eq(c, pt_mulB(c, k), pt_mul(c, k, pt_affine(c.Bx, c.By)))) { bad++; puts("window multiplication"); } n++; }
    for (int i = 0; i < 6; i++) { u8 a[56], b[56], u[56], o[56], o2[56]; for (int j = 0; j < 56; j++) { a[j] = 37 * i + 11 * j * j + 5; b[j] = 91 * i + 7 * j * j * j + 1; } xdh_base(c, b, u); xdh(c, a, u, o); xdh_exchange(c, a, b, o2); if (memcmp(o, o2, c.bytes)) { bad++; puts("exchange"); } n++; } }
  for (int i = 0; i < 40; i++) { Z x, y; pt_aff(c25519(), elligator2_ed25519(Z(i)), x, y); if (!pt_on(c25519(), x, y)) { bad++; puts("elligator"); } n++; }
  printf("refcheck: %d facts, %d wrong\n", n, bad);
  return bad ? 1 : 0;
}
