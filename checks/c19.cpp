// C19: hash to curve.  The map on an alphabet of field elements in every
// representative, the field hash, and the two complete pipelines, against the
// mathematical definition (RFC 9380 6.7.1 / appendix D.1 with this library's
// hash_to_field, which is SHA-512(prefix||m) mod the group order).
#include "edpoint.h"
static std::vector<Z> US;
static void alphabet(bool T) {
  const Z &p = c25519().p; std::set<std::string> s; auto add = [&](const Z &z) { Z v = z % p; if (s.insert(v.str()).second) US.push_back(v); };
  long n = T ? 3000 : 400; for (long i = 0; i <= n; i++) { add(Z(i)); add(Z(-i)); }
  for (unsigned k = 0; k < 255; k++) for (long e : {-1, 0, 1}) { add(Z::pow2(k) + Z(e)); add(Z(0) - Z::pow2(k) + Z(e)); }
  for (u64 i = 0; i < (T ? 4000u : 600u); i++) { Bytes b = gen("u", i, 32); add(Z::le(b.data(), 32)); }
  // inputs mapping to exceptional and low-order points, wherever they exist: solve 1+2u^2 = -J/x for chosen x of the Montgomery curve
  std::vector<Z> xs = {Z(0), Z(1), p - Z(1), Z(486662), p - Z(486662), Z(2), Z(9)}; for (auto &a : points()) { Z d = (Z(1) - a.y) % p; if (d != Z(0)) xs.push_back((Z(1) + a.y) * ref::invm(d, p) % p); }
  for (auto &x : xs) for (int side = 0; side < 2; side++) { Z x1 = side ? (p - x + p - Z(486662)) % p : x; if (x1 == Z(0)) continue; Z t = ((p - Z(486662)) * ref::invm(x1, p) - Z(1)) % p; t = t * ref::invm(Z(2), p) % p; Z r; if (ref::sqrtm(r, t, p)) { add(r); add(p - r); } }
  add(c25519().L); add(c25519().L - Z(1));
}
static Aff cleared(const Pt &P) { return aff(ref::pt_mul(c25519(), Z(8), P)); }
int main(int argc, char **argv) {
  vf::Check c; c.property = "C19"; c.level = "exploration"; bool T = vf::thorough(); alphabet(T);
  c.rule = "Every field element of a finite alphabet (small, negative, powers of two, preimages of special points, generic) in every 256-bit representative goes through the compiled map, alone and paired in two lanes; every message of the listed lengths and contents goes through both complete functions. Outputs are compared with the mathematical construction; distinct by construction.";
  c.assumptions = {"the construction's sign and constant conventions are those of RFC 9380's edwards25519 Elligator 2 map; the field hash is the library's own (SHA-512 reduced modulo the group order)"};
  static std::vector<Pt> M; for (auto &u : US) M.push_back(ref::elligator2_ed25519(u));
  u64 n = US.size(); printf("C19: %lu field elements\n", (unsigned long)n);
  c.sections.push_back({"map", "the scalar map on " + std::to_string(n) + " field elements x every representative below 2^256", n, [=](Ctx &x, u64 i) {
    Aff w = aff(M[i]); for (auto &r : reps(US[i])) { PointXYZT_1way_full P; memset(&P, 0xA5, sizeof P); alignas(32) u64 u[4]; put(u, r); Bytes keep((u8 *)u, (u8 *)u + 32); x.about("map u=%s", r.str().c_str()); map_to_curve(&P, u); x.eval(); x.distinct(1);
      Z X = val(P.X), Y = val(P.Y), Zc = val(P.Z), Tt = val(P.T); if (!same(X, Y, Zc, &Tt, w)) x.fail("map", "u=" + r.str()); if (memcmp(u, keep.data(), 32)) x.fail("map-modifies-input", "u=" + r.str()); if (x.want_sample()) x.sample("map u=" + r.str()); } }});
  static std::vector<u64> S; for (u64 i = 0; i < n; i += (T ? 37 : 61)) S.push_back(i); for (u64 i = 0; i < 12; i++) S.push_back(i); for (u64 i = n - 60; i < n; i += (T ? 1 : 4)) S.push_back(i);
  c.sections.push_back({"map-2w", "the two-lane map: every element in each lane next to 2 others, and all pairs of " + std::to_string(S.size()), n + S.size(), [=](Ctx &x, u64 i) {
    auto one = [&](u64 a, u64 b, u64 rep) { alignas(64) __m256i u[16]; inter(u, US[a], US[b], rep); PointXYZT_2way P; x.about("2-way map u=%s,%s", US[a].str().c_str(), US[b].str().c_str()); map_to_curve_2w(&P, u); x.eval(); x.distinct(1); Z X[2], Y[2], Zc[2], Tt[2]; deinter(X[0], X[1], P.X); deinter(Y[0], Y[1], P.Y); deinter(Zc[0], Zc[1], P.Z); deinter(Tt[0], Tt[1], P.T);
      for (int l = 0; l < 2; l++) if (!same(X[l], Y[l], Zc[l], &Tt[l], aff(M[l ? b : a]))) x.fail(l ? "map-2w-lane1" : "map-2w-lane0", "u=" + US[a].str() + "," + US[b].str()); };
    if (i < n) for (u64 q = 0; q < 3; q++) { one(i, (i * 7 + q * 5 + 1) % n, q); one((i * 11 + q * 3 + 2) % n, i, q); } else for (u64 b : S) one(S[i - n], b, (i + b) % 4); }});
  c.sections.push_back({"field-hash", "hash_to_field with every prefix byte, and its two-lane form: lengths 0..300 x contents", 301, [=](Ctx &x, u64 len) {
    for (u64 v = 0; v < NCONTENT + 1; v++) { Bytes m = content(v, len); Bytes keep = m; for (unsigned pf = 0; pf < 256; pf += (len % 16 == 0 || pf < 2) ? 1 : 37) { alignas(32) u64 u[4]; x.about("field hash prefix %u length %lu", pf, len); hash_to_field(u, pf, m.data(), len); x.eval(); x.distinct(1); Z w = ref::h2f(pf, m.data(), len); if (Z::le(u, 32) != w) x.fail("field-hash", "prefix " + std::to_string(pf) + " length " + std::to_string(len) + " content " + std::to_string(v)); }
      alignas(32) u64 u0[4], u1[4]; hash_to_field_2w(u0, u1, m.data(), len); x.eval(); x.distinct(1); if (Z::le(u0, 32) != ref::h2f(0, m.data(), len) || Z::le(u1, 32) != ref::h2f(1, m.data(), len)) x.fail("field-hash-2w", "length " + std::to_string(len) + " content " + std::to_string(v)); if (m != keep) x.fail("modifies-message", "length " + std::to_string(len)); } }});
  auto whole = [](Ctx &x, Bytes m, const std::string &in) {
    const Curve &c = c25519(); Aff w = cleared(ref::pt_add(c, ref::elligator2_ed25519(ref::h2f(0, m.data(), m.size())), ref::elligator2_ed25519(ref::h2f(1, m.data(), m.size()))));
    Point P[2]; memset(P, 0xA5, sizeof P); x.about("hash to curve %s", in.c_str()); h2c25519_x64(&P[0], m.data(), m.size()); h2c25519_avx2(&P[1], m.data(), m.size()); x.eval(2); x.distinct(2);
    for (int k = 0; k < 2; k++) { Z X = val(P[k].X), Y = val(P[k].Y); const char *nm = k ? "avx2" : "x64"; if (X != w.x || Y != w.y) x.fail(std::string("point-") + nm, in); if (!isOnCurve(&P[k])) x.fail(std::string("not-on-curve-") + nm, in); if (!ref::pt_on(c, X, Y)) x.fail(std::string("off-curve-") + nm, in); else if (!ref::pt_eq(c, ref::pt_mul(c, c.L, ref::pt_affine(X, Y)), ref::pt_id())) x.fail(std::string("subgroup-") + nm, in); }
    if (!areEqual(&P[0], &P[1])) x.fail("variants-differ", in); if (x.want_sample()) x.sample("hash " + in); };
  u64 ML = T ? 1100 : 420;
  c.sections.push_back({"messages", "both hash-to-curve functions: every length 0.." + std::to_string(ML) + " x " + std::to_string(T ? 8 : 6) + " contents", (ML + 1) * (T ? 8 : 6), [=](Ctx &x, u64 i) { u64 len = i % (ML + 1), v = i / (ML + 1); whole(x, content(v, len), "length " + std::to_string(len) + " content " + std::to_string(v)); }});
  c.sections.push_back({"short-messages", "all messages of one byte" + std::string(T ? " and of two bytes" : " and 4096 of two bytes"), 256 + (T ? 65536u : 4096u), [=](Ctx &x, u64 i) { Bytes m; if (i < 256) m = {(u8)i}; else { u64 j = (i - 256) * (T ? 1 : 16); m = {(u8)j, (u8)(j >> 8)}; } whole(x, m, hx(m)); }});
  static const u64 NL[] = {1, 8, 16, 31, 32, 33, 63, 64, 65, 111, 112, 127, 128, 129, 200, 256};
  c.sections.push_back({"one-bit-neighbours", "every function on a message right after the same call, from the same buffer, with one bit of the message changed: every bit of messages of 16 lengths, and the first message again", 256, [=](Ctx &x, u64 byte) { alignas(64) static u8 m[320];
    for (u64 len : NL) { if (byte >= len) continue; Bytes a = gen("c19n", len, len); memcpy(m, a.data(), len); Z w0 = ref::h2f(0, m, len), w1 = ref::h2f(1, m, len); Point first[2]; h2c25519_x64(&first[0], m, len); h2c25519_avx2(&first[1], m, len);
      for (u64 b = 0; b < 8; b++) { m[byte] = a[byte] ^ 1 << b; std::string in = "length " + std::to_string(len) + " after the message that differs in bit " + std::to_string(8 * byte + b); x.about("%s", in.c_str()); Z v0 = ref::h2f(0, m, len), v1 = ref::h2f(1, m, len);
        for (int again = 0; again < 2; again++) { if (again) m[byte] = a[byte]; const Z &e0 = again ? w0 : v0, &e1 = again ? w1 : v1; alignas(32) u64 u[4], u1[4]; x.eval(3); x.distinct(1);
          hash_to_field(u, 0, m, len); if (Z::le(u, 32) != e0) x.fail("field-hash", in); hash_to_field(u, 1, m, len); if (Z::le(u, 32) != e1) x.fail("field-hash", in); hash_to_field_2w(u, u1, m, len); if (Z::le(u, 32) != e0 || Z::le(u1, 32) != e1) x.fail("field-hash-2w", in);
          if (b && !again) continue; Point P[2]; h2c25519_x64(&P[0], m, len); h2c25519_avx2(&P[1], m, len); x.eval(2); if (!again) { whole(x, Bytes(m, m + len), in); Aff w = cleared(ref::pt_add(c25519(), ref::elligator2_ed25519(e0), ref::elligator2_ed25519(e1))); for (int k = 0; k < 2; k++) if (val(P[k].X) != w.x || val(P[k].Y) != w.y) x.fail(k ? "point-avx2" : "point-x64", in); }
          else for (int k = 0; k < 2; k++) if (memcmp(P[k].X, first[k].X, 32) || memcmp(P[k].Y, first[k].Y, 32)) x.fail(k ? "point-avx2" : "point-x64", in + ", then the first again"); } } } }});
  c.sections.push_back({"huge", "a message of 2^29+1 bytes" + std::string(T ? " and of 2^32+5 bytes" : "") + " gives the same point in both variants", T ? 2u : 1u, [=](Ctx &x, u64 i) {
    u64 len = i ? (1ull << 32) + 5 : (1ull << 29) + 1; Huge h(len, 6); if (!h.p) { x.count("huge-skipped"); return; } Point P[2]; x.about("message of %lu bytes", len); h2c25519_x64(&P[0], h.p, len); h2c25519_avx2(&P[1], h.p, len); x.eval(2); x.distinct(1); if (!areEqual(&P[0], &P[1])) x.fail("variants-differ", "huge message"); Aff w = cleared(ref::pt_add(c25519(), ref::elligator2_ed25519(ref::h2f(0, h.p, len)), ref::elligator2_ed25519(ref::h2f(1, h.p, len)))); if (val(P[0].X) != w.x || val(P[0].Y) != w.y) x.fail("point-x64", "huge message"); }});
  c.hang_s = 300;
  return vf::run(argc, argv, c);
}
