// edwards25519 points in the library's representations (C19, C20).
#pragma once
#include "hash.h"
#include "faz_hash_avx2.h"
using namespace faz::hash; using namespace faz::fp;
extern "C" {
void _1way_doubling_1w_full(PointXYZT_1way_full *P) __attribute__((weak));
void _2way_doubling(PointXYZT_2way *P, const int compute_T) __attribute__((weak));
void modular_reduction_ed25519(uint8_t *a) __attribute__((weak));
}
struct alignas(64) E1 { u64 w[16]; operator u64 *() { return w; } };
inline Z val(const u64 *w) { return Z::le(w, 32) % c25519().p; }
inline void put(u64 *w, const Z &v) { Bytes b = le(v, 32); memcpy(w, b.data(), 32); }
// the representatives of v below 2^256: v, v+p, v+2p (when they fit)
inline std::vector<Z> reps(const Z &v) { std::vector<Z> r; for (Z t = v; t < Z::pow2(256); t = t + c25519().p) r.push_back(t); return r; }
inline void put_rep(u64 *w, const Z &v, u64 k) { auto r = reps(v); put(w, r[k % r.size()]); }
struct Aff { Z x, y; std::string n; };
inline const std::vector<Aff> &points() {   // named alphabet of curve points
  static std::vector<Aff> v; if (!v.empty()) return v; const Curve &c = c25519(); const Z &p = c.p;
  auto add = [&](const Pt &P, const std::string &n) { Aff a; pt_aff(c, P, a.x, a.y); a.n = n; v.push_back(a); };
  // a point of order 8: y-candidates until L*P has exact order 8
  Pt T8 = ref::pt_id(); for (u64 i = 2;; i++) { u8 e[32] = {0}; e[0] = i; Pt P; if (!ref::pt_dec(c, e, P)) continue; Pt Q = ref::pt_mul(c, c.L, P); if (!ref::pt_eq(c, ref::pt_mul(c, Z(4), Q), ref::pt_id())) { T8 = Q; break; } }
  for (int i = 0; i < 8; i++) add(ref::pt_mul(c, Z(i), T8), "T" + std::to_string(i));
  std::vector<std::pair<Z, std::string>> ks = {{Z(1), "B"}, {Z(2), "2B"}, {Z(3), "3B"}, {Z(8), "8B"}, {c.L - Z(1), "-B"}, {c.L - Z(2), "-2B"}, {Z::pow2(251), "2^251B"}};
  for (u64 i = 0; i < 4; i++) ks.push_back({Z::le(gen("pt", i, 32).data(), 32) % c.L, "g" + std::to_string(i)});
  for (auto &k : ks) add(ref::pt_mulB(c, k.first), k.second);
  for (int t : {1, 2, 4, 7}) for (int i : {0, 7, 8}) add(ref::pt_add(c, ref::pt_mulB(c, ks[i].first), ref::pt_mul(c, Z(t), T8)), ks[i].second + "+T" + std::to_string(t));
  // points with tiny or huge coordinates
  for (u64 i = 0, n = 0; n < 6; i++) for (int s = 0; s < 2; s++) { Z y = s ? p - Z(2 + i) : Z(2 + i); Bytes e = le(y, 32); Pt P; if (ref::pt_dec(c, e.data(), P)) { add(P, "y=" + y.str()); n++; } }
  return v;
}
inline std::vector<Z> zalpha() { const Z &p = c25519().p; std::vector<Z> v = {Z(1), p - Z(1), Z(2), Z(18), Z(19), Z::pow2(254), p - Z(2), Z::pow2(64) - Z(1), Z::pow2(128)}; for (u64 i = 0; i < 4; i++) { Bytes b = gen("Z", i, 32); v.push_back(Z::le(b.data(), 32) % p); } return v; }
// a point with denominator z; rep chooses representatives of each coordinate
inline void put_pt(PointXYZT_1way_full &P, const Aff &a, const Z &z, u64 rep) { const Z &p = c25519().p; put_rep(P.X, a.x * z % p, rep); put_rep(P.Y, a.y * z % p, rep / 3); put_rep(P.Z, z, rep / 9); put_rep(P.T, a.x * a.y % p * z % p, rep / 27); }
inline bool same(const Z &X, const Z &Y, const Z &Zc, const Z *T, const Aff &w) { const Z &p = c25519().p; if (Zc == Z(0)) return false; if (X != w.x * Zc % p || Y != w.y * Zc % p) return false; return !T || (*T * Zc) % p == X * Y % p; }
inline Aff aff(const Pt &P) { Aff a; pt_aff(c25519(), P, a.x, a.y); return a; }
// two lanes
inline void inter(__m256i *c, const Z &a, const Z &b, u64 rep = 0) { E1 u, v; u8 x[32], y[32]; auto ra = reps(a), rb = reps(b); auto cut = [&](std::vector<Z> &r, u64 k) { while (r.size() > 1 && r.back() >= Z::pow2(255)) r.pop_back(); return r[k % r.size()]; }; cut(ra, rep).le_out(x, 32); cut(rb, rep / 2).le_out(y, 32); alignas(64) u8 bx[64], by[64]; memcpy(bx, x, 32); memcpy(by, y, 32); Fp25519._1w_red.arith.misc.unser(u, bx); Fp25519._1w_red.arith.misc.unser(v, by); Fp25519._2w_red.arithex.inter(c, u, v); }
inline void deinter(Z &a, Z &b, __m256i *c) { E1 u, v; alignas(64) u8 s[64], t[64]; memset(&u, 0, sizeof u); memset(&v, 0, sizeof v); Fp25519._2w_red.arithex.deinter(u, v, c); Fp25519._1w_red.arith.misc.ser(s, u); Fp25519._1w_red.arith.misc.ser(t, v); a = Z::le(s, 32) % c25519().p; b = Z::le(t, 32) % c25519().p; }
