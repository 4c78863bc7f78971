// C20: exported edwards25519 point operations, predicates and scalar reduction.
#include "edpoint.h"
int main(int argc, char **argv) {
  vf::Check c; c.property = "C20"; c.level = "exploration"; bool T = vf::thorough(); const Curve &cv = c25519(); const Z &p = cv.p;
  auto &A = points(); static std::vector<Z> ZA = zalpha(); u64 na = A.size(), nz = ZA.size();
  c.rule = "Every pair of points of a named alphabet (torsion, multiples of the base point, mixed order, extreme coordinates) x denominators x coordinate representatives is executed on the compiled functions and compared with the affine group law; predicates on all pairs of points and on off-curve neighbours; the reduction on a product alphabet of 64-bit words and around multiples of the moduli it is built from. Distinct by construction.";
  c.assumptions = {"points handed to addition and doubling are on the curve and extended coordinates satisfy XY=ZT"};
  static std::vector<std::vector<Aff>> SUM(na, std::vector<Aff>(na)); for (u64 i = 0; i < na; i++) for (u64 j = 0; j < na; j++) SUM[i][j] = aff(ref::pt_add(cv, ref::pt_affine(A[i].x, A[i].y), ref::pt_affine(A[j].x, A[j].y)));
  u64 ZQ = T ? nz : 8;
  c.sections.push_back({"addition", "all ordered pairs of " + std::to_string(na) + " points x " + std::to_string(ZQ) + "^2 denominators x representatives, result in a third point or over either operand", na * na, [=](Ctx &x, u64 i) {
    auto &A = points(); Dec d(i); u64 a = d(na), b = d(na); for (u64 za = 0; za < ZQ; za++) for (u64 zb = 0; zb < ZQ; zb++) for (u64 rep = 0; rep < (T ? 27u : 6u); rep++) for (int al = 0; al < 4; al++) { if (al == 3 && a != b) continue; PointXYZT_1way_full Q, P, R; put_pt(Q, A[a], ZA[za * nz / ZQ], rep * 5 + za); put_pt(P, A[b], ZA[zb * nz / ZQ], rep * 7 + zb + 1); memset(&R, 0xA5, sizeof R); if (al == 3) P = Q;
      PointXYZT_1way_full q0 = Q, p0 = P; PointXYZT_1way_full *o = al == 0 ? &R : al == 1 ? &Q : al == 2 ? &P : &R; x.about("%s + %s z %lu %lu rep %lu alias %d", A[a].n.c_str(), A[b].n.c_str(), za, zb, rep, al); _1way_fulladd_1w_full(o, &Q, al == 3 ? &Q : &P); x.eval(); x.distinct(1);
      Z t = val(o->T); if (!same(val(o->X), val(o->Y), val(o->Z), &t, SUM[a][b])) x.fail("addition", A[a].n + " + " + A[b].n + " denominators " + std::to_string(za) + "," + std::to_string(zb) + " rep " + std::to_string(rep) + " alias " + std::to_string(al)); if ((o != &Q && memcmp(&Q, &q0, sizeof Q)) || (o != &P && memcmp(&P, &p0, sizeof P))) x.fail("addition-modifies-operand", A[a].n + " + " + A[b].n); if (x.want_sample()) x.sample(A[a].n + " + " + A[b].n); } }});
  c.sections.push_back({"doubling", "every point x every denominator x 81 representatives, repeated 1..4 times", na * nz, [=](Ctx &x, u64 i) {
    if (!_1way_doubling_1w_full) { x.count("absent"); return; } auto &A = points(); Dec d(i); u64 a = d(na), z = d(nz); for (u64 rep = 0; rep < 81; rep += (T ? 1 : 2)) { PointXYZT_1way_full P; put_pt(P, A[a], ZA[z], rep); Pt w = ref::pt_affine(A[a].x, A[a].y); for (int k = 1; k <= (rep < 2 ? 4 : 1); k++) { x.about("double %s x%d z %lu rep %lu", A[a].n.c_str(), k, z, rep); _1way_doubling_1w_full(&P); x.eval(); x.distinct(1); w = ref::pt_add(c25519(), w, w); Z t = val(P.T); if (!same(val(P.X), val(P.Y), val(P.Z), &t, aff(w))) { x.fail("doubling", A[a].n + " times " + std::to_string(k) + " denominator " + ZA[z].str() + " rep " + std::to_string(rep)); break; } } } }});
  c.sections.push_back({"add-double-sequences", "all sequences of <= 6 double/add steps (double-and-add with a fixed addend) from every point", na * 4, [=](Ctx &x, u64 i) {
    if (!_1way_doubling_1w_full) { x.count("absent"); return; } auto &A = points(); Dec d(i); u64 a = d(na), b = (a * 5 + d(4) * 3 + 1) % na; for (unsigned seq = 0; seq < 64; seq++) { PointXYZT_1way_full P, Q; put_pt(P, A[a], ZA[a % nz], a); put_pt(Q, A[b], ZA[b % nz], b); Pt w = ref::pt_affine(A[a].x, A[a].y), v = ref::pt_affine(A[b].x, A[b].y); for (int k = 0; k < 6; k++) if (seq >> k & 1) { _1way_fulladd_1w_full(&P, &P, &Q); w = ref::pt_add(c25519(), w, v); } else { _1way_doubling_1w_full(&P); w = ref::pt_add(c25519(), w, w); } x.eval(6); x.distinct(1); Z t = val(P.T); if (!same(val(P.X), val(P.Y), val(P.Z), &t, aff(w))) x.fail("sequence", A[a].n + "," + A[b].n + " seq " + std::to_string(seq)); } }});
  // long chains: the coordinates of one step are the operands of the next, so they run through generic internal values
  u64 nch = T ? 60000 : 2400, chl = 256;
  c.sections.push_back({"chains", std::to_string(nch) + " chains of " + std::to_string(chl) + " additions and doublings, each step on the coordinates the previous ones left; the addend changes along the chain", nch, [=](Ctx &x, u64 i) {
    if (!_1way_doubling_1w_full) { x.count("absent"); return; } auto &A = points(); const Z &p = c25519().p; u64 a = i % na, b = i / na % na; PointXYZT_1way_full P, Q; put_pt(P, A[a], ZA[i % nz], i); put_pt(Q, A[b], ZA[i / 7 % nz], i / 5); Pt w = ref::pt_affine(A[a].x, A[a].y), v = ref::pt_affine(A[b].x, A[b].y); Bytes h = gen("chain", i, chl / 8);
    for (u64 k = 0; k < chl; k++) { bool add = h[k / 8] >> k % 8 & 1; x.about("chain %lu step %lu", i, k); if (add) { if (k % 11 == 10) { _1way_fulladd_1w_full(&Q, &Q, &P); v = ref::pt_add(c25519(), v, w); x.eval(); } _1way_fulladd_1w_full(&P, &P, &Q); w = ref::pt_add(c25519(), w, v); } else { _1way_doubling_1w_full(&P); w = ref::pt_add(c25519(), w, w); } x.eval(); x.distinct(1);
      Z X = val(P.X), Y = val(P.Y), Zc = val(P.Z), t = val(P.T); if (Zc == Z(0) || X * w.Zc % p != (w.X % p + p) % p * Zc % p || Y * w.Zc % p != (w.Y % p + p) % p * Zc % p || t * Zc % p != X * Y % p) { x.fail(add ? "addition" : "doubling", "chain " + std::to_string(i) + " from " + A[a].n + ", " + A[b].n + " step " + std::to_string(k)); break; } } }});
  c.sections.push_back({"doubling-2w", "two-lane doubling: all ordered pairs of points x denominators, sequences of 1..4 with every choice of keeping T in between", na * na, [=](Ctx &x, u64 i) {
    if (!_2way_doubling) { x.count("absent"); return; } auto &A = points(); Dec d(i); u64 a[2] = {d(na), d(na)}; for (u64 q = 0; q < (T ? 6u : 2u); q++) { PointXYZT_2way P; Z z[2] = {ZA[(i + q) % nz], ZA[(i / na + 3 * q) % nz]}; const Z &p = c25519().p; auto &a0 = A[a[0]], &a1 = A[a[1]];
      inter(P.X, a0.x * z[0] % p, a1.x * z[1] % p, q); inter(P.Y, a0.y * z[0] % p, a1.y * z[1] % p, q + 1); inter(P.Z, z[0], z[1], q); inter(P.T, a0.x * a0.y % p * z[0] % p, a1.x * a1.y % p * z[1] % p, q); Pt w[2] = {ref::pt_affine(a0.x, a0.y), ref::pt_affine(a1.x, a1.y)}; unsigned pat = (i + q) % 8;
      for (int k = 0; k < 4; k++) { bool keep = k == 3 || (pat >> k & 1); x.about("2-way double %s|%s step %d", a0.n.c_str(), a1.n.c_str(), k); _2way_doubling(&P, keep); x.eval(); x.distinct(1); Z X[2], Y[2], Zc[2], Tt[2]; deinter(X[0], X[1], P.X); deinter(Y[0], Y[1], P.Y); deinter(Zc[0], Zc[1], P.Z); if (keep) deinter(Tt[0], Tt[1], P.T);
        for (int l = 0; l < 2; l++) { w[l] = ref::pt_add(c25519(), w[l], w[l]); if (!same(X[l], Y[l], Zc[l], keep ? &Tt[l] : nullptr, aff(w[l]))) { x.fail(l ? "doubling-2w-lane1" : "doubling-2w-lane0", a0.n + "|" + a1.n + " step " + std::to_string(k) + " q " + std::to_string(q)); k = 4; break; } } } } }});
  c.sections.push_back({"is-on-curve", "membership on the points in every representative, and on neighbours: each coordinate +-1, negated, swapped, zeroed, multiplied by sqrt(-1), taken from another point", na, [=](Ctx &x, u64 a) {
    auto &A = points(); const Z &p = c25519().p; Z im; ref::sqrtm(im, p - Z(1), p); std::vector<std::pair<Z, Z>> v; Z X = A[a].x, Y = A[a].y; v.push_back({X, Y}); for (long e : {-1, 1}) { v.push_back({X + Z(e), Y}); v.push_back({X, Y + Z(e)}); } v.push_back({p - X, Y}); v.push_back({X, p - Y}); v.push_back({Y, X}); v.push_back({Z(0), Y}); v.push_back({X, Z(0)}); v.push_back({X * im, Y}); v.push_back({X, Y * im}); v.push_back({X * im, Y * im}); v.push_back({Y * im, X}); for (auto &b : A) { v.push_back({X, b.y}); v.push_back({b.x, Y}); v.push_back({X + b.x, Y}); }
    for (unsigned bit = 0; bit < 255; bit++) { v.push_back({X + Z::pow2(bit), Y}); v.push_back({X, Y + Z::pow2(bit)}); }
    for (auto &q : v) { Z x0 = q.first % p, y0 = q.second % p; bool want = pt_on(c25519(), x0, y0); for (auto &rx : reps(x0)) for (auto &ry : reps(y0)) { Point P; put(P.X, rx); put(P.Y, ry); x.about("isOnCurve %s %s", rx.str().c_str(), ry.str().c_str()); int r = isOnCurve(&P); x.eval(); x.distinct(1); x.count(want ? "members" : "non-members"); if ((r != 0) != want) x.fail(want ? "member-refused" : "non-member-accepted", rx.str() + "," + ry.str()); } } }});
  c.sections.push_back({"are-equal", "equality of all ordered pairs of points in every pair of representatives, and of points differing in one coordinate or one bit", na * na, [=](Ctx &x, u64 i) {
    auto &A = points(); const Z &p = c25519().p; Dec d(i); u64 a = d(na), b = d(na); std::vector<std::pair<Z, Z>> v = {{A[b].x, A[b].y}, {A[a].x, A[b].y}, {A[b].x, A[a].y}, {p - A[a].x, A[a].y}, {A[a].x, p - A[a].y}}; if (a == b) for (unsigned bit = 0; bit < 255; bit++) { v.push_back({A[a].x + Z::pow2(bit), A[a].y}); v.push_back({A[a].x, A[a].y + Z::pow2(bit)}); }
    for (auto &q : v) { Z x0 = q.first % p, y0 = q.second % p; bool want = x0 == A[a].x && y0 == A[a].y; for (auto &r1 : reps(A[a].x)) for (auto &r2 : reps(A[a].y)) for (auto &r3 : reps(x0)) for (auto &r4 : reps(y0)) { Point P, Q; put(P.X, r1); put(P.Y, r2); put(Q.X, r3); put(Q.Y, r4); x.about("areEqual"); int r = areEqual(&P, &Q); x.eval(); x.distinct(1); if ((r != 0) != want) x.fail(want ? "equal-refused" : "different-accepted", A[a].n + " vs " + A[b].n + " " + r1.str() + "," + r2.str() + " / " + r3.str() + "," + r4.str()); } } }});
  // scalar reduction
  auto red = [](Ctx &x, const Z &v, const char *what) { alignas(64) u8 b[64]; v.le_out(b, 64); x.about("reduction %s", v.str().c_str()); modular_reduction_ed25519(b); x.eval(); Z r = Z::le(b, 32); if (r >= c25519().L || r != v % c25519().L) x.fail(std::string("reduction-") + what, v.str() + " -> " + r.str()); };
  if (modular_reduction_ed25519) {
    static const u64 WV[] = {0, 1, 1ull << 60, ~0ull, 0x5812631a5cf5d3edull, 1ull << 63, 0x14def9dea2f79cd6ull, 0xfffffffffffffffe, (1ull << 60) - 1, 0xa7ed9ce5a30a2c13ull, 0xeb2106215d086329ull, 0xf000000000000000ull, 2}; u64 nw = T ? 13 : 8;
    c.sections.push_back({"reduction-words", "all 512-bit numbers whose eight words come from " + std::to_string(nw) + " values", (u64)(nw * nw * nw * nw), [=](Ctx &x, u64 i) { Dec d(i); u64 w[8]; for (int k = 7; k >= 4; k--) w[k] = WV[d(nw)]; for (u64 j = 0; j < nw * nw * nw * nw; j++) { Dec e(j); for (int k = 3; k >= 0; k--) w[k] = WV[e(nw)]; alignas(64) u64 b[8]; memcpy(b, w, 64); modular_reduction_ed25519((u8 *)b); x.eval(); 
      static mpz_t t, L; static bool init = false; if (!init) { mpz_init2(t, 600); mpz_init_set(L, c25519().L.v); init = true; } mpz_import(t, 64, -1, 1, 0, 0, w); mpz_mod(t, t, L); u64 want[4] = {0}; for (size_t k = 0; k < mpz_size(t); k++) want[k] = mpz_getlimbn(t, k); if (memcmp(b, want, 32)) x.fail("reduction-words", hex(w, 64)); } x.distinct(nw * nw * nw * nw); }});
    static std::vector<Z> base; { auto &L = cv.L; for (unsigned e : {252, 253, 254, 255, 256, 258, 260, 320, 384, 385, 386, 448, 508, 509, 510, 511}) { base.push_back(Z::pow2(e)); base.push_back(Z::pow2(e) % L); for (u64 k = 1; k < 70; k += (e < 260 ? 1 : 9)) { base.push_back(Z::pow2(e) * Z(k)); base.push_back(L * Z(k) + Z::pow2(e)); } } for (u64 k = 0; k < 300; k++) { base.push_back(L * Z(k)); base.push_back(L * Z(k) * Z::pow2(253)); base.push_back(Z::pow2(252) * Z(k)); base.push_back(L * Z(16) * Z::pow2(244) * Z(k)); } for (u64 k = 0; k < 260; k++) base.push_back(((Z::pow2(512) - Z(1)) - (Z::pow2(k)))); Z q; mpz_fdiv_q(q.v, Z::pow2(512).v, L.v); for (long k = 0; k < 40; k++) base.push_back((q - Z(k)) * L);
      for (u64 k = 0; k < 64; k++) base.push_back(Z::pow2(252) * Z(k) + Z::dec("27742317777372353535851937790883648493") * Z(k)); }
    c.sections.push_back({"reduction-edges", std::to_string(base.size()) + " boundary values (multiples of the order, of 2^252, of 2^256, the largest ones) with every offset in -40..40 and +-2^k", base.size(), [=](Ctx &x, u64 i) { auto go = [&](const Z &v) { if (v < Z(0) || v >= Z::pow2(512)) return; red(x, v, "edges"); x.distinct(1); }; for (long e = -40; e <= 40; e++) go(base[i] + Z(e)); for (unsigned k = 6; k < 512; k += (T ? 1 : 3)) { go(base[i] + Z::pow2(k)); go(base[i] - Z::pow2(k)); } if (x.want_sample()) x.sample("reduce values around " + base[i].str()); }});
    c.sections.push_back({"reduction-generic", "fixed generic 512-bit numbers of every bit length", 512 * (T ? 60000u : 2000u), [=](Ctx &x, u64 i) { Bytes b = gen("red", i, 64); Z v = Z::le(b.data(), 64); mpz_fdiv_r_2exp(v.v, v.v, i % 512 + 1); red(x, v, "generic"); x.distinct(1); }});
  }
  (void)p; return vf::run(argc, argv, c);
}
