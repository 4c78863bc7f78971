// Full-radix field arithmetic: harness shared by the two fields.
#pragma once
#include <array>
#include <functional>
#include "lib.h"
using namespace faz::fp;
extern "C" { extern const PrimeField noadx_Fp25519, nobmi_Fp25519, noadx_Fp448, nobmi_Fp448; }

template <int N> struct Full {
  typedef std::array<u64, N> E;
  typedef std::array<u64, 2 * N> E2;
  struct Lib { const char *name; const Fp_1w_fullradix *f; };
  std::vector<Lib> libs;
  u64 p[N], a24;
  std::vector<u64> V;                   // limb alphabet
  bool F448 = N == 7;

  static std::string h(const u64 *a, int n) { Bytes b(8 * n); memcpy(b.data(), a, 8 * n); std::reverse(b.begin(), b.end()); return hx(b); }
  // r = a mod p, a of n >= N limbs
  void modp(u64 *r, const u64 *a, int n) const { u64 q[4 * N]; mpn_tdiv_qr((mp_limb_t *)q, (mp_limb_t *)r, 0, (const mp_limb_t *)a, n, (const mp_limb_t *)p, N); }
  bool congr(const u64 *got, const u64 *want, int n) const { u64 x[N], y[N]; modp(x, got, N); modp(y, want, n); return !memcmp(x, y, 8 * N); }
  static mp_limb_t *L(u64 *a) { return (mp_limb_t *)a; }
  static const mp_limb_t *L(const u64 *a) { return (const mp_limb_t *)a; }

  struct alignas(64) Slot { u64 v[4 * N + 8]; };

  void bad(Ctx &x, const Lib &l, const char *op, const char *alias, const u64 *a, const u64 *b, const u64 *got, int n) const {
    x.fail(std::string(op) + "-" + l.name + (*alias ? std::string("-") + alias : ""), std::string(op) + " " + alias + " a=" + h(a, n) + (b ? " b=" + h(b, n) : "") + " -> " + h(got, N));
  }
  // every two-operand operation on one pair of operands
  void pair(Ctx &x, const Lib &l, const E &a, const E &b) const {
    Slot A, B, C; u64 w[2 * N + 1];
    memcpy(A.v, a.data(), 8 * N); memcpy(B.v, b.data(), 8 * N);
    C.v[N] = 0x5a5a; C.v[2 * N] = 0xa5a5;
    l.f->arith.add(C.v, A.v, B.v);
    w[N] = mpn_add_n(L(w), L(a.data()), L(b.data()), N);
    if (!congr(C.v, w, N + 1)) bad(x, l, "add", "", A.v, B.v, C.v, N);
    l.f->arith.sub(C.v, A.v, B.v);
    { u64 t[N + 1] = {0}; for (int i = 0; i < 3; i++) t[N] += mpn_add_n(L(t), L(t), L(p), N);   // 3p > any operand
      t[N] += mpn_add_n(L(t), L(t), L(a.data()), N); t[N] -= mpn_sub_n(L(t), L(t), L(b.data()), N);
      if (!congr(C.v, t, N + 1)) bad(x, l, "sub", "", A.v, B.v, C.v, N); }
    l.f->arith.mul(C.v, A.v, B.v);
    mpn_mul_n(L(w), L(a.data()), L(b.data()), N);
    if (!congr(C.v, w, 2 * N)) bad(x, l, "mul", "", A.v, B.v, C.v, N);
    if (C.v[N] != 0x5a5a) bad(x, l, "overrun", "", A.v, B.v, C.v, N);
    l.f->arithex.intmul(C.v, A.v, B.v);
    if (memcmp(C.v, w, 16 * N)) bad(x, l, "intmul", "", A.v, B.v, C.v, N);
    if (C.v[2 * N] != 0xa5a5) bad(x, l, "overrun", "", A.v, B.v, C.v, N);
    if (memcmp(A.v, a.data(), 8 * N) || memcmp(B.v, b.data(), 8 * N)) bad(x, l, "changes-operand", "", a.data(), b.data(), C.v, N);
    if (x.want_sample()) x.sample(std::string(l.name) + " a=" + h(A.v, N) + " b=" + h(B.v, N) + " a*b=" + h(C.v, 2 * N));
    x.eval(4); x.distinct(1);
  }
  void single(Ctx &x, const Lib &l, const E &a) const {
    Slot A, C; u64 w[2 * N + 1];
    memcpy(A.v, a.data(), 8 * N);
    l.f->arithex.intsqr(C.v, A.v); mpn_sqr(L(w), L(a.data()), N);
    if (memcmp(C.v, w, 16 * N)) bad(x, l, "intsqr", "", a.data(), 0, C.v, N);
    memcpy(C.v, a.data(), 8 * N); C.v[N] = 0x5a5a; l.f->arith.sqr(C.v);
    if (!congr(C.v, w, 2 * N)) bad(x, l, "sqr", "", a.data(), 0, C.v, N);
    memcpy(C.v, a.data(), 8 * N); l.f->arith.neg(C.v);
    { u64 t[N + 1]; t[N] = mpn_add_n(L(t), L(a.data()), L(C.v), N); u64 z[N] = {0}; u64 r[N]; modp(r, t, N + 1); if (memcmp(r, z, 8 * N)) bad(x, l, "neg", "", a.data(), 0, C.v, N); }
    l.f->arithex.mula24(C.v, A.v); w[N] = mpn_mul_1(L(w), L(a.data()), N, a24);
    if (!congr(C.v, w, N + 1)) bad(x, l, "mula24", "", a.data(), 0, C.v, N);
    if (C.v[N] != 0x5a5a) bad(x, l, "overrun", "", a.data(), 0, C.v, N);
    if (memcmp(A.v, a.data(), 8 * N)) bad(x, l, "changes-operand", "", a.data(), 0, C.v, N);
    l.f->arithex.mula24(A.v, A.v); if (!congr(A.v, w, N + 1)) bad(x, l, "mula24", "in-place", a.data(), 0, A.v, N);
    if (x.want_sample()) x.sample(std::string(l.name) + " a=" + h(a.data(), N) + " a*a24 mod p=" + h(A.v, N));
    x.eval(5); x.distinct(1);
  }
  void aliased(Ctx &x, const Lib &l, const E &a, const E &b) const {
    Slot A, B; u64 w[2 * N + 1];
    auto load = [&] { memcpy(A.v, a.data(), 8 * N); memcpy(B.v, b.data(), 8 * N); };
    auto want = [&](int op, const E &u, const E &v) {
      if (op == 0) { w[N] = mpn_add_n(L(w), L(u.data()), L(v.data()), N); return N + 1; }
      if (op == 1) { memset(w, 0, sizeof w); for (int i = 0; i < 3; i++) w[N] += mpn_add_n(L(w), L(w), L(p), N); w[N] += mpn_add_n(L(w), L(w), L(u.data()), N); w[N] -= mpn_sub_n(L(w), L(w), L(v.data()), N); return N + 1; }
      mpn_mul_n(L(w), L(u.data()), L(v.data()), N); return 2 * N; };
    static const char *on[] = {"add", "sub", "mul"};
    for (int op = 0; op < 3; op++) {
      auto f = op == 0 ? l.f->arith.add : op == 1 ? l.f->arith.sub : l.f->arith.mul; int n;
      load(); f(A.v, A.v, B.v); n = want(op, a, b); if (!congr(A.v, w, n)) bad(x, l, on[op], "result-is-first", a.data(), b.data(), A.v, N);
      load(); f(B.v, A.v, B.v); if (!congr(B.v, w, n)) bad(x, l, on[op], "result-is-second", a.data(), b.data(), B.v, N);
      load(); f(B.v, A.v, A.v); n = want(op, a, a); if (!congr(B.v, w, n)) bad(x, l, on[op], "same-operands", a.data(), 0, B.v, N);
      load(); f(A.v, A.v, A.v); if (!congr(A.v, w, n)) bad(x, l, on[op], "all-same", a.data(), 0, A.v, N);
    }
    x.eval(12); x.distinct(1);
  }
  void twin(Ctx &x, const Lib &l, const E &a, const E &b, const E &c, const E &d) const {
    struct alignas(64) Big { u64 v[4 * N + 16]; } A, B, C; u64 w[2 * N];
    // second operands follow the first ones immediately; room behind them is watched
    auto put = [&](Big &X, const E &u, const E &v) { memset(X.v, 0x77, sizeof X.v); memcpy(X.v, u.data(), 8 * N); memcpy(X.v + N, v.data(), 8 * N); };
    put(A, a, c); put(B, b, d); memset(C.v, 0x77, sizeof C.v);
    auto over = [&](const char *op) { for (int i = 4 * N; i < 4 * N + 16; i++) if (C.v[i] != 0x7777777777777777ull) { bad(x, l, op, "overrun", a.data(), b.data(), C.v, N); break; } };
    l.f->arithex.intmul2(C.v, A.v, B.v);
    mpn_mul_n(L(w), L(a.data()), L(b.data()), N); bool ok = !memcmp(C.v, w, 16 * N);
    mpn_mul_n(L(w), L(c.data()), L(d.data()), N); ok &= !memcmp(C.v + 2 * N, w, 16 * N);
    if (!ok) bad(x, l, "intmul2", "", A.v, B.v, C.v, 2 * N); over("intmul2");
    u64 red[2 * N], in[4 * N]; memcpy(in, C.v, 32 * N); bool okin = ok;
    memset(C.v, 0x77, sizeof C.v); l.f->arithex.intsqr2(C.v, A.v);
    mpn_sqr(L(w), L(a.data()), N); ok = !memcmp(C.v, w, 16 * N); mpn_sqr(L(w), L(c.data()), N); ok &= !memcmp(C.v + 2 * N, w, 16 * N);
    if (!ok) bad(x, l, "intsqr2", "", A.v, 0, C.v, 2 * N); over("intsqr2");
    if (okin) reduce2(x, l, in);
    (void)red; x.eval(2); x.distinct(1);
  }
  void reduce2(Ctx &x, const Lib &l, const u64 *in) const {
    struct alignas(64) Big { u64 v[4 * N + 16]; } A, C; memset(C.v, 0x77, sizeof C.v); memset(A.v, 0x66, sizeof A.v);
    memcpy(A.v, in, 32 * N); l.f->arithex.reduce2(C.v, A.v);
    if (!congr(C.v, in, 2 * N) || !congr(C.v + N, in + 2 * N, 2 * N)) bad(x, l, "reduce2", "", in, in + 2 * N, C.v, 2 * N);
    if (C.v[2 * N] != 0x7777777777777777ull) bad(x, l, "reduce2", "overrun", in, 0, C.v, 2 * N);
    x.eval();
  }
  void reduce(Ctx &x, const Lib &l, const u64 *in) const {
    Slot A, C; memcpy(A.v, in, 16 * N); C.v[N] = 0x5a5a;
    l.f->arithex.reduce(C.v, A.v);
    if (!congr(C.v, in, 2 * N)) bad(x, l, "reduce", "", in, 0, C.v, 2 * N);
    if (C.v[N] != 0x5a5a) bad(x, l, "overrun", "", in, 0, C.v, 2 * N);
    x.eval(); x.distinct(1);
  }
  // element from corner index, base k
  E corner(u64 i, int k) const { E e; for (int j = 0; j < N; j++) { e[j] = V[i % k]; i /= k; } return e; }
  static u64 ipow(u64 b, int e) { u64 r = 1; while (e--) r *= b; return r; }
  E fromZ(const Z &z) const { E e; e.fill(0); Z t = z; size_t n = mpz_size(t.v); for (size_t i = 0; i < n && i < N; i++) e[i] = mpz_getlimbn(t.v, i); return e; }
  Z toZ(const E &e) const { return Z::le(e.data(), 8 * N); }
  E generic(const char *l, u64 i) const { Bytes b = gen(l, i, 8 * N); E e; memcpy(e.data(), b.data(), 8 * N); return e; }
  E run(u64 i) const { // all 2^i - 2^j, i >= j
    u64 hi = 0; while ((hi + 1) * (hi + 2) / 2 <= i) hi++; u64 lo = i - hi * (hi + 1) / 2;   // 0 <= lo <= hi < 64N+1
    return fromZ(Z::pow2(hi + 1 > 64 * N ? 64 * N : hi + 1) - Z::pow2(lo)); }
  std::vector<E> special() const {
    std::vector<E> s;
    const Curve &c = F448 ? c448() : c25519(); Z top = Z::pow2(64 * N);
    for (long k = 0; k < 12; k++) { s.push_back(fromZ(Z(k))); s.push_back(fromZ(top - Z(k + 1))); }
    for (long k = -40; k <= 40; k += k > -4 && k < 4 ? 1 : 4) { s.push_back(fromZ(c.p + Z(k))); Z t = c.p * Z(2) + Z(k); if (t < top) s.push_back(fromZ(t)); }
    for (int j = 64; j < 64 * N; j += 32) { s.push_back(fromZ(Z::pow2(j) - Z(1))); s.push_back(fromZ(Z::pow2(j))); s.push_back(fromZ(top - Z::pow2(j))); }
    for (u64 i = 0; i < 12; i++) s.push_back(generic("sp", i));
    std::sort(s.begin(), s.end()); s.erase(std::unique(s.begin(), s.end()), s.end());
    return s;
  }
  std::vector<Section> sections() {
    bool T = vf::thorough(); std::vector<Section> v; u64 nl = libs.size();
    auto sp = std::make_shared<std::vector<E>>(special());
    const Curve &c = F448 ? c448() : c25519();
    auto *me = this;
    // single operand operations
    int ks = F448 ? (T ? 8 : 6) : 24; ks = std::min<int>(ks, V.size());
    u64 ns = ipow(ks, N);
    v.push_back({"single-corners", "neg, sqr, intsqr, mula24 on every element whose limbs come from a corner alphabet of " + std::to_string(ks) + " values, every build", (ns + 255) / 256 * nl,
      [=](Ctx &x, u64 i) { auto &l = me->libs[i % nl]; u64 o = i / nl * 256; for (u64 j = o; j < o + 256 && j < ns; j++) me->single(x, l, me->corner(j, ks)); }});
    u64 nr = (u64)(64 * N + 1) * (64 * N) / 2;
    v.push_back({"single-runs", "the same on every 2^i - 2^j, its complement, and special values", (nr + 63) / 64 * nl,
      [=](Ctx &x, u64 i) { auto &l = me->libs[i % nl]; u64 o = i / nl * 64; for (u64 j = o; j < o + 64 && j < nr; j++) { E e = me->run(j); me->single(x, l, e); for (auto &w : e) w = ~w; me->single(x, l, e); }
        if (i / nl == 0) for (auto &e : *sp) me->single(x, l, e); }});
    // pairs
    int ka = F448 ? (T ? 4 : 3) : T ? 12 : 8, kb = F448 ? (T ? 5 : 4) : ka; u64 na = ipow(ka, N), nb = ipow(kb, N);
    v.push_back({"pair-corners", "add, sub, mul, intmul on all pairs of corner elements (" + std::to_string(ka) + " x " + std::to_string(kb) + " limb values)", na * (T ? nl : 1),
      [=](Ctx &x, u64 i) { auto &l = me->libs[T ? i % nl : 0]; E a = me->corner(T ? i / nl : i, ka); for (u64 j = 0; j < nb; j++) me->pair(x, l, a, me->corner(j, kb)); }});
    if (!T) { int k2 = F448 ? 3 : 7; u64 n2 = ipow(k2, N), n3 = n2;
      v.push_back({"pair-corners-other-builds", "the same with fewer corner values on the builds without add-carry and without wide-multiply instructions", n2 * (nl - 1),
      [=](Ctx &x, u64 i) { auto &l = me->libs[1 + i % (nl - 1)]; E a = me->corner(i / (nl - 1), k2); for (u64 j = 0; j < n3; j++) me->pair(x, l, a, me->corner(j, k2)); }}); }
    v.push_back({"pair-special", "add, sub, mul, intmul on all pairs of special values (around 0, p, 2p, the top of the representation, powers of two, generic)", sp->size() * nl,
      [=](Ctx &x, u64 i) { auto &l = me->libs[i % nl]; for (auto &b : *sp) me->pair(x, l, (*sp)[i / nl], b); }});
    u64 st = T ? 1 : F448 ? 3 : 1;
    v.push_back({"pair-runs", std::string("every ") + (st > 1 ? std::to_string(st) + "th " : "") + "2^i - 2^j (and its complement) against all special values, both operand orders", nr / st * nl,
      [=](Ctx &x, u64 i) { auto &l = me->libs[i % nl]; E e = me->run(i / nl * st); E n = e; for (auto &w : n) w = ~w;
        for (u64 k = T ? 0 : i % 3; k < sp->size(); k += 3 - 2 * T) { auto &s = (*sp)[k]; me->pair(x, l, e, s); me->pair(x, l, s, n); } }});
    u64 nt = T ? 4000 : 400;
    v.push_back({"mul-targets", "a*b with b chosen so that the product is r or p - r for r < " + std::to_string(nt) + ", and in the non-canonical form where it fits", sp->size() * nt * 2,
      [=, &c](Ctx &x, u64 i) { Dec d(i); Z r((long)d(nt)); if (d(2)) r = (c.p - r) % c.p; Z a = me->toZ((*sp)[d(sp->size())]); if (a % c.p == Z(0)) return;
        Z b = r * ref::invm(a % c.p, c.p) % c.p;
        for (auto &l : me->libs) { me->pair(x, l, me->fromZ(a), me->fromZ(b)); Z b2 = b + c.p; if (b2 < Z::pow2(64 * N)) me->pair(x, l, me->fromZ(a), me->fromZ(b2)); } }});
    v.push_back({"aliasing", "add, sub, mul with every aliasing of result and operands on all pairs of special values", sp->size() * nl,
      [=](Ctx &x, u64 i) { auto &l = me->libs[i % nl]; for (auto &b : *sp) me->aliased(x, l, (*sp)[i / nl], b); }});
    // pairs of operations
    int kt = F448 ? 2 : 3; u64 n4 = ipow(kt, N);
    v.push_back({"twin-operations", "intmul2, intsqr2, reduce2 on all pairs of corner and special elements, with different companions", (n4 + sp->size()) * nl,
      [=](Ctx &x, u64 i) { auto &l = me->libs[i % nl]; u64 j = i / nl; auto get = [&](u64 q) { q %= n4 + sp->size(); return q < n4 ? me->corner(q, kt) : (*sp)[q - n4]; };
        for (u64 k = 0; k < n4 + sp->size(); k++) me->twin(x, l, get(j), get(k), get(k * 7 + 3), get(j * 5 + k)); }});
    // reduction
    int kr = F448 ? (T ? 4 : 3) : (T ? 10 : 7); u64 nrd = ipow(kr, 2 * N), chunk = 4096;
    v.push_back({"reduce-corners", "reduce on every double-length value whose limbs come from " + std::to_string(kr) + " corner values", (nrd + chunk - 1) / chunk * nl,
      [=](Ctx &x, u64 i) { auto &l = me->libs[i % nl]; u64 o = i / nl * chunk; u64 in[4 * N]; for (u64 j = o; j < o + chunk && j < nrd; j++) { u64 t = j; for (int q = 0; q < 2 * N; q++) { in[q] = me->V[t % kr]; t /= kr; } me->reduce(x, l, in); if (j % 4 == 0) { memcpy(in + 2 * N, in, 16 * N); std::reverse(in + 2 * N, in + 4 * N); me->reduce2(x, l, in); } } }});
    if (F448) { int k3 = 3; u64 n3 = ipow(k3, 7);
      v.push_back({"reduce-corners-halves", "reduce on every pair of halves whose limbs come from 3 corner values", n3 * (T ? nl : 1),
      [=](Ctx &x, u64 i) { auto &l = me->libs[T ? i % nl : i % 3]; u64 in[2 * N]; E hi = me->corner(T ? i / nl : i, k3); for (u64 j = 0; j < n3; j++) { E lo = me->corner(j, k3); memcpy(in, lo.data(), 8 * N); memcpy(in + N, hi.data(), 8 * N); me->reduce(x, l, in); } }}); }
    u64 dd = T ? 4000 : 400; int kh = F448 ? 3 : T ? 12 : 8; u64 nh = ipow(kh, N) + sp->size();
    v.push_back({"reduce-carry-targets", "high half from the corner alphabet, low half such that the folded sum lies within " + std::to_string(dd) + " of a multiple of 2^" + std::to_string(64 * N) + (F448 ? ", plus 0 or +-1 times 2^224" : ""), nh,
      [=](Ctx &x, u64 i) { u64 nc = nh - sp->size(); E hi = i < nc ? me->corner(i, kh) : (*sp)[i - nc]; Z H = me->toZ(hi), M = Z::pow2(64 * N), fold;
        if (me->F448) { Z b1 = H, b0; mpz_fdiv_q_2exp(b1.v, H.v, 224); mpz_fdiv_r_2exp(b0.v, H.v, 224); fold = H + (b0 + b1) * Z::pow2(224) + b1; } else fold = H * Z(38);
        Z k0; mpz_fdiv_q(k0.v, fold.v, M.v);
        for (int k = 0; k < 2; k++) for (long dl = -(long)dd; dl <= (long)dd; dl++) for (int e = me->F448 ? -1 : 0; e <= (me->F448 ? 1 : 0); e++) {
          if (me->F448 && !T && (dl > 6 || dl < -6) && dl % 16) continue;
          Z lo = M * (k0 + Z(k)) + Z(dl) + Z(e) * Z::pow2(224) - fold; if (lo < Z(0) || lo >= M) continue;
          E l0 = me->fromZ(lo); u64 in[2 * N]; memcpy(in, l0.data(), 8 * N); memcpy(in + N, hi.data(), 8 * N);
          for (auto &l : me->libs) me->reduce(x, l, in); } }});
    return v;
  }
};
