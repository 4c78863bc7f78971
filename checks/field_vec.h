// Reduced-radix (one, two and four lanes) field arithmetic: harness shared by
// the two fields.  Elements are manipulated through the library; their digits
// are located by calibration (deserializing single digits), so the harness
// depends on the radix constants of the public header only.
#pragma once
#include <algorithm>
#include <array>
#include <memory>
#include "lib.h"
using namespace faz::fp;

static const int MAXD = 16;
struct alignas(64) Vec { u64 s[72]; };
struct Dig { u64 d[MAXD]; bool operator<(const Dig &o) const { return memcmp(d, o.d, sizeof d) < 0; } bool operator==(const Dig &o) const { return !memcmp(d, o.d, sizeof d); } };

template <bool F448> struct VecCk {
  static const int ND = F448 ? 16 : 10, N = F448 ? 7 : 4, BY = F448 ? 56 : 32;
  int W;                              // lanes
  const char *name;
  int slot[4][MAXD];
  int wt[MAXD + 1];
  u64 p[N];
  u64 mask(int i) const { return (1ull << (wt[i + 1] - wt[i])) - 1; }
  const PrimeField &F() const { return F448 ? Fp448 : Fp25519; }
  typedef void (*op3)(Vec &, Vec &, Vec &);

  // ---- dispatch over the number of lanes -----------------------------------
#define CALL(op, ...) (W == 1 ? (void)F()._1w_red.op(__VA_ARGS__) : (void)0)
  u64 *U(Vec &v) const { return v.s; }
  __m256i *M(Vec &v) const { return (__m256i *)v.s; }
  void add(Vec &c, Vec &a, Vec &b) const { W == 1 ? F()._1w_red.arith.add(U(c), U(a), U(b)) : W == 2 ? F()._2w_red.arith.add(M(c), M(a), M(b)) : F()._4w_red.arith.add(M(c), M(a), M(b)); }
  void sub(Vec &c, Vec &a, Vec &b) const { W == 1 ? F()._1w_red.arith.sub(U(c), U(a), U(b)) : W == 2 ? F()._2w_red.arith.sub(M(c), M(a), M(b)) : F()._4w_red.arith.sub(M(c), M(a), M(b)); }
  void mul(Vec &c, Vec &a, Vec &b) const { W == 1 ? F()._1w_red.arith.mul(U(c), U(a), U(b)) : W == 2 ? F()._2w_red.arith.mul(M(c), M(a), M(b)) : F()._4w_red.arith.mul(M(c), M(a), M(b)); }
  void intmul(Vec &c, Vec &a, Vec &b) const { W == 1 ? F()._1w_red.arithex.intmul(U(c), U(a), U(b)) : W == 2 ? F()._2w_red.arithex.intmul(M(c), M(a), M(b)) : F()._4w_red.arithex.intmul(M(c), M(a), M(b)); }
  void sqr(Vec &a) const { W == 1 ? F()._1w_red.arith.sqr(U(a)) : W == 2 ? F()._2w_red.arith.sqr(M(a)) : F()._4w_red.arith.sqr(M(a)); }
  bool has_intsqr() const { return W != 1; }
  void intsqr(Vec &a) const { W == 2 ? F()._2w_red.arithex.intsqr(M(a)) : F()._4w_red.arithex.intsqr(M(a)); }
  bool has_neg() const { return W == 1 ? F()._1w_red.arith.neg != 0 : W == 2 ? F()._2w_red.arith.neg != 0 : F()._4w_red.arith.neg != 0; }
  void neg(Vec &a) const { W == 1 ? F()._1w_red.arith.neg(U(a)) : W == 2 ? F()._2w_red.arith.neg(M(a)) : F()._4w_red.arith.neg(M(a)); }
  void compress(Vec &a) const { W == 1 ? F()._1w_red.arithex.compress(U(a)) : W == 2 ? F()._2w_red.arithex.compress(M(a)) : F()._4w_red.arithex.compress(M(a)); }
  void compressfast(Vec &a) const { W == 1 ? F()._1w_red.arithex.compressfast(U(a)) : W == 2 ? F()._2w_red.arithex.compressfast(M(a)) : F()._4w_red.arithex.compressfast(M(a)); }
  void compress2(Vec &a, Vec &b) const { W == 2 ? F()._2w_red.arithex.compress2(M(a), M(b)) : F()._4w_red.arithex.compress2(M(a), M(b)); }
  void addsub(Vec &a, Vec &b) const {   // (a,b) <- (a+b, a-b)
    if (W == 1) F()._1w_red.arithex.addsub(U(a), U(b)); else if (W == 2) F()._2w_red.arithex.addsub(M(a), M(b));
    else { Vec c, d; F()._4w_red.arithex.addsub(M(c), M(d), M(a), M(b)); a = c; b = d; } }
  void copy(Vec &c, Vec &a) const { W == 1 ? F()._1w_red.arith.misc.copy(U(c), U(a)) : W == 2 ? F()._2w_red.arith.misc.copy(M(c), M(a)) : F()._4w_red.arith.misc.copy(M(c), M(a)); }
  void zero(Vec &c) const { W == 1 ? F()._1w_red.arith.misc.zero(U(c)) : W == 2 ? F()._2w_red.arith.misc.zero(M(c)) : F()._4w_red.arith.misc.zero(M(c)); }
  void unser(Vec &c, u8 *b) const { W == 1 ? F()._1w_red.arith.misc.unser(U(c), b) : W == 2 ? F()._2w_red.arith.misc.unser(M(c), b) : F()._4w_red.arith.misc.unser(M(c), b); }
  void ser(u8 *b, Vec &c) const { W == 1 ? F()._1w_red.arith.misc.ser(b, U(c)) : W == 2 ? F()._2w_red.arith.misc.ser(b, M(c)) : F()._4w_red.arith.misc.ser(b, M(c)); }
  void ngz(Vec &c, Vec &a) const { W == 2 ? F()._2w_red.arith.ngz(M(c), M(a)) : F()._4w_red.arith.ngz(M(c), M(a)); }
  size_t used() const { return W == 1 ? (F448 ? 128 : 96) : (size_t)W * ND * 8; }

  explicit VecCk(int w) : W(w) {
    name = w == 1 ? "1w" : w == 2 ? "2w" : "4w";
    wt[0] = 0;
    for (int i = 0; i < ND; i++) wt[i + 1] = wt[i] + (F448 ? BASE_FP448 : i % 2 ? BASE1_FP25519 : BASE0_FP25519);
    const Curve &c = F448 ? c448() : c25519();
    memcpy(p, c.p.v->_mp_d, 8 * N);
    // where is digit i of lane l?  default: the interleaved order of the sources
    for (int l = 0; l < W; l++) for (int i = 0; i < ND; i++) {
      int h = ND / 2, pos = i < h ? 2 * i : 2 * (i - h) + 1;
      slot[l][i] = W == 1 ? pos : W == 2 ? pos / 2 * 4 + l * 2 + pos % 2 : pos * 4 + l;
      u8 b[4 * 64] = {0}; Vec v; memset(&v, 0, sizeof v);
      b[l * BY + wt[i] / 8] = 1 << wt[i] % 8;
      unser(v, b);
      int f = -1, n = 0;
      for (int s = 0; s < (int)used() / 8; s++) if (v.s[s] == 1) { f = s; n++; }
      if (n == 1) slot[l][i] = f;
    }
  }
  // ---- values ----------------------------------------------------------------
  void put(Vec &v, int l, const Dig &d) const { for (int i = 0; i < ND; i++) v.s[slot[l][i]] = d.d[i]; }
  Dig get(const Vec &v, int l) const { Dig d; memset(&d, 0, sizeof d); for (int i = 0; i < ND; i++) d.d[i] = v.s[slot[l][i]]; return d; }
  typedef std::array<u64, N> E;
  E val(const Dig &d) const {        // sum d_i 2^wt_i mod p, digits are unsigned 64-bit
    u64 a[N + 2] = {0};
    for (int i = 0; i < ND; i++) {
      unsigned __int128 x = (unsigned __int128)d.d[i] << wt[i] % 64; int k = wt[i] / 64;
      u64 t[2] = {(u64)x, (u64)(x >> 64)};
      mpn_add((mp_limb_t *)a + k, (mp_limb_t *)a + k, N + 2 - k, (mp_limb_t *)t, 2);
    }
    return mod(a, N + 2);
  }
  E mod(const u64 *a, int n) const { u64 q[32]; E r; mpn_tdiv_qr((mp_limb_t *)q, (mp_limb_t *)r.data(), 0, (const mp_limb_t *)a, n, (const mp_limb_t *)p, N); return r; }
  E mulE(const E &a, const E &b) const { u64 t[2 * N]; mpn_mul_n((mp_limb_t *)t, (const mp_limb_t *)a.data(), (const mp_limb_t *)b.data(), N); return mod(t, 2 * N); }
  E addE(const E &a, const E &b) const { u64 t[N + 1]; t[N] = mpn_add_n((mp_limb_t *)t, (const mp_limb_t *)a.data(), (const mp_limb_t *)b.data(), N); return mod(t, N + 1); }
  E negE(const E &a) const { E r; mpn_sub_n((mp_limb_t *)r.data(), (const mp_limb_t *)p, (const mp_limb_t *)a.data(), N); return mod(r.data(), N); }
  Dig fromE(const E &e) const { Dig d; memset(&d, 0, sizeof d); Z z = Z::le(e.data(), 8 * N); for (int i = 0; i < ND; i++) { Z t; mpz_fdiv_q_2exp(t.v, z.v, wt[i]); d.d[i] = mpz_get_ui(t.v) & mask(i); } return d; }
  std::string str(const Dig &d) const { std::string s = "["; char b[40]; for (int i = 0; i < ND; i++) { snprintf(b, 40, "%s%lx", i ? " " : "", (unsigned long)d.d[i]); s += b; } return s + "]"; }

  // ---- one batch of lanes ------------------------------------------------------
  void bad(Ctx &x, const char *op, int l, const Dig &a, const Dig *b, const Dig &got) const {
    x.fail(std::string(op) + "-" + name, std::string(op) + " lane " + std::to_string(l) + " a=" + str(a) + (b ? " b=" + str(*b) : "") + " -> " + str(got)); }
  Vec load(const Dig *a) const { Vec v; memset(&v, 0, sizeof v); for (int l = 0; l < W; l++) put(v, l, a[l]); return v; }
  // r must equal op of the operands in each lane
  void check(Ctx &x, const char *op, const Vec &r, const Dig *a, const Dig *b, const E *want) const {
    for (int l = 0; l < W; l++) { Dig g = get(r, l); if (val(g) != want[l]) bad(x, op, l, a[l], b ? &b[l] : 0, g); }
    if (x.want_sample()) x.sample(std::string(op) + " a=" + str(a[0]) + (b ? " b=" + str(b[0]) : "") + " -> " + str(get(r, 0)));
    x.eval(W); }

  // forms derived from a compressed element (digits below 2^radix)
  enum Form { C = 0, ADDMAX, SUBMAX, SUB0, NEG, NFORMS };
  Dig maxd() const { Dig m; memset(&m, 0, sizeof m); for (int i = 0; i < ND; i++) m.d[i] = mask(i); return m; }
  Vec form(Vec v, Form f) const {
    Dig mx[4]; for (auto &d : mx) d = maxd();
    Vec m = load(mx), z, r; memset(&z, 0, sizeof z);
    switch (f) {
      case ADDMAX: add(r, v, m); return r;
      case SUBMAX: sub(r, v, m); return r;
      case SUB0: sub(r, v, z); return r;
      case NEG: sub(r, z, v); return r;
      default: return v; } }
  static bool loose(Form f) { return f == SUB0 || f == SUBMAX || f == NEG; }
  static bool allowed(Form f, Form g) { return !F448 || !(loose(f) && loose(g)); }

  // ---- alphabets ---------------------------------------------------------------
  std::vector<Dig> patterns(bool big) const {
    std::vector<Dig> v; Dig d;
    auto mk = [&](unsigned bits) { memset(&d, 0, sizeof d); for (int i = 0; i < ND; i++) d.d[i] = bits >> i & 1 ? mask(i) : 0; v.push_back(d); };
    if (!F448) for (unsigned b = 0; b < 1024; b++) mk(b);
    else if (big) for (unsigned b = 0; b < 65536; b++) mk(b);
    else for (unsigned b = 0; b < 256; b++) {
      unsigned two = 0; for (int i = 0; i < 8; i++) if (b >> i & 1) two |= 3u << 2 * i;
      mk(b | b << 8); mk(b | (~b & 255) << 8); mk(b); mk(b << 8); mk(two); }
    std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
    return v; }
  std::vector<Dig> values() const {          // digit-wise special and generic values
    std::vector<Dig> v; Dig d;
    for (int k = 0; k < 8; k++) { memset(&d, 0, sizeof d); for (int i = 0; i < ND; i++) d.d[i] = k == 0 ? 1 : k == 1 ? mask(i) - 1 : k == 2 ? mask(i) >> 1 : k == 3 ? (mask(i) >> 1) + 1 : k == 4 ? 0x1555555 & mask(i) : k == 5 ? 0x2aaaaaaa & mask(i) : k == 6 ? 2 : mask(i) ^ 0xff; v.push_back(d); }
    for (u64 g = 0; g < 24; g++) { Bytes b = gen("vec", g, 8 * MAXD); memset(&d, 0, sizeof d); for (int i = 0; i < ND; i++) { u64 w; memcpy(&w, &b[8 * i], 8); d.d[i] = w & mask(i); } v.push_back(d); }
    E e; for (int k = 0; k < 6; k++) { memcpy(e.data(), p, 8 * N); mpn_sub_1((mp_limb_t *)e.data(), (mp_limb_t *)e.data(), N, k); v.push_back(fromE(e)); e.fill(0); e[0] = k; v.push_back(fromE(e)); }
    memcpy(e.data(), p, 8 * N); for (int k = 0; k < (F448 ? 4 : 18); k++) { mpn_add_1((mp_limb_t *)e.data(), (mp_limb_t *)e.data(), N, 1); v.push_back(fromE(e)); }
    return v; }
  std::vector<Dig> onehot() const {
    std::vector<Dig> v; Dig d;
    for (int i = 0; i < ND; i++) for (int k = 0; k < 5; k++) { memset(&d, 0, sizeof d); d.d[i] = k == 0 ? 1 : k == 1 ? mask(i) : k == 2 ? (mask(i) >> 1) + 1 : k == 3 ? 0x155 : 0x2aaaa; v.push_back(d); }
    return v; }

  // all products of a list of operand pairs, W at a time, each pair shifted through the lanes
  struct Batch { Dig a[4], b[4]; int n = 0; };
  void prod(Ctx &x, Batch &B, Form f, Form g, bool deep) const {
    if (!B.n) return;
    for (int l = B.n; l < W; l++) { B.a[l] = B.a[l - B.n]; B.b[l] = B.b[l - B.n]; }
    Vec va = form(load(B.a), f), vb = form(load(B.b), g), r; E w[4]; Dig da[4], db[4];
    for (int l = 0; l < W; l++) { da[l] = get(va, l); db[l] = get(vb, l); w[l] = mulE(val(da[l]), val(db[l])); }
    Vec sa = va, sb = vb;
    mul(r, va, vb); check(x, "mul", r, da, db, w);
    if (memcmp(&sa, &va, used()) || memcmp(&sb, &vb, used())) bad(x, "changes-operand", 0, da[0], &db[0], get(r, 0));
    if (deep) {
      intmul(r, va, vb); check(x, "intmul", r, da, db, w);
      Vec t = r; compress(t); check(x, "intmul-compress", t, da, db, w);
      if (W != 1) { Vec u = r; t = r; Vec o = u; compress2(t, o); check(x, "compress2-first", t, da, db, w); check(x, "compress2-second", o, da, db, w); }
      if (f == C && g == C) { t = r; compressfast(t); check(x, "intmul-compressfast", t, da, db, w); }
    }
    B.n = 0; }
  void push(Ctx &x, Batch &B, const Dig &a, const Dig &b, Form f, Form g, bool deep) const { B.a[B.n] = a; B.b[B.n] = b; if (++B.n == W) prod(x, B, f, g, deep); }

  void squares(Ctx &x, const Dig *a, Form f) const {
    Vec v = form(load(a), f), r; E w[4]; Dig d[4];
    for (int l = 0; l < W; l++) { d[l] = get(v, l); E e = val(d[l]); w[l] = mulE(e, e); }
    r = v; sqr(r); check(x, "sqr", r, d, 0, w);
    if (has_intsqr()) { r = v; intsqr(r); check(x, "intsqr", r, d, 0, w); }
    r = v; mul(r, r, r); check(x, "mul-all-same", r, d, 0, w);
  }
  void linear(Ctx &x, const Dig *a, const Dig *b) const {
    Vec va = load(a), vb = load(b), r, t; E ea[4], eb[4], w[4], ws[4];
    for (int l = 0; l < W; l++) { ea[l] = val(a[l]); eb[l] = val(b[l]); w[l] = addE(ea[l], eb[l]); ws[l] = addE(ea[l], negE(eb[l])); }
    add(r, va, vb); check(x, "add", r, a, b, w); t = r; compress(t); check(x, "add-compress", t, a, b, w); t = r; compressfast(t); check(x, "add-compressfast", t, a, b, w);
    Vec ra = r;
    sub(r, va, vb); check(x, "sub", r, a, b, ws); t = r; compress(t); check(x, "sub-compress", t, a, b, ws); t = r; compressfast(t); check(x, "sub-compressfast", t, a, b, ws);
    Vec rs = r;
    r = va; t = vb; addsub(r, t); check(x, "addsub-sum", r, a, b, w); check(x, "addsub-difference", t, a, b, ws);
    r = va; add(r, r, vb); check(x, "add-result-is-first", r, a, b, w); r = vb; add(r, va, r); check(x, "add-result-is-second", r, a, b, w);
    r = va; sub(r, r, vb); check(x, "sub-result-is-first", r, a, b, ws); r = vb; sub(r, va, r); check(x, "sub-result-is-second", r, a, b, ws);
    if (W == 4) { r = ra; t = rs; F()._4w_red.arithex.new_compressfast2(M(r), M(t)); check(x, "new_compressfast2-first", r, a, b, w); check(x, "new_compressfast2-second", t, a, b, ws); }
    if (W != 1) { r = ra; t = rs; compress2(r, t); check(x, "compress2-sum", r, a, b, w); check(x, "compress2-difference", t, a, b, ws); }
    E wn[4]; for (int l = 0; l < W; l++) wn[l] = negE(ea[l]);
    if (has_neg()) { r = va; neg(r); check(x, "neg", r, a, 0, wn); }
    if (W != 1) {
      E wz[4]; Dig src[4];
      if (W == 2) { wz[0] = wn[0]; wz[1] = ea[1]; src[0] = a[0]; src[1] = a[1]; }
      else { wz[0] = ea[1]; wz[1] = ea[0]; wz[2] = wn[2]; wz[3] = ea[3]; src[0] = a[1]; src[1] = a[0]; src[2] = a[2]; src[3] = a[3]; }
      ngz(r, va); check(x, "ngz", r, src, 0, wz);
      r = va; ngz(r, r); check(x, "ngz-in-place", r, src, 0, wz); }
    copy(r, va); if (memcmp(&r, &va, W == 1 ? ND * 8 : used())) bad(x, "copy", 0, a[0], 0, get(r, 0));
    memset(&r, 0x5a, sizeof r); zero(r); E z; z.fill(0); for (int l = 0; l < W; l++) if (val(get(r, l)) != z) bad(x, "zero", l, a[l], 0, get(r, l));
    if (W == 2) { alignas(64) u64 p0[16] = {0}, p1[16] = {0}; Vec q;
      F()._2w_red.arithex.deinter(p0, p1, M(va));
      VecCk &one = *lane1(); Vec o0, o1; memcpy(o0.s, p0, 128); memcpy(o1.s, p1, 128);
      if (!(one.get(o0, 0) == a[0]) || !(one.get(o1, 0) == a[1])) bad(x, "deinter", 0, a[0], &a[1], one.get(o0, 0));
      F()._2w_red.arithex.inter(M(q), p0, p1); for (int l = 0; l < 2; l++) if (!(get(q, l) == a[l])) bad(x, "inter", l, a[0], &a[1], get(q, l)); }
    x.eval(4); }
  static VecCk *lane1() { static VecCk *v = new VecCk(1); return v; }

  // carry propagation from arbitrary digits of products
  void carries(Ctx &x, const Dig *a) const {
    Vec v = load(a), r; E w[4]; for (int l = 0; l < W; l++) w[l] = val(a[l]);
    r = v; compress(r); check(x, "compress", r, a, 0, w);
    if (W != 1) { r = v; Dig b[4]; E w2[4]; for (int l = 0; l < W; l++) { b[l] = a[(l + 1) % W]; w2[l] = w[(l + 1) % W]; } Vec t = load(b); compress2(r, t); check(x, "compress2-first", r, a, 0, w); check(x, "compress2-second", t, b, 0, w2); }
    if (W == 4) {   // sums and differences of products
      Vec t; Dig h[4], b[4]; E wa[4], ws[4]; for (int l = 0; l < W; l++) { h[l] = a[l]; for (int i = 0; i < ND; i++) { h[l].d[i] = std::min<u64>(h[l].d[i] >> 2, (1ull << 60) - (1ull << 36)); } }
      for (int l = 0; l < W; l++) { b[l] = h[(l + 1) % W]; E u = val(h[l]), s = val(b[l]); wa[l] = addE(u, s); ws[l] = addE(u, negE(s)); }
      r = load(h); t = load(b); F()._4w_red.arithex.addsublar(M(r), M(t)); check(x, "addsublar-sum", r, h, b, wa); check(x, "addsublar-difference", t, h, b, ws);
      compress2(r, t); check(x, "addsublar-compress2-sum", r, h, b, wa); check(x, "addsublar-compress2-difference", t, h, b, ws); } }
  void fastcarries(Ctx &x, const Dig *a) const {
    Vec r = load(a); E w[4]; for (int l = 0; l < W; l++) w[l] = val(a[l]);
    compressfast(r); check(x, "compressfast", r, a, 0, w); }

  // breadth-first search over operation sequences; keeps the elements that
  // reach a new largest value of some digit (of a compressed element)
  void search(Ctx &x, u64 seed, int depth, size_t width) const {
    std::vector<Dig> pool; Dig best; memset(&best, 0, sizeof best);
    auto vs = values(); auto ps = patterns(false);
    for (u64 i = 0; i < 6; i++) { pool.push_back(vs[(seed * 5 + i * 7) % vs.size()]); pool.push_back(ps[(seed * 131 + i * 977) % ps.size()]); }
    pool.push_back(maxd());
    for (int lv = 0; lv < depth; lv++) {
      std::vector<Dig> out;
      size_t n = pool.size();
      for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) for (int fg = 0; fg < 4; fg++) {
        // operands: a+-a', b+-b' with a', b' the next pool elements
        bool fs = fg & 1, gs = fg & 2; if (F448 && fs && gs) continue;
        Dig A[4], A2[4], B[4], B2[4], da[4], db[4]; E w[4];
        for (int l = 0; l < W; l++) { A[l] = pool[(i + l) % n]; A2[l] = pool[(i + 2 * l + 1) % n]; B[l] = pool[(j + l) % n]; B2[l] = pool[(j + 3 * l + 2) % n]; }
        Vec va = load(A), va2 = load(A2), vb = load(B), vb2 = load(B2), ra, rb, r;
        fs ? sub(ra, va, va2) : add(ra, va, va2); gs ? sub(rb, vb, vb2) : add(rb, vb, vb2);
        for (int l = 0; l < W; l++) { da[l] = get(ra, l); db[l] = get(rb, l);
          w[l] = mulE(addE(val(A[l]), fs ? negE(val(A2[l])) : val(A2[l])), addE(val(B[l]), gs ? negE(val(B2[l])) : val(B2[l]))); }
        mul(r, ra, rb); check(x, "sequence", r, da, db, w);
        for (int l = 0; l < W; l++) { Dig g = get(r, l); x.seen(vf::hash_bytes(&g, sizeof g, W * 2 + F448)); bool nw = false; for (int k = 0; k < ND; k++) if (g.d[k] > best.d[k]) { best.d[k] = g.d[k]; nw = true; } if (nw) out.push_back(g); }
        if (i < 4) { Vec t = ra; compress(t); for (int l = 0; l < W; l++) w[l] = val(da[l]); check(x, "sequence-compress", t, da, 0, w); for (int l = 0; l < W; l++) { Dig g = get(t, l); bool nw = false; for (int k = 0; k < ND; k++) if (g.d[k] > best.d[k]) { best.d[k] = g.d[k]; nw = true; } if (nw) out.push_back(g); } }
      }
      std::sort(out.begin(), out.end()); out.erase(std::unique(out.begin(), out.end()), out.end());
      if (out.empty()) break;
      x.count("search_levels");
      std::reverse(out.begin(), out.end());
      if (out.size() > width) { std::vector<Dig> o2; for (size_t k = 0; k < width; k++) o2.push_back(out[k * out.size() / width]); out = o2; }
      pool = out;
    }
  }

  void sections(std::vector<Section> &v) {
    bool T = vf::thorough(); auto *me = this; std::string nm = std::string("-") + name;
    auto P = std::make_shared<std::vector<Dig>>(patterns(false)), V = std::make_shared<std::vector<Dig>>(values()), H = std::make_shared<std::vector<Dig>>(onehot()), BP = std::make_shared<std::vector<Dig>>(patterns(true));
    auto S = std::make_shared<std::vector<Dig>>(*V); S->insert(S->end(), H->begin(), H->end());
    v.push_back({"mul-digit-corners" + nm, "products of all pairs of elements whose digits are each 0 or maximal, both operands compressed, or sums/differences with the largest element (" + std::to_string(P->size()) + " patterns, up to 25 form pairs)", P->size(),
      [=](Ctx &x, u64 i) { Batch B; for (int f = 0; f < NFORMS; f++) for (int g = 0; g < NFORMS; g++) { if (!allowed((Form)f, (Form)g)) continue; 
        for (u64 j = 0; j < P->size(); j++) { me->push(x, B, (*P)[i], (*P)[(j * 389 + i) % P->size()], (Form)f, (Form)g, false); x.distinct(1); } me->prod(x, B, (Form)f, (Form)g, false); } }});
    v.push_back({"mul-special" + nm, "products, unreduced products and their carry propagations of all pairs of one-digit, special and generic elements in all form pairs", S->size(),
      [=](Ctx &x, u64 i) { Batch B; for (int f = 0; f < NFORMS; f++) for (int g = 0; g < NFORMS; g++) { if (!allowed((Form)f, (Form)g)) continue;
        for (u64 j = 0; j < S->size(); j++) { me->push(x, B, (*S)[i], (*S)[(i + j * 7) % S->size()], (Form)f, (Form)g, true); x.distinct(1); } me->prod(x, B, (Form)f, (Form)g, true); } }});
    v.push_back({"sqr" + nm, "squares of every digit pattern and special element in every form", BP->size() + S->size(),
      [=](Ctx &x, u64 i) { Dig a[4]; for (int l = 0; l < me->W; l++) { u64 k = (i + l * 37) % (BP->size() + S->size()); a[l] = k < BP->size() ? (*BP)[k] : (*S)[k - BP->size()]; }
        for (int f = 0; f < NFORMS; f++) { if (!allowed((Form)f, (Form)f)) continue; me->squares(x, a, (Form)f); x.distinct(1); } }});
    v.push_back({"linear" + nm, "add, sub, addsub, neg, ngz, copy, zero, (de)interleaving and every carry propagation behind a sum or difference: digit patterns x special elements, different data in every lane, aliased results", P->size() * S->size() / (T ? 1 : 4),
      [=](Ctx &x, u64 i) { if (!T) i *= 4; Dig a[4], b[4]; for (int l = 0; l < me->W; l++) { a[l] = (*P)[(i + l * 11) % P->size()]; b[l] = (*S)[(i / P->size() + l * 5 + i) % S->size()]; if (i % 2) std::swap(a[l], b[l]); }
        me->linear(x, a, b); x.distinct(1); }});
    // volume: digit vectors mixed from generic and extreme digits
    u64 nv = T ? 40000 : 900;
    v.push_back({"counter-elements" + nm, std::to_string(nv * 128) + " pairs of digit vectors that mix generic, zero, one and largest digits in many proportions, through the products of every form and every linear operation", nv,
      [=](Ctx &x, u64 i) { u64 st = i * 0x9e3779b97f4a7c15ull + 77; auto rnd = [&] { st += 0x9e3779b97f4a7c15ull; u64 z = st; z = (z ^ z >> 30) * 0xbf58476d1ce4e5b9ull; z = (z ^ z >> 27) * 0x94d049bb133111ebull; return z ^ z >> 31; };
        auto el = [&] { Dig d; memset(&d, 0, sizeof d); u64 mix = rnd() % 5; for (int k = 0; k < ND; k++) { u64 r = rnd(), q = r >> 56; d.d[k] = q < 48 * mix ? (q % 4 == 0 ? 0 : q % 4 == 1 ? 1 : q % 4 == 2 ? me->mask(k) : me->mask(k) - 1) : r & me->mask(k); } return d; };
        Batch B; for (int k = 0; k < 128; k++) { Form f = (Form)(k % NFORMS), g = (Form)(k / NFORMS % NFORMS); if (!allowed(f, g)) g = C; Dig a[4], b[4]; for (int l = 0; l < me->W; l++) { a[l] = el(); b[l] = el(); me->push(x, B, a[l], b[l], f, g, true); }
          if (k % 4 == 0) { me->linear(x, a, b); for (int h = 0; h < NFORMS; h++) if (allowed((Form)h, (Form)h)) me->squares(x, a, (Form)h); } x.distinct(1); } }});
    // raw digits before carry propagation
    static const u64 top = 1ull << 62;
    std::vector<u64> al = {0, (1ull << 26) - 1, 1ull << 26, top - 1, 1ull << 50, (1ull << 52) - 1, (1ull << 28) - 1, 1ull << 25};
    int k = F448 ? 2 : T ? 4 : 3; u64 nn = 1; for (int i = 0; i < ND; i++) nn *= k;
    std::vector<std::vector<u64>> alph = F448 ? std::vector<std::vector<u64>>{{0, top - 1}, {(1 << 28) - 1, top - 1}, {(1 << 28) - 1, 1 << 28}, {(1ull << 56) - 1, 1ull << 56}} : std::vector<std::vector<u64>>{{0, (1 << 26) - 1, top - 1, (1ull << 51) - 1}, {(1 << 25) - 1, 1 << 26, (1ull << 51), 1}};
    for (size_t q = 0; q < alph.size(); q++) {
      auto A = alph[q];
      v.push_back({"carry-digits-" + std::to_string(q) + nm, "carry propagation (single, paired, and after sums/differences of products) from every digit vector over a " + std::to_string(k) + "-value alphabet up to 2^62", nn,
        [=](Ctx &x, u64 i) { Dig a[4]; for (int l = 0; l < me->W; l++) { memset(&a[l], 0, sizeof(Dig)); u64 t = (i * (l ? 2 * l + 1 : 1) + l * 12345) % nn; for (int j = 0; j < ND; j++) { a[l].d[j] = A[t % k]; t /= k; } }
          me->carries(x, a); x.distinct(1);
          for (int l = 0; l < me->W; l++) for (int j = 0; j < ND; j++) a[l].d[j] &= F448 ? (1ull << 61) - 1 : (j == ND - 1 ? (1ull << 55) - 1 : (1ull << 60) - 1);
          me->fastcarries(x, a); }});
    }
    u64 ns = T ? 512 : 48;
    v.push_back({"sequences" + nm, "breadth-first search over (a+-a')*(b+-b') sequences, depth " + std::to_string(T ? 6 : 4) + ", keeping the elements that reach a new maximum in some digit, from " + std::to_string(ns) + " seed sets", ns,
      [=](Ctx &x, u64 i) { me->search(x, i, T ? 6 : 4, T ? 48 : 24); }});
  }
};
#undef CALL
template <bool F448> int vec_main(int argc, char **argv, const char *prop) {
  vf::Check c; c.property = prop; c.level = "exploration";
  c.rule = "Every index of every listed space is executed with different data in every lane; each lane of each result is compared, as the integer its digits denote, with exact arithmetic modulo p. Cases are distinct operand tuples by construction; the operation-sequence states are deduplicated by digit vector.";
  c.assumptions = {"operands of a product are elements as deserialized/compressed, or one sum or difference of two such (for 2^448-2^224-1 at most one operand of a product is a difference)",
                   "carry propagation is explored for digits below 2^62, subtraction of products for digits below 2^60-2^36 (products of two compressed elements stay below 2^59.5)"};
  static VecCk<F448> *w[3] = {new VecCk<F448>(1), new VecCk<F448>(2), new VecCk<F448>(4)};
  for (auto *k : w) k->sections(c.sections);
  return vf::run(argc, argv, c);
}
