// C06: inversion and square roots satisfy their defining equations.
#include "field_vec.h"

template <bool F448> struct Roots {
  static const int N = F448 ? 7 : 4, BY = F448 ? 56 : 32, ND = F448 ? 16 : 10;
  typedef std::array<u64, N> E;
  const char *fn = F448 ? "Fp448" : "Fp25519";
  VecCk<F448> V1{1}, V4{4};
  std::vector<E> vals, ns;            // internal 64-bit forms; operands of quotients
  std::vector<E> cls;                 // representatives of the quartic characters
  E one, zero;
  const PrimeField &F() const { return F448 ? Fp448 : Fp25519; }
  const Curve &c() const { return F448 ? c448() : c25519(); }
  E fromZ(const Z &z) const { E e; e.fill(0); z.le_out((u8 *)e.data(), BY); return e; }
  E canon(const E &e) const { return V1.mod(e.data(), N); }
  E mul(const E &a, const E &b) const { return V1.mulE(a, b); }
  static std::string h(const E &e) { return hex(e.data(), BY); }
  bool square(const E &e) const { return mpz_legendre(Z::le(e.data(), BY).v, c().p.v) >= 0; }

  Roots() {
    zero.fill(0); one = zero; one[0] = 1;
    std::set<E> s; Z top = Z::pow2(8 * BY); int span = vf::thorough() ? 100000 : 8000;
    for (int k = 0; k <= 2; k++) for (int i = -span; i <= span; i++) { if (k == 2 && i > 60) break; Z z = c().p * Z(k) + Z(i); if (z < Z(0) || z >= top) continue; s.insert(fromZ(z)); }
    for (int i = 1; i <= 64; i++) s.insert(fromZ(top - Z(i)));
    for (int b = 0; b < 8 * BY; b++) for (int i = -1; i <= 1; i++) { s.insert(fromZ((Z::pow2(b) + Z(i)) % top)); s.insert(fromZ(top - Z(1) - Z::pow2(b))); s.insert(fromZ(ref::invm((Z::pow2(b) + Z(i)) % c().p, c().p))); }
    u64 nn = 1ull << N; static const u64 V[3] = {0, ~0ull, 1}; for (int i = 0; !F448 && i < N; i++) nn = nn * 3 / 2;
    for (u64 i = 0; i < nn; i++) { E e; u64 t = i; for (int j = 0; j < N; j++) { e[j] = V[t % (F448 ? 2 : 3)]; t /= F448 ? 2 : 3; } s.insert(e); }
    for (u64 i = 0; i < 200; i++) { Bytes b = gen("root", i, BY); E e; memcpy(e.data(), b.data(), BY); s.insert(e); }
    vals.assign(s.begin(), s.end());
    std::set<E> q; int sm = vf::thorough() ? 1500 : 300;
    for (int i = 0; i <= sm; i++) { q.insert(fromZ(Z(i))); q.insert(fromZ(c().p - Z(1) - Z(i % 32))); if (i < 19) q.insert(fromZ(c().p + Z(i))); }
    for (int b = 8; b < 8 * BY; b += 13) { q.insert(fromZ(Z::pow2(b))); q.insert(fromZ(top - Z::pow2(b))); }
    for (u64 i = 0; i < 24; i++) { Bytes b = gen("quot", i, BY); E e; memcpy(e.data(), b.data(), BY); q.insert(e); }
    ns.assign(q.begin(), q.end());
    if (!F448) { Z e = (c().p - Z(1)); mpz_fdiv_q_2exp(e.v, e.v, 2); std::set<std::string> seen; for (int i = 1; cls.size() < 4; i++) { Z r = ref::powm(Z(i), e, c().p); if (seen.insert(r.str()).second) cls.push_back(fromZ(Z(i))); } }
  }
  void bad(Ctx &x, const std::string &k, const std::string &d) const { x.fail(k + "-" + fn, d); }
  E valfull(const u64 *v) const { E e; memcpy(e.data(), v, BY); return canon(e); }

  // judge r = 1/a
  bool isinv(const E &a, const E &r) const { E ca = canon(a); return ca == zero ? canon(r) == zero : mul(ca, r) == one; }
  bool isroot(const E &n, const E &d, const E &r) const {
    E cn = canon(n), cd = canon(d); if (cd == zero) return true;
    if (!square(mul(cn, cd))) return true;       // n/d square iff n*d square
    return mul(cd, mul(r, r)) == cn; }

  void inv_full(Ctx &x, const E &a) const {
    struct alignas(64) S { u64 v[N + 9]; } A, C; memcpy(A.v, a.data(), BY); memset(&C, 0x5a, sizeof C);
    F()._1w_full.arith.inv(C.v, A.v); E r = valfull(C.v);
    if (!isinv(a, r)) bad(x, "inv-1w_full", "inv(" + h(a) + ") -> " + hex(C.v, BY));
    if (C.v[N] != 0x5a5a5a5a5a5a5a5aull) bad(x, "inv-overrun", h(a));
    if (valfull(A.v) != canon(a)) bad(x, "inv-changes-operand", h(a));
    x.eval(); x.distinct(1); if (x.want_sample()) x.sample(std::string(fn) + " inv(" + h(a) + ")=" + h(r)); }
  void inv_red(Ctx &x, const Dig &a) const {
    for (int f = 0; f < VecCk<F448>::NFORMS; f++) {
      if (F448 && VecCk<F448>::loose((typename VecCk<F448>::Form)f)) continue;    // not an operand of a squaring
      Vec v = V1.form(V1.load(&a), (typename VecCk<F448>::Form)f), s = v, r; E e = V1.val(V1.get(v, 0));
      F()._1w_red.arith.inv(r.s, v.s); Dig d = V1.get(r, 0);
      if (!isinv(e, V1.val(d))) bad(x, "inv-1w_red", "inv(" + V1.str(V1.get(s, 0)) + ") -> " + V1.str(d));
      if (V1.val(V1.get(v, 0)) != e) bad(x, "inv-changes-operand-1w_red", V1.str(V1.get(s, 0)));
      x.eval(); }
    x.distinct(1); }
  void invroot_red(Ctx &x, const Dig &a) const {     // 448 only: a*c^2 = 1 for square a
    for (int f = 0; f < 2; f++) {
      Vec v = V1.form(V1.load(&a), (typename VecCk<F448>::Form)f), s = v, r; E e = V1.val(V1.get(v, 0));
      F()._1w_red.arith.srt(r.s, v.s); Dig d = V1.get(r, 0); E g = V1.val(d);
      bool ok = e == zero || !square(e) || mul(e, mul(g, g)) == one;
      if (!ok) bad(x, "inverse-root-1w_red", "srt(" + V1.str(V1.get(s, 0)) + ") -> " + V1.str(d));
      x.eval(); }
    x.distinct(1); }
  void root_full(Ctx &x, const E &n, const E &d) const {
    struct alignas(64) S { u64 v[N + 9]; } D, C; memset(&C, 0x5a, sizeof C); memcpy(C.v, n.data(), BY); memcpy(D.v, d.data(), BY);
    F()._1w_full.arith.srt(C.v, D.v);
    if (!isroot(n, d, valfull(C.v))) bad(x, "srt-1w_full", "sqrt(" + h(n) + " / " + h(d) + ") -> " + hex(C.v, BY));
    if (C.v[N] != 0x5a5a5a5a5a5a5a5aull) bad(x, "srt-overrun", h(n));
    if (valfull(D.v) != canon(d)) bad(x, "srt-changes-denominator", h(d));
    x.eval(); x.distinct(1); if (x.want_sample()) x.sample("sqrt(" + h(n) + "/" + h(d) + ")=" + hex(C.v, BY)); }
  void root_red(Ctx &x, const Dig &n, const Dig &d, int fn_, int fd) const {
    Vec c = V1.form(V1.load(&n), (typename VecCk<F448>::Form)fn_), v = V1.form(V1.load(&d), (typename VecCk<F448>::Form)fd), sc = c;
    E en = V1.val(V1.get(c, 0)), ed = V1.val(V1.get(v, 0));
    F()._1w_red.arith.srt(c.s, v.s); Dig r = V1.get(c, 0);
    if (!isroot(en, ed, V1.val(r))) bad(x, "srt-1w_red", "sqrt(" + V1.str(V1.get(sc, 0)) + " / " + V1.str(d) + " form " + std::to_string(fd) + ") -> " + V1.str(r));
    if (V1.val(V1.get(v, 0)) != ed) bad(x, "srt-changes-denominator-1w_red", V1.str(d));
    x.eval(); x.distinct(1); }
  void root_4w(Ctx &x, const Dig *n, const Dig *d, int fn_, int fd) const {
    Vec c = V4.form(V4.load(n), (typename VecCk<F448>::Form)fn_), v = V4.form(V4.load(d), (typename VecCk<F448>::Form)fd); E en[4], ed[4];
    for (int l = 0; l < 4; l++) { en[l] = V4.val(V4.get(c, l)); ed[l] = V4.val(V4.get(v, l)); }
    F()._4w_red.arith.srt((__m256i *)c.s, (__m256i *)v.s);
    for (int l = 0; l < 4; l++) { Dig r = V4.get(c, l); if (!isroot(en[l], ed[l], V4.val(r))) bad(x, "srt-4w_red", "lane " + std::to_string(l) + " sqrt(" + h(en[l]) + " / " + h(ed[l]) + ") -> " + V4.str(r));
      if (V4.val(V4.get(v, l)) != ed[l]) bad(x, "srt-changes-denominator-4w_red", h(ed[l])); }
    x.eval(4); x.distinct(1); }
  Dig dg(const E &e) const { return V1.fromE(canon(e)); }

  void sections(std::vector<Section> &v) {
    auto *me = this; std::string sx = std::string("-") + fn;
    v.push_back({"inv-full" + sx, "inverses of residues next to 0, p, 2p and 2^n, of powers of two and neighbours, their inverses, limb corners, generic values", vals.size(), [=](Ctx &x, u64 i) { me->inv_full(x, me->vals[i]); }});
    auto D = std::make_shared<std::vector<Dig>>(); for (auto &e : vals) D->push_back(dg(e)); for (auto &d : V1.patterns(false)) D->push_back(d); for (auto &d : V1.values()) D->push_back(d); for (auto &d : V1.onehot()) D->push_back(d);
    // volume: rare carries show only in many generic values
    u64 nv = vf::thorough() ? 200000 : 4000;
    v.push_back({"counter-elements" + sx, std::to_string(nv * 32) + " generic elements: inverse in both representations, square roots of generic quotients in all representations", nv, [=](Ctx &x, u64 i) {
        Bytes b = gen("c06", i, 64 * BY); E e[64]; for (int k = 0; k < 64; k++) memcpy(e[k].data(), &b[k * BY], BY);
        for (int k = 0; k < 32; k++) { me->inv_full(x, e[k]); Dig d = me->dg(e[k]); me->inv_red(x, d); if (F448) { E q = me->canon(e[k]); me->invroot_red(x, me->dg(me->mul(q, q))); } }
        if (!F448) { for (int k = 0; k < 32; k++) { E w = me->canon(e[32 + k]), q = me->mul(me->canon(e[k]), me->canon(e[k])), n = me->mul(q, w); me->root_full(x, k % 2 ? n : e[k], e[32 + k]); me->root_red(x, me->dg(n), me->dg(e[32 + k]), k % 5, i % 5); }
          for (int k = 0; k < 8; k++) { Dig a[4], d[4]; for (int l = 0; l < 4; l++) { E w = me->canon(e[4 * k + l]), u = me->canon(e[32 + 4 * k + l]); d[l] = me->dg(w); a[l] = me->dg(me->mul(me->mul(u, u), w)); } me->root_4w(x, a, d, k % 5, i % 5); } } }});
    v.push_back({"inv-red" + sx, "the same residues and all digit patterns in the reduced-radix representation, in every form a squaring accepts", D->size(), [=](Ctx &x, u64 i) { me->inv_red(x, (*D)[i]); }});
    if (F448) { v.push_back({"inverse-root-red" + sx, "inverse square roots of the same elements", D->size(), [=](Ctx &x, u64 i) { me->invroot_red(x, (*D)[i]); }}); return; }
    u64 n = ns.size();
    v.push_back({"srt-full" + sx, "square roots of all quotients n/d of a set of special residues and unreduced values", n * n, [=](Ctx &x, u64 i) { me->root_full(x, me->ns[i % n], me->ns[i / n]); }});
    v.push_back({"srt-red" + sx, "the same quotients in the reduced radix; numerator and denominator rotate through every internal form", n * n, [=](Ctx &x, u64 i) { me->root_red(x, me->dg(me->ns[i % n]), me->dg(me->ns[i / n]), i % 5, i / 5 % 5); }});
    v.push_back({"srt-4w-characters" + sx, "every combination of quartic characters of the quotient over the four lanes, with several numerators and every internal form", 256 * 25 * 4, [=](Ctx &x, u64 i) {
        u64 j = i % 256; Dig a[4], b[4]; for (int l = 0; l < 4; l++) { E w = me->ns[(i / 256 * 37 + l * 11 + j) % n]; E q = me->mul(me->canon(w), me->cls[j >> 2 * l & 3]); a[l] = me->dg(q); b[l] = me->dg(w); }
        me->root_4w(x, a, b, i / 256 % 5, i / 1280 % 5); }});
    v.push_back({"srt-4w" + sx, "all quotients of the special residues, four different ones at a time", n * n, [=](Ctx &x, u64 i) {
        Dig a[4], b[4]; for (int l = 0; l < 4; l++) { a[l] = me->dg(me->ns[(i + l * 17) % n]); b[l] = me->dg(me->ns[(i / n + l * 29) % n]); } me->root_4w(x, a, b, i % 5, i / 5 % 5); }});
  }
};
int main(int argc, char **argv) {
  vf::Check c; c.property = "C06"; c.level = "exploration";
  c.rule = "Every index of every listed space is executed; each result is substituted in its defining equation, computed with GMP. Cases are distinct operands by construction.";
  c.assumptions = {"roots of quotients that are not squares are unspecified", "reduced-radix operands have a form the multiplication accepts"};
  static Roots<false> a; static Roots<true> b; a.sections(c.sections); b.sections(c.sections);
  return vf::run(argc, argv, c);
}
