// C05: encodings, comparison, sign and conditional move are canonical.
#include "field_vec.h"

template <bool F448> struct Codec {
  static const int N = F448 ? 7 : 4, BY = F448 ? 56 : 32, ND = F448 ? 16 : 10;
  typedef std::array<u64, N> E;
  VecCk<F448> *w[3];
  const char *fn = F448 ? "Fp448" : "Fp25519";
  std::vector<E> vals, few;
  std::vector<Dig> digs;
  const PrimeField &F() const { return F448 ? Fp448 : Fp25519; }
  const Curve &c() const { return F448 ? c448() : c25519(); }
  E fromZ(const Z &z) const { E e; e.fill(0); z.le_out((u8 *)e.data(), BY); return e; }
  E canon(const E &e) const { return w[0]->mod(e.data(), N); }
  static std::string h(const E &e) { return hex(e.data(), BY); }

  Codec() {
    w[0] = new VecCk<F448>(1); w[1] = new VecCk<F448>(2); w[2] = new VecCk<F448>(4);
    std::set<E> s;
    Z top = Z::pow2(8 * BY);
    int span = vf::thorough() ? 5000 : 260;
    for (int k = 0; k <= 2; k++) for (int i = -span; i <= span; i++) {
      Z z = c().p * Z(k) + Z(i); if (z < Z(0) || z >= top) continue; s.insert(fromZ(z)); }
    for (int i = 1; i <= span; i++) s.insert(fromZ(top - Z(i)));
    for (int i = -20; i <= 20; i++) { Z z = Z::pow2(8 * BY - 1) + Z(i); s.insert(fromZ(z)); if (F448) { s.insert(fromZ(Z::pow2(224) + Z(i))); s.insert(fromZ(top - Z::pow2(224) + Z(i))); s.insert(fromZ(top - Z::pow2(225) + Z(i))); } }
    for (int b = 0; b < 8 * BY; b++) { Z q = Z::pow2(b); s.insert(fromZ(q)); s.insert(fromZ(top - Z(1) - q)); s.insert(fromZ(q - Z(1)));
      E e = fromZ(c().p); e[b / 64] ^= 1ull << b % 64; s.insert(e); e = fromZ(c().p - Z(1)); e[b / 64] ^= 1ull << b % 64; s.insert(e); }
    // limb corners
    static const u64 V[4] = {0, 1, ~0ull, ~0ull - 1}; int kk = F448 ? 2 : 4; u64 nn = 1; for (int i = 0; i < N; i++) nn *= kk;
    for (u64 i = 0; i < nn; i++) { E e; u64 t = i; for (int j = 0; j < N; j++) { e[j] = F448 ? (t % 2 ? ~0ull : 0) : V[t % 4]; t /= kk; } s.insert(e); }
    for (u64 i = 0; i < 64; i++) { Bytes b = gen("codec", i, BY); E e; memcpy(e.data(), b.data(), BY); s.insert(e); }
    vals.assign(s.begin(), s.end());
    std::set<E> f;
    for (int k = 0; k <= 2; k++) for (int i = -3; i <= 3; i++) { Z z = c().p * Z(k) + Z(i); if (!(z < Z(0)) && z < top) f.insert(fromZ(z)); }
    for (int i = 1; i <= 3; i++) f.insert(fromZ(top - Z(i)));
    for (u64 i = 0; i < 6; i++) { Bytes b = gen("codec", i, BY); E e; memcpy(e.data(), b.data(), BY); f.insert(e); f.insert(canon(e)); }
    few.assign(f.begin(), f.end());
    auto P = w[0]->patterns(false), V2 = w[0]->values(), H = w[0]->onehot();
    digs = P; digs.insert(digs.end(), V2.begin(), V2.end()); digs.insert(digs.end(), H.begin(), H.end());
  }
  void bad(Ctx &x, const std::string &k, const std::string &d) const { x.fail(k + "-" + fn, d); }

  // ---- the 64-bit representation ---------------------------------------------------
  void full1(Ctx &x, const E &e) const {
    auto &A = F()._1w_full.arith;
    struct alignas(64) S { u64 v[N + 9]; } a, b; E cn = canon(e);
    memset(&b, 0x5a, sizeof b); memcpy(a.v, e.data(), BY);
    A.misc.ser((u8 *)b.v, a.v);
    if (memcmp(b.v, cn.data(), BY)) bad(x, "ser-1w_full", "ser(" + h(e) + ") -> " + hex(b.v, BY));
    if (b.v[N] != 0x5a5a5a5a5a5a5a5aull) bad(x, "ser-overrun", h(e));
    { E t; memcpy(t.data(), a.v, BY); if (canon(t) != cn) bad(x, "ser-changes-value", h(e)); }
    u8 in[64]; memcpy(in, e.data(), BY); memset(&b, 0x5a, sizeof b);
    A.misc.unser(b.v, in);
    { E t; memcpy(t.data(), b.v, BY); if (canon(t) != cn) bad(x, "unser-1w_full", h(e)); }
    if (memcmp(in, e.data(), BY)) bad(x, "unser-changes-input", h(e));
    u8 out[64]; A.misc.ser(out, b.v); if (memcmp(out, cn.data(), BY)) bad(x, "unser-ser-1w_full", h(e));
    memcpy(a.v, e.data(), BY); int s = A.sgn(a.v);
    if (s != (int)(cn[0] & 1)) bad(x, "sgn-1w_full", "sgn(" + h(e) + ") -> " + std::to_string(s));
    { E t; memcpy(t.data(), a.v, BY); if (canon(t) != cn) bad(x, "sgn-changes-value", h(e)); }
    x.eval(5); x.distinct(1);
    if (x.want_sample()) x.sample(std::string(fn) + " ser(" + h(e) + ")=" + hex(out, BY));
  }
  void full2(Ctx &x, const E &e, const E &f) const {
    auto &A = F()._1w_full.arith;
    struct alignas(64) S { u64 v[N + 9]; } a, b, r; E ce = canon(e), cf = canon(f);
    memcpy(a.v, e.data(), BY); memcpy(b.v, f.data(), BY);
    int q = A.cmp(a.v, b.v);
    if ((q == 0) != (ce == cf)) bad(x, "cmp-1w_full", "cmp(" + h(e) + "," + h(f) + ") -> " + std::to_string(q));
    E t; memcpy(t.data(), a.v, BY); bool ok = canon(t) == ce; memcpy(t.data(), b.v, BY); ok &= canon(t) == cf;
    if (!ok) bad(x, "cmp-changes-value", h(e) + " " + h(f));
    for (int bit = 0; bit < 2; bit++) for (int al = 0; al < 3; al++) {
      memcpy(a.v, e.data(), BY); memcpy(b.v, f.data(), BY); memset(&r, 0x5a, sizeof r);
      u64 *d = al == 0 ? r.v : al == 1 ? a.v : b.v;
      A.cmv(bit, d, a.v, b.v);
      if (memcmp(d, bit ? f.data() : e.data(), BY)) bad(x, "cmv-1w_full", "cmv(" + std::to_string(bit) + "," + h(e) + "," + h(f) + ") alias " + std::to_string(al) + " -> " + hex(d, BY));
      if (al == 0 && r.v[N] != 0x5a5a5a5a5a5a5a5aull) bad(x, "cmv-overrun", h(e)); }
    x.eval(7); x.distinct(1);
  }
  // ---- reduced radix -----------------------------------------------------------------
  void bytesred(Ctx &x, const E &e, const E *other) const {
    for (int k = 0; k < 3; k++) { auto &V = *w[k]; int W = V.W;
      u8 in[4 * 56 + 8], keep[sizeof in], out[4 * 56 + 8]; memset(in, 0x33, sizeof in);
      for (int l = 0; l < W; l++) memcpy(in + l * BY, (l ? other[l - 1] : e).data(), BY);
      memcpy(keep, in, sizeof in);
      for (int rot = 0; rot < W; rot++) {
        Vec v; memset(&v, 0x5a, sizeof v); V.unser(v, in);
        if (memcmp(in, keep, sizeof in)) bad(x, "unser-changes-input", h(e));
        if (v.s[V.used() / 8] != 0x5a5a5a5a5a5a5a5aull) bad(x, std::string("unser-overrun-") + V.name, h(e));
        for (int l = 0; l < W; l++) { E t; memcpy(t.data(), in + l * BY, BY); Dig d = V.get(v, l);
          if (V.val(d) != canon(t)) bad(x, std::string("unser-") + V.name, "lane " + std::to_string(l) + " unser(" + h(t) + ") -> " + V.str(d));
          for (int i = 0; i < ND; i++) if (d.d[i] > V.mask(i)) bad(x, std::string("unser-digits-") + V.name, h(t)); }
        memset(out, 0x5a, sizeof out); V.ser(out, v);
        for (int l = 0; l < W; l++) { E t; memcpy(t.data(), in + l * BY, BY); if (memcmp(out + l * BY, canon(t).data(), BY)) bad(x, std::string("unser-ser-") + V.name, "lane " + std::to_string(l) + " " + h(t) + " -> " + hex(out + l * BY, BY)); }
        if (out[W * BY] != 0x5a) bad(x, std::string("ser-overrun-") + V.name, h(e));
        x.eval(W);
        // move the value of interest to the next lane
        if (W > 1) { u8 t[56]; memcpy(t, in + (W - 1) * BY, BY); memmove(in + BY, in, (W - 1) * BY); memcpy(in, t, BY); memcpy(keep, in, sizeof in); }
      } }
    x.distinct(1); }
  void serdigits(Ctx &x, const VecCk<F448> &V, const Dig *a, const char *what) const {
    int W = V.W; Vec v = V.load(a), s = v; u8 out[4 * 56 + 8]; memset(out, 0x5a, sizeof out);
    V.ser(out, v);
    for (int l = 0; l < W; l++) if (memcmp(out + l * BY, V.val(a[l]).data(), BY)) bad(x, std::string("ser-") + what + "-" + V.name, "lane " + std::to_string(l) + " ser(" + V.str(a[l]) + ") -> " + hex(out + l * BY, BY));
    if (out[W * BY] != 0x5a) bad(x, std::string("ser-overrun-") + V.name, V.str(a[0]));
    if (memcmp(&s, &v, V.used())) bad(x, std::string("ser-changes-element-") + V.name, V.str(a[0]));
    sgn(x, V, a, what); x.eval(W); }
  void sgn(Ctx &x, const VecCk<F448> &V, const Dig *a, const char *what) const {
    if (F448) return;
    Vec v = V.load(a);
    if (V.W == 1) { int s = F()._1w_red.arith.sgn(v.s); if (s != (int)(V.val(a[0])[0] & 1)) bad(x, std::string("sgn-") + what + "-1w", V.str(a[0])); x.eval(1); }
    if (V.W == 2) { alignas(32) u64 s[4]; _mm256_store_si256((__m256i *)s, F()._2w_red.arith.sgn((__m256i *)v.s));
      for (int l = 0; l < 2; l++) if (s[2 * l] != (V.val(a[l])[0] & 1)) bad(x, std::string("sgn-") + what + "-2w", "lane " + std::to_string(l) + " " + V.str(a[l])); x.eval(2); } }
  // per lane: 1 = differ
  void cmp(Ctx &x, const VecCk<F448> &V, const Dig *a, const Dig *b, const char *what) const {
    Vec va = V.load(a), vb = V.load(b), sa = va, sb = vb; alignas(32) u64 s[4] = {0};
    if (V.W == 1) s[0] = (u64)(int64_t)F()._1w_red.arith.cmp(va.s, vb.s);
    else _mm256_store_si256((__m256i *)s, V.W == 2 ? F()._2w_red.arith.cmp((__m256i *)va.s, (__m256i *)vb.s) : F()._4w_red.arith.cmp((__m256i *)va.s, (__m256i *)vb.s));
    for (int l = 0; l < V.W; l++) { u64 r = V.W == 2 ? s[2 * l] : s[l]; bool d = V.val(a[l]) != V.val(b[l]);
      if ((r != 0) != d) bad(x, std::string("cmp-") + what + "-" + V.name, "lane " + std::to_string(l) + " cmp(" + V.str(a[l]) + "," + V.str(b[l]) + ") -> " + (r ? "different" : "equal")); }
    if (memcmp(&sa, &va, V.used()) || memcmp(&sb, &vb, V.used())) bad(x, std::string("cmp-changes-element-") + V.name, V.str(a[0]));
    x.eval(V.W); }
  void cmv(Ctx &x, const Dig *a, const Dig *b) const {
    if (F448) return;
    for (int k = 0; k < 2; k++) { auto &V = *w[k];
      for (int bits = 0; bits < 1 << V.W; bits++) for (int al = 0; al < 3; al++) {
        Vec va = V.load(a), vb = V.load(b), r, sa = va, sb = vb; memset(&r, 0x5a, sizeof r);
        Vec &d = al == 0 ? r : al == 1 ? va : vb;
        if (V.W == 1) F()._1w_red.arith.cmv(bits, d.s, va.s, vb.s);
        else { __m256i m = _mm256_set_epi64x(0, bits >> 1, 0, bits & 1); F()._2w_red.arith.cmv(m, (__m256i *)d.s, (__m256i *)va.s, (__m256i *)vb.s); }
        for (int l = 0; l < V.W; l++) { Dig want = bits >> l & 1 ? V.get(sb, l) : V.get(sa, l); if (!(V.get(d, l) == want)) bad(x, std::string("cmv-") + V.name, "bits " + std::to_string(bits) + " lane " + std::to_string(l) + " alias " + std::to_string(al) + " " + V.str(a[l]) + " " + V.str(b[l]) + " -> " + V.str(V.get(d, l))); }
        if (al == 0 && (memcmp(&sa, &va, V.used()) || memcmp(&sb, &vb, V.used()))) bad(x, std::string("cmv-changes-operand-") + V.name, V.str(a[0]));
        if (al == 0 && r.s[V.used() / 8] != 0x5a5a5a5a5a5a5a5aull) bad(x, std::string("cmv-overrun-") + V.name, V.str(a[0]));
        x.eval(V.W); } } }

  Dig pd(int k) const { Dig d = w[0]->fromE(fromZ(c().p)); for (int i = 0; i < ND; i++) d.d[i] *= k; return d; }
  // the same residue written differently, number k
  Dig respell(const Dig &a, int k) const {
    Dig d = a;
    if (k < 4) { Dig q = pd(k); for (int i = 0; i < ND; i++) d.d[i] += q.d[i]; return d; }
    k -= 4;
    if (k < ND) { // borrow one unit of digit k+1 into digit k (all digits made positive with 2p first)
      Dig q = pd(4); for (int i = 0; i < ND; i++) d.d[i] += q.d[i];
      if (k + 1 < ND) { d.d[k + 1] -= 1; d.d[k] += w[0]->mask(k) + 1; }
      return d; }
    k -= ND;
    // everything carried into the bottom digits: add multiples 2^20 of p
    Dig q = pd(1); for (int i = 0; i < ND; i++) d.d[i] += q.d[i] << (10 + 4 * k); return d; }
  static const int NSPELL = 4 + ND + 7;

  void sections(std::vector<Section> &v) {
    auto *me = this; std::string sx = std::string("-") + fn;
    v.push_back({"full-values" + sx, "ser, unser, sgn of the 64-bit representation on values around multiples of p, around 2^n, one-bit patterns on 0, p-1, p, all-ones, limb corners", vals.size(), [=](Ctx &x, u64 i) { me->full1(x, me->vals[i]); }});
    v.push_back({"full-pairs" + sx, "cmp and cmv (all aliasings) on pairs: every value against itself plus/minus p, every single-bit neighbour, and the special values", vals.size(), [=](Ctx &x, u64 i) {
        const E &e = me->vals[i]; me->full2(x, e, e);
        for (auto &f : me->few) me->full2(x, e, f);
        Z z = Z::le(e.data(), BY); for (int k = -2; k <= 2; k++) { Z q = z + me->c().p * Z(k); if (!(q < Z(0)) && q < Z::pow2(8 * BY)) me->full2(x, e, me->fromZ(q)); }
        if (i % (vf::thorough() ? 8 : 16) == 0) for (int b = 0; b < 8 * BY; b++) { E f = e; f[b / 64] ^= 1ull << b % 64; me->full2(x, e, f); } }});
    v.push_back({"vector-bytes" + sx, "unser and unser-then-ser in the one-, two- and four-lane representations, the value of interest moved through every lane", vals.size(), [=](Ctx &x, u64 i) {
        E o[3] = {me->vals[(i * 7 + 1) % me->vals.size()], me->few[i % me->few.size()], me->vals[(i + 13) % me->vals.size()]}; me->bytesred(x, me->vals[i], o); }});
    v.push_back({"vector-forms" + sx, "ser and sgn of every digit pattern and special element in every internal form (plain, plus/minus the largest element, minus zero, negated, and the unreduced product with itself)", digs.size(), [=](Ctx &x, u64 i) {
        for (int k = 0; k < 3; k++) { auto &V = *me->w[k]; Dig a[4]; for (int l = 0; l < V.W; l++) a[l] = me->digs[(i + l * 101) % me->digs.size()];
          static const char *fnm[] = {"plain", "sum", "difference", "minus-zero", "negated"};
          for (int f = 0; f < VecCk<F448>::NFORMS; f++) { Vec t = V.form(V.load(a), (typename VecCk<F448>::Form)f); Dig d[4]; for (int l = 0; l < V.W; l++) d[l] = V.get(t, l); me->serdigits(x, V, d, fnm[f]); }
          Vec p = V.load(a), q = p, r; V.mul(r, p, q); Dig d[4]; for (int l = 0; l < V.W; l++) d[l] = V.get(r, l); me->serdigits(x, V, d, "product");
          V.intmul(r, p, q); for (int l = 0; l < V.W; l++) d[l] = V.get(r, l); me->serdigits(x, V, d, "unreduced-product");
          V.compress(r); for (int l = 0; l < V.W; l++) d[l] = V.get(r, l); me->serdigits(x, V, d, "compressed"); }
        x.distinct(1); }});
    v.push_back({"vector-respelled" + sx, "equality, sign and encoding of every element against other digit vectors for the same residue (multiples of p added, units borrowed between neighbouring digits, large digits)", digs.size(), [=](Ctx &x, u64 i) {
        for (int s = 0; s < NSPELL; s++) for (int k = 0; k < 3; k++) { auto &V = *me->w[k];
          for (int pos = 0; pos < V.W; pos++) { if (pos && (i + s) % 4) continue; Dig a[4], b[4]; for (int l = 0; l < V.W; l++) { a[l] = me->digs[(i + l * 57) % me->digs.size()]; b[l] = l == pos ? me->respell(a[l], s) : me->digs[(i + l * 57 + 1) % me->digs.size()]; }
            me->cmp(x, V, a, b, "respelled"); me->cmp(x, V, b, a, "respelled"); me->serdigits(x, V, b, "respelled"); } }
        x.distinct(1); }});
    // volume: generic residues and generic digits of every size, and near-misses in comparison
    u64 nv = vf::thorough() ? 200000 : 6000;
    v.push_back({"counter-elements" + sx, std::to_string(nv * 32) + " generic elements: 64-bit forms, vector forms with digits of every size below 2^62, the same residue respelled, and different residues next to it", nv, [=](Ctx &x, u64 i) {
        u64 st = i * 0x9e3779b97f4a7c15ull + 5; auto rnd = [&] { st += 0x9e3779b97f4a7c15ull; u64 z = st; z = (z ^ z >> 30) * 0xbf58476d1ce4e5b9ull; z = (z ^ z >> 27) * 0x94d049bb133111ebull; return z ^ z >> 31; };
        for (int r = 0; r < 32; r++) { E e, o[3]; for (auto &w : e) w = rnd(); for (auto &q : o) for (auto &w : q) w = rnd(); if (r % 4 == 1) e[N - 1] |= ~0ull << rnd() % 64; if (r % 4 == 2) for (int k = 1; k < N; k++) e[k] = ~0ull; me->full1(x, e); me->full2(x, e, r % 3 == 0 ? me->canon(e) : o[0]); { E f = e; u64 b = rnd() % (8 * BY); f[b / 64] ^= 1ull << b % 64; me->full2(x, e, f); } if (r % 4 == 0) me->bytesred(x, e, o);
          for (int k = 0; k < 3; k++) { auto &V = *me->w[k]; Dig a[4], b[4]; unsigned sz = 25 + rnd() % 38, sp = rnd() % NSPELL; for (int l = 0; l < V.W; l++) { memset(&a[l], 0, sizeof(Dig)); for (int j = 0; j < ND; j++) { u64 w = rnd(), top = 1ull << std::min(sz, 62u); a[l].d[j] = w % 9 == 0 ? 0 : w % 9 == 1 ? top - 1 : w >> 3 & (top - 1); } }
            me->serdigits(x, V, a, "generic"); for (int l = 0; l < V.W; l++) { E q; for (auto &w : q) w = rnd(); a[l] = V.fromE(me->canon(q)); b[l] = rnd() % 2 ? me->respell(a[l], sp) : V.fromE(me->canon(o[l % 3])); } me->cmp(x, V, a, b, "generic"); me->serdigits(x, V, b, "generic"); } } }});
    v.push_back({"vector-one-bit" + sx, "comparison of every element of a set with each of its single-bit neighbours, the differing lane moved through every lane", 16 * 8 * (u64)BY, [=](Ctx &x, u64 i) {
        u64 b = i % (8 * BY), q = i / (8 * BY); Dig a0 = q < me->few.size() ? me->w[0]->fromE(me->canon(me->few[q])) : me->digs[q * 31];
        E e; e.fill(0); e[b / 64] = 1ull << b % 64; Dig bit = me->w[0]->fromE(e), b0 = a0; bool z = true; for (int k = 0; k < ND; k++) z &= bit.d[k] == 0; if (z) bit.d[0] = F448 ? 1 : 19;
        for (int k = 0; k < ND; k++) b0.d[k] ^= bit.d[k];
        for (int k = 0; k < 3; k++) { auto &V = *me->w[k]; for (int pos = 0; pos < V.W; pos++) { Dig a[4], c[4]; for (int l = 0; l < V.W; l++) { a[l] = a0; c[l] = l == pos ? b0 : a0; }
          me->cmp(x, V, a, c, "one-bit"); me->cmp(x, V, c, a, "one-bit"); } }
        x.distinct(1); }});
    v.push_back({"vector-cmv" + sx, "conditional move in the one- and two-lane representations: every combination of bits, every aliasing", F448 ? 0 : digs.size(), [=](Ctx &x, u64 i) {
        Dig a[4], b[4]; for (int l = 0; l < 2; l++) { a[l] = me->digs[(i + 3 * l) % me->digs.size()]; b[l] = me->digs[(i * 7 + 5 + l) % me->digs.size()]; } me->cmv(x, a, b); x.distinct(1); }});
    if (F448) v.pop_back();
  }
};
int main(int argc, char **argv) {
  vf::Check c; c.property = "C05"; c.level = "exploration";
  c.rule = "Every index of every listed space is executed; encodings, comparisons and signs are judged against the canonical residue computed with GMP, conditional moves against the selected element. Cases are distinct operands by construction.";
  c.assumptions = {"digits of unreduced forms are below 2^62 and not negative, as every operation of the library leaves them"};
  static Codec<false> a; static Codec<true> b; a.sections(c.sections); b.sections(c.sections);
  return vf::run(argc, argv, c);
}
