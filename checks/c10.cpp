// C10: agreement between every pair of parties and variants; outputs are a
// function of the two inputs only.
#include "dh.h"
#include "faz_eddsa_avx2.h"
static Bytes pub(const Variant &v, const Bytes &k, u8 fill = 0xA5) { Buf o, s; memset(o.b, fill, sizeof o.b); memcpy(s.b, k.data(), k.size()); v.f->keygen(o, s); return Bytes(o.b, o.b + k.size()); }
static Bytes shr(const Variant &v, const Bytes &k, const Bytes &u, u8 fill = 0xA5) { Buf o, s, p; memset(o.b, fill, sizeof o.b); memcpy(s.b, k.data(), k.size()); memcpy(p.b, u.data(), u.size()); v.f->shared(o, p, s); return Bytes(o.b, o.b + k.size()); }

static std::vector<Bytes> secrets(size_t n, int m) {
  std::vector<Bytes> v; for (u64 i = 0; i < (u64)m; i++) v.push_back(secret(i, n));
  return v; }

// operations for histories: (index, input selector)
struct Op { int kind, var, a, b; };
int main(int argc, char **argv) {
  vf::Check c; c.property = "C10"; c.level = "exploration";
  c.rule = "All protocol runs of the listed finite spaces are executed on the built library; both ends must hold the same bytes, and the result of a call must not depend on what preceded it. Distinct: by construction of the index space.";
  c.assumptions = {"secrets come from the listed alphabets", "histories are sequences of calls in one thread (threads: C22)"};
  bool T = vf::thorough(); int m = T ? 300 : 120;
  static Dh d0(false), d1(true); d0.build_peers<false>(3); d1.build_peers<true>(3);
  for (int f = 0; f < 2; f++) {
    const Dh &d = f ? d1 : d0; auto K = std::make_shared<std::vector<Bytes>>(secrets(d.n, m)); u64 nv = d.vs.size(); const Dh *dp = &d; std::string sx = f ? "-448" : "-25519";
    c.sections.push_back({"agreement" + sx, "all ordered pairs of " + std::to_string(m) + " secrets x all variants for the two key generations and the two shared secrets", (u64)m * m * nv * nv * nv * nv, [=](Ctx &x, u64 i) {
      Dec q(i); auto &g1 = dp->vs[q(nv)], &g2 = dp->vs[q(nv)], &s1 = dp->vs[q(nv)], &s2 = dp->vs[q(nv)]; const Bytes &a = (*K)[q(m)], &b = (*K)[q(m)];
      Bytes A = pub(g1, a), B = pub(g2, b), sa = shr(s1, a, B), sb = shr(s2, b, A); x.eval(4); x.distinct(1);
      if (sa != sb) x.fail(std::string("disagree-") + s1.name + "-" + s2.name, "a=" + hx(a) + " b=" + hx(b) + " -> " + hx(sa) + " / " + hx(sb));
      if (x.want_sample()) x.sample("a=" + hx(a) + " b=" + hx(b) + " " + s1.name + "/" + s2.name + " -> " + hx(sa)); }});
    int m3 = T ? 24 : 12; auto *sp = &d.special;
    c.sections.push_back({"three-party" + sx, "shared(a, shared(b, u)) = shared(b, shared(a, u)) for all pairs of secrets and all special peers", (u64)m3 * m3 * sp->size() * nv, [=](Ctx &x, u64 i) {
      Dec q(i); auto &v = dp->vs[q(nv)], &w = dp->vs[nv - 1]; const Bytes &a = (*K)[q(m3)], &b = (*K)[q(m3)], &u = (*sp)[q(sp->size())];
      Bytes l = shr(v, a, shr(w, b, u)), r = shr(w, b, shr(v, a, u)); x.eval(4); x.distinct(1);
      if (l != r) x.fail(std::string("three-party-") + v.name, "a=" + hx(a) + " b=" + hx(b) + " u=" + hx(u)); }});
    int cb = f ? 3 : 5; u64 ns = T ? 60 : 20;
    c.sections.push_back({"ignored-bits" + sx, "every setting of the bits that clamping overrides (and, for 25519, of the top bit of the peer), with every special peer, leaves outputs unchanged", ns << (cb + 1), [=](Ctx &x, u64 i) {
      u64 w = i & ((2u << cb) - 1); Bytes k = gen("ig", i >> (cb + 1), dp->n), u = (*sp)[(i >> (cb + 1)) % sp->size()], k2 = k, u2 = u; size_t n = dp->n;
      if (f) { k2[0] ^= w & 3; k2[n - 1] ^= (w >> 2 & 1) << 7; } else { k2[0] ^= w & 7; k2[n - 1] ^= (w >> 3 & 3) << 6; u2[n - 1] ^= (w >> 5 & 1) << 7; }
      for (auto &v : dp->vs) { x.eval(4); if (pub(v, k) != pub(v, k2)) x.fail(std::string("keygen-ignored-bits-") + v.name, hx(k) + " " + hx(k2)); if (shr(v, k, u) != shr(v, k2, u2)) x.fail(std::string("shared-ignored-bits-") + v.name, hx(k) + " " + hx(k2) + " u=" + hx(u) + " " + hx(u2)); }
      x.distinct(1); }});
  }
  // ---- a call after one whose input differs in one bit ---------------------------------
  for (auto &v : VARIANTS) { u64 n = v.is448 ? 56 : 32; const Variant *vp = &v; u64 nb = T ? 6 : 2;
    c.sections.push_back({std::string("one-bit-neighbours-") + v.name, "key generation and shared secret right after the same call with one bit of the secret or of the peer key changed, every bit, and the first call again, against the reference model", 16 * n * nb, [=](Ctx &x, u64 i) {
      u64 f = i % (16 * n), b = i / (16 * n); const Curve &cc = vp->is448 ? c448() : c25519(); Bytes k = gen("obk", b, n), u = gen("obu", b, n), k2 = k, u2 = u; (f < 8 * n ? k2[f / 8] : u2[f / 8 - n]) ^= 1 << f % 8; std::string in = std::string(vp->name) + " k=" + hx(k) + " u=" + hx(u) + " bit " + std::to_string(f);
      static std::map<std::pair<bool, u64>, std::pair<Bytes, Bytes>> base; auto &e = base[{vp->is448, b}]; if (e.first.empty()) { e.first.resize(n); e.second.resize(n); ref::xdh(cc, k.data(), u.data(), e.first.data()); ref::xdh_base(cc, k.data(), e.second.data()); }
      Bytes w(n), wk(n); ref::xdh(cc, k2.data(), u2.data(), w.data()); x.about("%s", in.c_str());
      if (shr(*vp, k, u) != e.first) x.fail(std::string("shared-") + vp->name, in); if (shr(*vp, k2, u2) != w) x.fail(std::string("shared-after-neighbour-") + vp->name, in); if (shr(*vp, k, u) != e.first) x.fail(std::string("shared-after-neighbour-") + vp->name, "back to " + in); x.eval(3); x.distinct(1);
      if (f < 8 * n) { ref::xdh_base(cc, k2.data(), wk.data()); if (pub(*vp, k) != e.second) x.fail(std::string("keygen-") + vp->name, in); if (pub(*vp, k2) != wk) x.fail(std::string("keygen-after-neighbour-") + vp->name, in); x.eval(2); } }});
  }
  // ---- histories ---------------------------------------------------------------------
  static std::vector<Op> ops; for (int v = 0; v < 3; v++) { for (int a = 0; a < 2; a++) ops.push_back({0, v, a, 0}); for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) if (a == b || v != 1) ops.push_back({1, v, a, b}); }
  ops.push_back({2, 0, 0, 0}); ops.push_back({2, 1, 0, 0}); ops.push_back({3, 0, 0, 0});
  u64 no = ops.size(); int depth = T ? 5 : 4; u64 nh = 1; for (int i = 1; i < depth; i++) nh *= no;
  auto doop = [=](const Op &o, u8 *out) {      // executes on persistent buffers, returns the length
    alignas(64) static u8 in1[64], in2[64]; static u8 sg[128];
    if (o.kind < 2) { auto &v = VARIANTS[o.var]; size_t n = v.is448 ? 56 : 32; Bytes k = gen("hk", o.a, n), u = o.b ? Bytes(n, 0) : gen("hu", o.b, n); if (o.a == 1) k = Bytes(n, 0xff);
      memcpy(in1, k.data(), n); memcpy(in2, u.data(), n); if (o.kind == 0) v.f->keygen(out, in1); else v.f->shared(out, in2, in1); return n; }
    if (o.kind == 2) { const Scheme &s = SCHEMES[o.var ? 3 : 0]; Bytes k = gen("hs", o.var, s.kb()); memcpy(in1, k.data(), s.kb()); s.keygen(in2, in1); s.sign(sg, k.data(), 20, 0, 0, in2, in1); memcpy(out, sg, 64); return (size_t)64; }
    alignas(64) u64 e[16] = {2}, r[16]; Fp25519._1w_full.arith.inv(r, e); memcpy(out, r, 32); return (size_t)32; };
  c.sections.push_back({"histories", "all sequences of " + std::to_string(depth) + " calls over " + std::to_string(no) + " operations (key generation and shared secret of every variant with two secrets and peers, signatures, inversion) through the same buffers: each result equals the result of the call alone", nh, [=](Ctx &x, u64 i) {
      alignas(64) static u8 out[128]; static std::vector<Bytes> solo;
      if (solo.empty()) for (auto &o : ops) { memset(out, 0, sizeof out); size_t n = doop(o, out); if (o.kind < 2) { auto &v = VARIANTS[o.var]; Bytes k = gen("hk", o.a, n), u = o.b ? Bytes(n, 0) : gen("hu", o.b, n); if (o.a == 1) k = Bytes(n, 0xff); u8 w[56]; const Curve &cc = v.is448 ? c448() : c25519(); if (o.kind == 0) ref::xdh_base(cc, k.data(), w); else ref::xdh(cc, k.data(), u.data(), w); solo.push_back(Bytes(w, w + n)); } else solo.push_back(Bytes(out, out + n)); }
      for (u64 last = 0; last < no; last++) { u64 t = i; std::string h; memset(out, i % 2 ? 0xff : 0, sizeof out);
        for (int k = 1; k < depth; k++) { u64 o = t % no; t /= no; size_t n = doop(ops[o], out); h += std::to_string(o) + " "; x.eval(); if (memcmp(out, solo[o].data(), n)) x.fail("history-" + std::to_string(o), "after " + h); }
        size_t n = doop(ops[last], out); x.eval(); x.distinct(1); if (memcmp(out, solo[last].data(), n)) x.fail("history-" + std::to_string(last), "after " + h + std::to_string(last)); if (!T) { /* prefixes are shared: rerun only the last call */ for (last++; last < no; last++) { n = doop(ops[last], out); x.eval(); x.distinct(1); if (memcmp(out, solo[last].data(), n)) x.fail("history-" + std::to_string(last), "after " + h + "... " + std::to_string(last)); } } } }});
  return vf::run(argc, argv, c);
}
