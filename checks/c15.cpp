// C15: modes and contexts are separated; over-long contexts are refused.
#include <algorithm>
#include "lib.h"
using namespace faz::eddsa;
struct Who { const Scheme *s; Bytes ctx; };
static bool same(const Who &a, const Who &b) { return a.s == b.s && (!a.s->hasctx() || a.ctx == b.ctx); }
static std::vector<Bytes> contexts() {
  std::vector<Bytes> v; v.push_back({}); for (u8 b : {0, 1, 255}) v.push_back({b});
  Bytes g = gen("ctx", 1, 255); for (size_t n : {1, 2, 31, 32, 33, 63, 64, 127, 128, 254, 255}) v.push_back(Bytes(g.begin(), g.begin() + n));
  for (size_t n : {1, 2, 3, 4, 32, 254, 255}) { v.push_back(Bytes(n, 0)); v.push_back(Bytes(n, 0xff)); }
  Bytes t(g); t[254] ^= 1; v.push_back(t); t = g; t[0] ^= 0x80; v.push_back(t);
  Bytes d(4, 0); d[0] = 1; v.push_back(d);
  std::string s = "SigEd25519 no Ed25519 collisions"; v.push_back(Bytes(s.begin(), s.end())); s = "SigEd448"; v.push_back(Bytes(s.begin(), s.end()));
  std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v; }
struct Key { Buf sk, pk; Key(const Scheme &s, u64 i) { Bytes b = secret(i, s.kb()); memcpy(sk.b, b.data(), b.size()); s.keygen(pk, sk); } };
static const u8 *P(const Bytes &b) { static const u8 none[1] = {0}; return b.empty() ? none : b.data(); }
static std::string nm(const Who &w) { return std::string(w.s->name) + (w.s->hasctx() ? " ctx=" + hx(w.ctx).substr(0, 70) + "(" + std::to_string(w.ctx.size()) + ")" : ""); }

static void judge(Ctx &x, const Who &a, const Bytes &ma, const u8 *sig, const Who &b, const Bytes &mb, Key &k, const char *tag) {
  int r = b.s->verify(P(mb), mb.size(), P(b.ctx), b.ctx.size(), k.pk, sig); x.eval();
  bool eq = same(a, b) && ma == mb;
  std::string in = "signed " + nm(a) + " msg=" + hx(ma).substr(0, 40) + "(" + std::to_string(ma.size()) + "), verified " + nm(b) + " msg=" + hx(mb).substr(0, 40) + "(" + std::to_string(mb.size()) + ") -> " + std::to_string(r);
  if (eq && r != EDDSA_VERIFICATION_OK) x.fail(std::string(tag) + "-own-rejected-" + a.s->name, in);
  if (!eq && r == EDDSA_VERIFICATION_OK) x.fail(std::string(tag) + "-accepted-" + a.s->name + "-as-" + b.s->name, in);
  if (!eq && r != EDDSA_VERIFICATION_OK && r != EDDSA_INVALID_SIGNATURE) x.fail(std::string(tag) + "-flag-" + b.s->name, in);
  if (x.want_sample()) x.sample(in); }
static bool sgn(Ctx &x, const Who &a, const Bytes &m, Key &k, u8 *sig) {
  int r = a.s->sign(sig, P(m), m.size(), P(a.ctx), a.ctx.size(), k.pk, k.sk); x.eval();
  if (r != EDDSA_SIGNATURE_OK) { x.fail(std::string("refused-") + a.s->name, nm(a)); return false; } return true; }

int main(int argc, char **argv) {
  vf::Check c; c.property = "C15"; c.level = "exploration";
  c.rule = "Every (signer mode, context) x (verifier mode, context) pair, message/context boundary and context length of the listed spaces is executed on the built library; acceptance must coincide with equality of mode, context and message. Distinct by construction.";
  c.assumptions = {"keys and messages come from fixed lists; schemes over different curves have different key sizes and are not crossed"};
  bool T = vf::thorough();
  static std::vector<Bytes> X = contexts(); static std::vector<Who> W[2];
  for (auto &s : SCHEMES) { if (s.hasctx()) for (auto &b : X) W[s.is448].push_back({&s, b}); else W[s.is448].push_back({&s, {}}); }
  for (int f = 0; f < 2; f++) { auto &w = W[f]; u64 nk = T ? 6 : 2, nm_ = T ? 4 : 2;
    c.sections.push_back({f ? "pairs-448" : "pairs-25519", "all ordered pairs of (mode, context), " + std::to_string(w.size()) + " of them, x " + std::to_string(nk) + " keys x " + std::to_string(nm_) + " messages", w.size() * nk * nm_, [=](Ctx &x, u64 i) {
      auto &w = W[f]; Dec d(i); auto &a = w[d(w.size())]; Key k(*a.s, 4 + d(nk)); Bytes m = gen("c15m", i, (u64[]){0, 64, 1, 200}[d(nm_)]); u8 sig[114]; if (!sgn(x, a, m, k, sig)) return;
      for (auto &b : w) { judge(x, a, m, sig, b, m, k, "pair"); x.distinct(1); }
      // the hash of the message presented as the message, and vice versa
      u8 h[64]; if (f) ref::shake256(m.data(), m.size(), h, 64); else ref::sha512(m.data(), m.size(), h); Bytes hm(h, h + 64); for (auto &b : w) if (b.ctx == a.ctx || !b.s->hasctx()) judge(x, a, m, sig, b, hm, k, "prehash-as-message"); }});
  }
  u64 ns = 0; static std::vector<const Scheme *> S; for (auto &s : SCHEMES) if (s.hasctx()) S.push_back(&s); ns = S.size();
  static std::vector<const Scheme *> ALL; for (auto &s : SCHEMES) ALL.push_back(&s);
  u64 L = T ? 255 : 64;
  c.sections.push_back({"boundary", "one byte string of " + std::to_string(L + 20) + " bytes cut into context and message at every place 0.." + std::to_string(L) + ": signatures for one cut do not verify for another", ns * (L + 1), [=](Ctx &x, u64 i) {
    Dec d(i); auto *s = S[d(ns)]; u64 cut = d(L + 1); Bytes b = gen("cut", L, L + 20); auto at = [&](u64 q) { return Who{s, Bytes(b.begin(), b.begin() + q)}; }; auto msg = [&](u64 q) { return Bytes(b.begin() + q, b.end()); };
    Key k(*s, 5); u8 sig[114]; Who a = at(cut); Bytes m = msg(cut); if (!sgn(x, a, m, k, sig)) return;
    for (u64 q = 0; q <= L; q++) { judge(x, a, m, sig, at(q), msg(q), k, "boundary"); x.distinct(1); } }});
  c.sections.push_back({"domain-as-message", "the domain string prepended to the message under another mode", ALL.size() * 8 * 4, [=](Ctx &x, u64 i) {
    Dec d(i); auto *s = ALL[d(ALL.size())]; u64 ci = d(8), mi = d(4); Bytes cx = s->hasctx() ? X[ci * X.size() / 8] : Bytes(); Bytes m = gen("dm", mi, mi * 21); Key k(*s, 6); Who a{s, cx}; u8 sig[114]; if (!sgn(x, a, m, k, sig)) return;
    for (auto *t : ALL) if (t->is448 == s->is448) for (int ph = 0; ph < 2; ph++) { std::string ds = s->is448 ? "SigEd448" : "SigEd25519 no Ed25519 collisions"; Bytes m2(ds.begin(), ds.end()); m2.push_back(ph); m2.push_back(cx.size()); m2.insert(m2.end(), cx.begin(), cx.end()); m2.insert(m2.end(), m.begin(), m.end());
      judge(x, a, m, sig, Who{t, {}}, m2, k, "domain"); u8 sg2[114]; Who b{t, {}}; if (sgn(x, b, m2, k, sg2)) judge(x, b, m2, sg2, a, m, k, "domain"); x.distinct(2); } }});
  c.sections.push_back({"context-bits", "every single-bit change, truncation by one and extension by one of contexts of every length 0..255", ns * 256, [=](Ctx &x, u64 i) {
    Dec d(i); auto *s = S[d(ns)]; u64 n = d(256); Bytes cx = gen("cb", n, n), m = gen("cbm", n, n % 9); Key k(*s, 7); Who a{s, cx}; u8 sig[114]; if (!sgn(x, a, m, k, sig)) return; judge(x, a, m, sig, a, m, k, "bit");
    if (n) judge(x, a, m, sig, Who{s, Bytes(cx.begin(), cx.end() - 1)}, m, k, "shorter"); if (n < 255) for (u8 e : {0, 255}) { Bytes t = cx; t.push_back(e); judge(x, a, m, sig, Who{s, t}, m, k, "longer"); }
    for (u64 b = 0; b < 8 * n; b += T ? 1 : (n < 40 ? 1 : 8 + (n & 1))) { Bytes t = cx; t[b / 8] ^= 1 << b % 8; judge(x, a, m, sig, Who{s, t}, m, k, "bit"); x.distinct(1); } }});
  static std::vector<u64> over; for (u64 l = 256; l <= (T ? 70000 : 1300); l++) over.push_back(l); for (u64 b = 10; b < 64; b++) for (long e : {-1, 0, 1, 20, 255}) { u64 l = (1ull << b) + e; if (l > 255) over.push_back(l); } for (u64 e = 0; e < 300; e++) over.push_back(~0ull - e);
  static Bytes big = gen("big", 0, 1 << 17);
  c.sections.push_back({"over-long", "context lengths 256.." + std::to_string(T ? 70000 : 1300) + ", around every power of two and up to 2^64-1: refused with the context error by sign and verify, no signature that verifies under a truncation is left behind", ns * over.size(), [=](Ctx &x, u64 i) {
    Dec d(i); auto *s = S[d(ns)]; u64 l = over[d(over.size())]; Key k(*s, 8); Bytes m = gen("ol", 0, 33); unsigned sl = 2 * s->kb();
    std::string in = std::string(s->name) + " context length " + std::to_string(l); x.about("%s", in.c_str());
    Buf sig, keep; int r = s->sign(sig, m.data(), m.size(), big.data(), l, k.pk, k.sk); x.eval(); x.distinct(1);
    if (r != EDDSA_ERROR_CONTEXT) x.fail(std::string("sign-long-context-") + s->name, in + " -> " + std::to_string(r));
    if (memcmp(sig.b, keep.b, sl)) for (u64 t : {l & 255, (u64)255, (u64)0}) if (s->verify(m.data(), m.size(), big.data(), t, k.pk, sig) == EDDSA_VERIFICATION_OK) x.fail(std::string("signature-left-") + s->name, in);
    // a signature for the truncated context
    for (u64 t : {l & 255, (u64)255}) { Buf g; s->sign(g, m.data(), m.size(), big.data(), t, k.pk, k.sk); r = s->verify(m.data(), m.size(), big.data(), l, k.pk, g); x.eval(); if (r != EDDSA_ERROR_CONTEXT) x.fail(std::string("verify-long-context-") + s->name, in + " -> " + std::to_string(r)); }
    r = s->verify(m.data(), m.size(), big.data(), l, k.pk, keep); x.eval(); if (r != EDDSA_ERROR_CONTEXT) x.fail(std::string("verify-long-context-") + s->name, in + " arbitrary signature -> " + std::to_string(r)); }});
  return vf::run(argc, argv, c);
}
