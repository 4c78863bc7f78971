// Diffie-Hellman functions: alphabets of secrets and peers, and the judges.
#pragma once
#include "field_vec.h"
using namespace faz::ecdh;

struct Variant { const char *name; const X_ECDH *f; bool is448; };
static const Variant VARIANTS[] = {{"X25519", &X25519, false}, {"X25519_x64", &X25519_x64, false}, {"X448", &X448, true}};

struct Dh {
  bool is448; size_t n; std::vector<Variant> vs;
  std::vector<Bytes> peers, special, scalars, fewscalars;
  const Curve &c() const { return is448 ? c448() : c25519(); }
  Bytes enc(const Z &z) const { return le(z, n); }
  explicit Dh(bool f) : is448(f), n(f ? 56 : 32) { for (auto &v : VARIANTS) if (v.is448 == f) vs.push_back(v); }

  // ---- judges -----------------------------------------------------------------
  void shared(Ctx &x, const Bytes &k, const Bytes &u, bool sub) const {
    u8 want[56]; ref::xdh(c(), k.data(), u.data(), want);
    for (auto &v : vs) {
      Buf out, kb, ub; memcpy(kb.b, k.data(), n); memcpy(ub.b, u.data(), n);
      x.about("%s shared secret=%s peer=%s", v.name, hx(k).c_str(), hx(u).c_str());
      int r = v.f->shared(out, ub, kb); x.eval();
      std::string in = std::string(v.name) + " secret=" + hx(k) + " peer=" + hx(u);
      if (memcmp(out.b, want, n)) x.fail(std::string("shared-") + v.name, in + " -> " + hex(out.b, n) + " expected " + hex(want, n));
      if (r != 0) x.fail(std::string("shared-status-") + v.name, in);
      for (size_t i = n; i < 256; i++) if (out.b[i] != 0xA5) { x.fail(std::string("shared-overrun-") + v.name, in); break; }
      if (memcmp(kb.b, k.data(), n) || memcmp(ub.b, u.data(), n) || kb.b[n] != 0xA5 || ub.b[n] != 0xA5) x.fail(std::string("shared-changes-input-") + v.name, in);
      if (x.want_sample()) x.sample(in + " -> " + hex(out.b, n));
    }
    if (sub) x.seen(vf::hash_bytes(want, n, vf::hash_bytes(k.data(), n))); else x.distinct(1);
  }
  void keygen(Ctx &x, const Bytes &k, bool cross) const {
    u8 want[56]; ref::xdh_base(c(), k.data(), want);
    for (auto &v : vs) {
      Buf out, kb; memcpy(kb.b, k.data(), n);
      x.about("%s keygen secret=%s", v.name, hx(k).c_str());
      int r = v.f->keygen(out, kb); x.eval();
      std::string in = std::string(v.name) + " secret=" + hx(k);
      if (memcmp(out.b, want, n)) x.fail(std::string("keygen-") + v.name, in + " -> " + hex(out.b, n) + " expected " + hex(want, n));
      if (r != 0) x.fail(std::string("keygen-status-") + v.name, in);
      for (size_t i = n; i < 256; i++) if (out.b[i] != 0xA5) { x.fail(std::string("keygen-overrun-") + v.name, in); break; }
      if (memcmp(kb.b, k.data(), n) || kb.b[n] != 0xA5) x.fail(std::string("keygen-changes-secret-") + v.name, in);
      if (cross) { Buf o2, b; memset(b.b, 0, n); b.b[0] = is448 ? 5 : 9; v.f->shared(o2, b, kb); x.eval(); if (memcmp(o2.b, want, n)) x.fail(std::string("base-point-product-") + v.name, in + " -> " + hex(o2.b, n)); }
      if (x.want_sample()) x.sample(in + " -> " + hex(out.b, n));
    }
    x.distinct(1);
  }

  // the result written over the peer value, over the secret, or over both at once
  void in_place(Ctx &x, const Bytes &k, const Bytes &u) const {
    u8 want[56];
    for (int m = 0; m < 3; m++) { const Bytes &peer = m == 2 ? k : u; ref::xdh(c(), k.data(), peer.data(), want);
      for (auto &v : vs) {
        Buf a, b; memcpy(a.b, peer.data(), n); memcpy(b.b, k.data(), n); u8 *out = m == 1 ? b.b : a.b, *sec = m == 2 ? a.b : b.b;
        std::string in = std::string(v.name) + (m == 0 ? " over the peer" : m == 1 ? " over the secret" : " over secret and peer in one buffer") + " secret=" + hx(k) + " peer=" + hx(peer);
        x.about("%s", in.c_str()); int r = v.f->shared(out, a, sec); x.eval();
        if (r != 0 || memcmp(out, want, n)) x.fail(std::string("shared-in-place-") + v.name, in + " -> " + hex(out, n) + " expected " + hex(want, n));
        if ((m == 0 && memcmp(b.b, k.data(), n)) || (m == 1 && memcmp(a.b, peer.data(), n)) || a.b[n] != 0xA5 || b.b[n] != 0xA5) x.fail(std::string("shared-in-place-changes-") + v.name, in);
      } }
    x.seen(vf::hash_bytes(k.data(), n, vf::hash_bytes(u.data(), n)));
  }
  void keygen_in_place(Ctx &x, const Bytes &k) const {
    u8 want[56]; ref::xdh_base(c(), k.data(), want);
    for (auto &v : vs) { Buf a; memcpy(a.b, k.data(), n); std::string in = std::string(v.name) + " key generation over the secret " + hx(k); x.about("%s", in.c_str()); int r = v.f->keygen(a, a); x.eval(); if (r != 0 || memcmp(a.b, want, n) || a.b[n] != 0xA5) x.fail(std::string("keygen-in-place-") + v.name, in + " -> " + hex(a.b, n)); }
    x.distinct(1);
  }

  // ---- alphabets ----------------------------------------------------------------
  template <bool F448> void build_peers(int span) {
    std::set<Bytes> s, sp; const Z &p = c().p; Z top = Z::pow2(8 * n), half = Z::pow2(8 * n - 1);
    auto put = [&](const Z &z, std::set<Bytes> &t) { if (!(z < Z(0)) && z < top) t.insert(enc(z)); };
    for (int i = -span; i <= span; i++) for (int k = 0; k <= 2; k++) { put(p * Z(k) + Z(i), s); if (!F448) put(half + p * Z(k) + Z(i), s); }
    for (int i = 1; i <= 40; i++) { put(top - Z(i), s); put(half - Z(i), s); put(half + Z(i), s); }
    for (int i = -2; i <= 2; i++) for (int k = 0; k <= 1; k++) { put(p * Z(k) + Z(i), sp); if (!F448) put(half + p * Z(k) + Z(i), sp); }
    put(top - Z(1), sp); put(half - Z(1), sp); if (F448) { put(Z::pow2(224), sp); put(Z::pow2(224) - Z(1), sp); put(top - Z::pow2(224), sp); put(Z::pow2(224) + Z(1), sp); }
    // small order: u = 0, 1, -1 and the points of order 8 (25519) on curve and twist
    std::vector<Z> low = {Z(0), Z(1), p - Z(1)};
    if (!F448) { low.push_back(Z::dec("325606250916557431795983626356110631294008115727848805560023387167927233504")); low.push_back(Z::dec("39382357235489614581723060781553021112529911719440698176882885853963445705823")); }
    for (auto &z : low) for (int k = 0; k <= 2; k++) { put(z + p * Z(k), sp); put(z + p * Z(k), s); if (!F448) { put(half + z + p * Z(k), sp); put(half + z + p * Z(k), s); } }
    for (u64 i = 0; i < 24; i++) { Bytes b = gen("peer", i, n); s.insert(b); if (i < 10) sp.insert(b); }
    for (unsigned b = 0; b < 8 * n; b++) { put(Z::pow2(b), s); put(top - Z(1) - Z::pow2(b), s); put(Z::pow2(b) - Z(1), s); }
    // points of composite order: u-coordinates of 8-torsion shifts of multiples of the base point
    { Pt T; bool found = false; for (int y = 2; !found && y < 200; y++) { u8 e[57] = {0}; e[0] = y; if (ref::pt_dec(c(), e, T)) { T = ref::pt_mul(c(), c().L, T); found = !ref::pt_eq(c(), ref::pt_mul(c(), Z(F448 ? 2 : 4), T), ref::pt_id()); } }
      Pt B = ref::pt_affine(c().Bx, c().By);
      for (int t = 0; t < 8; t++) for (int k = 0; k < 6; k++) { Pt P = ref::pt_add(c(), ref::pt_mul(c(), Z(t), T), ref::pt_mul(c(), k < 4 ? Z(k) : c().L - Z(k - 3), B)); Z X, Y; ref::pt_aff(c(), P, X, Y);
        Z u = F448 ? Z(0) : (Z(1) + Y) * ref::invm((Z(1) + p - Y) % p, p) % p;
        if (F448) { Z r = Y * ref::invm(X, p) % p; u = r * r % p; }
        put(u, s); put(u, sp); } }
    // operands that make the values of the first ladder steps extreme
    VecCk<F448> V(1); auto pt = V.patterns(false), v2 = V.values(), oh = V.onehot(); pt.insert(pt.end(), v2.begin(), v2.end()); pt.insert(pt.end(), oh.begin(), oh.end());
    for (auto &d : pt) { auto e = V.val(d); Z z = Z::le(e.data(), n), r, q; put(z, s); put(z * ref::invm(Z(4), p) % p, s);
      if (ref::sqrtm(r, z, p)) { for (int sg = 0; sg < 2; sg++) { put((r + Z(1)) % p, s); put((r + p - Z(1)) % p, s); put(r * ref::invm(Z(2), p) % p, s); if (ref::sqrtm(q, (r + Z(1)) % p, p)) put(q, s); r = p - r; } } }
    peers.assign(s.begin(), s.end()); special.assign(sp.begin(), sp.end());
  }
  void build_scalars(bool deep) {
    std::set<Bytes> s; Bytes z(n, 0), o(n, 0xff);
    for (size_t b = 0; b < 8 * n; b++) { Bytes t = z; t[b / 8] = 1 << b % 8; s.insert(t); t = o; t[b / 8] ^= 1 << b % 8; s.insert(t); t = enc(Z::pow2(b)); Z q = Z::pow2(b) - Z(1); s.insert(enc(q)); s.insert(enc(Z::pow2(8 * n) - Z::pow2(b))); }
    for (int v = 0; v < 256; v++) { s.insert(Bytes(n, v)); Bytes t = z; t[0] = v; s.insert(t); t = o; t[0] = v; s.insert(t); t = z; t[n - 1] = v; s.insert(t); t = o; t[n - 1] = v; s.insert(t); }
    // clamped scalars congruent to small numbers, and to their halves, modulo the group order
    unsigned co = is448 ? 4 : 8, tb = is448 ? 447 : 254; Z iv = ref::invm(Z(co), c().L);
    for (int j = -20; j <= 20; j++) { Z m = (Z(j) + c().L) * iv % c().L * Z(co); for (int w = 0; w < 9; w++) { Z q = m + c().L * Z(co) * Z(w); if (q >= Z::pow2(tb) && q < Z::pow2(tb + 1)) s.insert(enc(q)); } }
    for (u64 i = 0; i < (deep ? 400 : 60); i++) s.insert(gen("scalar", i, n));
    scalars.assign(s.begin(), s.end());
    fewscalars = {z, o, gen("scalar", 0, n), gen("scalar", 1, n)};
    { Bytes t(n, 0x55); fewscalars.push_back(t); t.assign(n, 0xaa); fewscalars.push_back(t); }
  }
  void shared_sections(std::vector<Section> &v) {
    bool T = vf::thorough(); if (is448) build_peers<true>(T ? 400 : 64); else build_peers<false>(T ? 1000 : 130); build_scalars(T); auto *me = this;
    u64 nf = T ? fewscalars.size() : 3;
    v.push_back({"peers", "every peer value of the alphabet (around 0, p, 2p and 2^n, top bit set, low and composite order, powers of two, digit patterns, and preimages that make the first ladder steps extreme; " + std::to_string(peers.size()) + " values) with " + std::to_string(nf) + " secrets", peers.size() * nf, [=](Ctx &x, u64 i) { Dec d(i); u64 k = d(nf); me->shared(x, me->fewscalars[k], me->peers[d(me->peers.size())], false); }});
    u64 ns = T ? special.size() : std::min<u64>(special.size(), is448 ? 14 : 40);
    v.push_back({"secrets", "every secret of the alphabet (single bits set and cleared, runs, repeated bytes, every first and last byte, multiples that map to small points, generic; " + std::to_string(scalars.size()) + ") with " + std::to_string(ns) + " special peers", scalars.size() * ns, [=](Ctx &x, u64 i) { Dec d(i); u64 k = d(ns); me->shared(x, me->scalars[d(me->scalars.size())], me->special[(k * me->special.size()) / ns], true); }});
    // volume: rare carries between words show only in many generic values
    u64 nb = T ? (is448 ? 40000 : 200000) : is448 ? 1200 : 4000;
    v.push_back({"counter-peers", std::to_string(nb * 32) + " pairs of generic secrets: the shared secret with the public key of the other against the product of the two secrets by the base point" + (is448 ? "" : ", and as many generic peer values on which both variants must agree"), nb, [=](Ctx &x, u64 i) { u64 n = me->n;
      for (u64 j = 32 * i; j < 32 * i + 32; j++) { Bytes a = gen("ca", j, n), b = gen("cb", j, n); u8 pb[56], want[56]; ref::xdh_base(me->c(), b.data(), pb); ref::xdh_exchange(me->c(), a.data(), b.data(), want); Bytes first;
        for (auto &v : me->vs) for (int g = 0; g < (me->is448 ? 1 : 2); g++) { Buf o, k, u; memcpy(k.b, a.data(), n); if (g) memcpy(u.b, b.data(), n); else memcpy(u.b, pb, n); x.about("%s counter peer %lu", v.name, j); v.f->shared(o, u, k); x.eval();
          std::string in = std::string(v.name) + " secret=" + hx(a) + " peer=" + hex(u.b, n);
          if (!g) { if (memcmp(o.b, want, n)) x.fail(std::string("shared-") + v.name, in + " -> " + hex(o.b, n) + " expected " + hex(want, n)); }
          else if (first.empty()) first.assign(o.b, o.b + n);
          else if (memcmp(o.b, first.data(), n)) { u8 w[56]; ref::xdh(me->c(), a.data(), u.b, w); bool me2 = memcmp(o.b, w, n); x.fail(std::string("shared-") + (me2 ? v.name : me->vs[0].name), in + " -> " + hex(o.b, n) + " and " + hx(first) + ", expected " + hex(w, n)); } }
        x.distinct(1); } }});
    u64 ni = T ? scalars.size() : 40;
    v.push_back({"in-place", "the result written over the peer value, over the secret, and over a single buffer that is both, for " + std::to_string(ni) + " secrets and every special peer", ni * 8, [=](Ctx &x, u64 i) { u64 sc = i / 8 * me->scalars.size() / ni; for (u64 p = i % 8; p < me->special.size(); p += 8) me->in_place(x, me->scalars[sc], me->special[p]); }});
    // a ladder of dependent calls: RFC 7748 iteration from several starting points
    u64 it = T ? 20000 : 1500, st = 16;
    v.push_back({"iterated", "the RFC 7748 iteration k,u <- f(k,u),k for " + std::to_string(it) + " steps from 16 starting points", st, [=](Ctx &x, u64 i) {
        Bytes k(me->n, 0), u(me->n, 0); k[0] = u[0] = me->is448 ? 5 : 9; if (i) { k = gen("it", i, me->n); u = gen("iu", i, me->n); }
        for (u64 j = 0; j < it; j++) { me->shared(x, k, u, false); u8 r[56]; ref::xdh(me->c(), k.data(), u.data(), r); u = k; k.assign(r, r + me->n); } }});
  }
  void keygen_sections(std::vector<Section> &v) {
    bool T = vf::thorough(); build_scalars(T); auto *me = this; u64 N = n;
    v.push_back({"keygen-alphabet", "key generation for every secret of the alphabet, compared with the model and with the shared-secret function at the base point", scalars.size(), [=](Ctx &x, u64 i) { me->keygen(x, me->scalars[i], true); }});
    v.push_back({"keygen-in-place", "the public key written over the secret, for every secret of the alphabet", scalars.size(), [=](Ctx &x, u64 i) { me->keygen_in_place(x, me->scalars[i]); }});
    static const u8 bg[] = {0x00, 0xff, 0x88, 0x77, 0x80, 0x7f, 0x08, 0xf7};
    u64 nb = T ? 8 : 4;
    v.push_back({"keygen-bytes", "every value of every byte over " + std::to_string(nb) + " backgrounds (so every window digit with and without incoming carry)", N * 256 * nb, [=](Ctx &x, u64 i) { Dec d(i); Bytes k(me->n, bg[d(nb)]); u64 v = d(256); k[d(me->n)] = v; me->keygen(x, k, false); }});
    v.push_back({"keygen-generic-bytes", "every value of every byte of a generic secret", N * 256, [=](Ctx &x, u64 i) { Dec d(i); Bytes k = gen("kg", 1, me->n); u64 v = d(256); k[d(me->n)] = v; me->keygen(x, k, false); }});
    u64 np = T ? 65536 : 2048;
    v.push_back({"keygen-byte-pairs", T ? "every value of every pair of adjacent bytes" : "every 32nd value of every pair of adjacent bytes", (N - 1) * np, [=](Ctx &x, u64 i) { Dec d(i); u64 v = d(np), pos = d(me->n - 1); if (!T) v = v * 32 + pos % 32; Bytes k = gen("kp", pos, me->n); k[pos] = v; k[pos + 1] = v >> 8; me->keygen(x, k, false); }});
    v.push_back({"keygen-generic", "a fixed list of generic secrets", T ? (is448 ? 1500000ull : 6000000ull) : is448 ? 50000ull : 150000ull, [=](Ctx &x, u64 i) { me->keygen(x, gen("kk", i, me->n), i % 64 == 0); }});
  }
};
static inline int dh_main(int argc, char **argv, const char *id, bool is448, bool sh, bool kg) {
  vf::Check c; c.property = id; c.level = "exploration";
  c.rule = "Every index of every listed space is executed on the built library (all variants) and compared byte for byte with the RFC 7748 ladder / Edwards model over GMP (validated in setup against RFC vectors). Distinct: (secret, output) pairs.";
  c.assumptions = {"secrets and peers outside the listed alphabets are not executed"};
  static Dh d(is448);
  if (sh) d.shared_sections(c.sections);
  if (kg) d.keygen_sections(c.sections);
  return vf::run(argc, argv, c);
}
