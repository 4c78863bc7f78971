// Key generation and signing: harness shared by the Ed25519 and Ed448 checks.
#pragma once
#include "hash.h"
static inline void ed_case(Ctx &x, const Scheme &s, const Bytes &sk, const Bytes &msg, const Bytes &ctx, bool pos_cov) {
  const Curve &c = s.c(); unsigned kb = s.kb();
  Buf pk, sig; u8 want[114];
  Buf skb; memcpy(skb, sk.data(), kb);
  x.about("%s sk=%s ctxlen=%zu msglen=%zu", s.name, hx(sk).c_str(), ctx.size(), msg.size());
  int r = s.keygen(pk, skb);
  ref::EdKey k = ref::ed_key(c, sk.data());
  x.eval();
  std::string in = std::string(s.name) + " sk=" + hx(sk) + " ctx=" + hx(ctx).substr(0, 80) + "(" + std::to_string(ctx.size()) + ") msg=" + hx(msg).substr(0, 80) + "(" + std::to_string(msg.size()) + ")";
  if (r != faz::eddsa::EDDSA_KEYGEN_OK) x.fail(std::string("keygen-flag-") + s.name, in + " returned " + std::to_string(r));
  if (memcmp(pk, k.pk, kb)) x.fail(std::string("keygen-") + s.name, in + " got pk " + hex(pk, kb) + " want " + hex(k.pk, kb));
  if (pk.b[kb] != 0xA5) x.fail(std::string("keygen-overrun-") + s.name, in);
  memcpy(pk, k.pk, kb);
  r = s.sign(sig, msg.data(), msg.size(), ctx.data(), ctx.size(), pk, skb);
  ref::ed_sign(c, s.m, k, k.pk, ctx.data(), ctx.size(), msg.data(), msg.size(), want);
  x.eval();
  if (r != faz::eddsa::EDDSA_SIGNATURE_OK) x.fail(std::string("sign-flag-") + s.name, in + " returned " + std::to_string(r));
  if (memcmp(sig, want, 2 * kb)) x.fail(std::string("sign-") + s.name, in + " got " + hex(sig, 2 * kb) + " want " + hex(want, 2 * kb));
  if (sig.b[2 * kb] != 0xA5) x.fail(std::string("sign-overrun-") + s.name, in);
  if (memcmp(skb, sk.data(), kb) || memcmp(pk, k.pk, kb)) x.fail(std::string("sign-modifies-input-") + s.name, in);
  // what was signed is accepted
  if (!memcmp(sig, want, 2 * kb)) {
    r = s.verify(msg.data(), msg.size(), ctx.data(), ctx.size(), pk, sig);
    x.eval();
    if (r != faz::eddsa::EDDSA_VERIFICATION_OK) x.fail(std::string("own-signature-rejected-") + s.name, in + " verify returned " + std::to_string(r));
  }
  x.seen(vf::hash_bytes(want, 2 * kb));
  if (x.want_sample()) x.sample(in + " -> sig " + hex(sig, 8) + "...");
  (void)pos_cov;
}
static std::vector<Section> ed_sections(bool is448) {
  std::vector<Section> v;
  bool T = vf::thorough();
  static std::vector<Scheme> S;
  for (auto &s : SCHEMES) if (s.is448 == is448) S.push_back(s);
  unsigned kb = is448 ? 57 : 32;
  u64 maxlen = T ? 1100 : is448 ? 420 : 400, nk = T ? 4 : 1;
  v.push_back({"message-lengths", "every message length 0.." + std::to_string(maxlen) + " x " + std::to_string(nk) + " keys x scheme x {empty, 13 byte} context", (maxlen + 1) * nk * S.size() * 2,
    [=](Ctx &x, u64 i) { Dec d(i); auto &s = S[d(S.size())]; u64 c = d(2), key = d(nk), len = d(maxlen + 1); if (c && !s.hasctx()) { return; }
      ed_case(x, s, secret(key + 4, kb), gen("m", len, len), c ? gen("c", 1, 13) : Bytes(), false); }});
  v.push_back({"context-lengths", "every context length 0..255 x scheme x 3 message lengths", 256ull * S.size() * 3,
    [=](Ctx &x, u64 i) { Dec d(i); auto &s = S[d(S.size())]; u64 ml = (u64[]){0, 1, 130}[d(3)], cl = d(256); if (!s.hasctx()) return;
      ed_case(x, s, secret(5, kb), gen("m", ml, ml), gen("c", cl, cl), false); }});
  u64 nkeys = T ? 60000 : is448 ? 3000 : 6000;
  v.push_back({"keys", "fixed list of " + std::to_string(nkeys) + " secret keys (patterns, all single-bit keys, generic), message = 0..7 bytes, scheme round-robin", nkeys,
    [=](Ctx &x, u64 i) { auto &s = S[i % S.size()]; Bytes sk;
      if (i < 4) sk = secret(i, kb); else if (i < 4 + 8 * kb) { sk = Bytes(kb, 0); sk[(i - 4) / 8] = 1 << ((i - 4) % 8); } else sk = secret(i, kb);
      ed_case(x, s, sk, gen("k", i, i % 8), s.hasctx() ? gen("kc", i, i % 5) : Bytes(), true); }});
  // volume: rare carries between words show only in many generic values
  u64 nb = T ? (is448 ? 60000 : 150000) : is448 ? 1200 : 3000;
  v.push_back({"counter-messages", std::to_string(nb * 64) + " messages that count up from 0, signed with one key, scheme round-robin, and as many / 8 counting secrets through key generation", nb,
    [=](Ctx &x, u64 i) { auto &s = S[i % S.size()]; static ref::EdKey k[2]; auto &K = k[is448]; Bytes sk = secret(11, kb); if (!mpz_sgn(K.a.v)) K = ref::ed_key(s.c(), sk.data());
      Buf pk, skb, sig; u8 want[114]; memcpy(pk.b, K.pk, kb); memcpy(skb.b, sk.data(), kb); Bytes m(8), cx = s.hasctx() ? gen("c", 3, 3) : Bytes();
      for (u64 j = 64 * i; j < 64 * i + 64; j++) { memcpy(m.data(), &j, 8); x.about("%s counter message %lu", s.name, j);
        int r = s.sign(sig, m.data(), 8, cx.data(), cx.size(), pk, skb); ref::ed_sign(s.c(), s.m, K, K.pk, cx.data(), cx.size(), m.data(), 8, want); x.eval();
        if (r != faz::eddsa::EDDSA_SIGNATURE_OK) x.fail(std::string("sign-flag-") + s.name, "counter message " + std::to_string(j) + ": returned " + std::to_string(r));
        if (memcmp(sig, want, 2 * kb)) x.fail(std::string("sign-") + s.name, "counter message " + std::to_string(j) + " got " + hex(sig, 2 * kb) + " want " + hex(want, 2 * kb));
        x.seen(vf::hash_bytes(want, 2 * kb));
        if (j % 8 == 0) { Bytes q(kb, 0); u64 z = j / 8; memcpy(q.data(), &z, 8); Buf a, b; memcpy(a.b, q.data(), kb); s.keygen(b, a); ref::EdKey w = ref::ed_key(s.c(), q.data()); x.eval(); if (memcmp(b.b, w.pk, kb)) x.fail(std::string("keygen-") + s.name, "sk=" + hx(q) + " got pk " + hex(b.b, kb) + " want " + hex(w.pk, kb)); } } }});
  // a call after one whose input differs in one bit of one argument
  const u64 ML = 72, MB = 8 * ML; u64 nfl = 2 * 8 * kb + MB + 64;
  v.push_back({"one-bit-neighbours", "key generation and signing right after the same call with one bit of the secret, the public key, the message or the context changed: every bit", nfl * S.size(),
    [=](Ctx &x, u64 i) { Dec d(i); u64 f = d(nfl); auto &s = S[d(S.size())]; Bytes sk = gen("nb", s.m, kb), m = gen("nbm", s.m, ML), cx = s.hasctx() ? gen("nbc", 1, 8) : Bytes(), sk2 = sk, m2 = m, cx2 = cx;
      ref::EdKey k = ref::ed_key(s.c(), sk.data()); Bytes pk(k.pk, k.pk + kb), pk2 = pk;
      if (f < 8 * kb) sk2[f / 8] ^= 1 << f % 8; else if ((f -= 8 * kb) < 8 * kb) pk2[f / 8] ^= 1 << f % 8; else if ((f -= 8 * kb) < MB) m2[f / 8] ^= 1 << f % 8; else { f -= MB; if (!s.hasctx()) return; cx2[f / 8] ^= 1 << f % 8; }
      auto sgn = [&](const Bytes &sk, const Bytes &pk, const Bytes &m, const Bytes &cx, u8 *o) { Buf a, b, q; memcpy(a.b, sk.data(), kb); memcpy(b.b, pk.data(), kb); x.about("%s sign sk=%s pk=%s", s.name, hx(sk).c_str(), hx(pk).c_str()); s.sign(q, m.data(), m.size(), cx.data(), cx.size(), b, a); memcpy(o, q.b, 2 * kb); x.eval(); };
      u8 w1[114], w2[114], g1[114], g2[114]; ref::ed_sign(s.c(), s.m, k, pk.data(), cx.data(), cx.size(), m.data(), ML, w1); ref::EdKey k2 = ref::ed_key(s.c(), sk2.data()); ref::ed_sign(s.c(), s.m, k2, pk2.data(), cx2.data(), cx2.size(), m2.data(), ML, w2);
      sgn(sk, pk, m, cx, g1); sgn(sk2, pk2, m2, cx2, g2); std::string in = std::string(s.name) + " flip " + std::to_string(i % nfl) + " of sk=" + hx(sk) + " pk=" + hx(pk) + " m=" + hx(m) + " ctx=" + hx(cx);
      if (memcmp(g1, w1, 2 * kb)) x.fail(std::string("sign-") + s.name, "before " + in); if (memcmp(g2, w2, 2 * kb)) x.fail(std::string("sign-after-") + s.name, in + " got " + hex(g2, 2 * kb) + " want " + hex(w2, 2 * kb));
      x.seen(vf::hash_bytes(w2, 2 * kb));
      if (sk2 != sk) { Buf a, b, o1, o2; memcpy(a.b, sk.data(), kb); memcpy(b.b, sk2.data(), kb); s.keygen(o1, a); s.keygen(o2, b); x.eval(2); if (memcmp(o1.b, k.pk, kb)) x.fail(std::string("keygen-") + s.name, "before " + in); if (memcmp(o2.b, k2.pk, kb)) x.fail(std::string("keygen-after-") + s.name, in); } }});
  static const u64 HN[] = {(1ull << 32) + 5, (1ull << 29) + 1, (1ull << 31) + 3};
  u64 nhuge = T ? 3 : 1;
  v.push_back({"huge-messages", "messages of 2^32+5 bytes (thorough: also 2^29+1 and 2^31+3) x scheme: signature equal to the model's", nhuge * S.size(),
    [=](Ctx &x, u64 i) { auto &s = S[i % S.size()]; u64 n = HN[i / S.size()]; Huge h(n, 7); if (!h.p) { x.count("huge-skipped"); return; }
      Bytes sk = secret(9, kb), cx = s.hasctx() ? gen("c", 2, 6) : Bytes(); Buf pk, skb, sig; u8 want[114];
      ref::EdKey k = ref::ed_key(s.c(), sk.data()); memcpy(pk.b, k.pk, kb); memcpy(skb.b, sk.data(), kb);
      x.about("%s sign of a %lu byte message", s.name, n);
      int r = s.sign(sig, h.p, n, cx.data(), cx.size(), pk, skb);
      ref::ed_sign(s.c(), s.m, k, k.pk, cx.data(), cx.size(), h.p, n, want);
      x.eval(); x.seen(vf::hash_bytes(want, 2 * kb));
      if (r != faz::eddsa::EDDSA_SIGNATURE_OK) x.fail(std::string("sign-flag-huge-") + s.name, std::to_string(n) + " bytes: returned " + std::to_string(r));
      if (memcmp(sig, want, 2 * kb)) x.fail(std::string("sign-huge-") + s.name, std::to_string(n) + " byte message, got " + hex(sig, 2 * kb) + " want " + hex(want, 2 * kb)); }, 240});
  return v;
}
static int ed_main(int argc, char **argv, const char *id, bool is448) {
  vf::Check c;
  c.property = id;
  c.rule = "every case of the listed spaces is run through keygen, sign and verify of the built library and compared byte for byte with an independent big-integer RFC 8032 model (validated against RFC vectors, OpenSSL and hashlib by setup_cmd); distinct_nontrivial = distinct expected signatures";
  c.assumptions = {"keys, contexts and messages outside the listed finite alphabets are not executed"};
  c.hang_s = 60;
  c.sections = ed_sections(is448);
  return vf::run(argc, argv, c);
}
