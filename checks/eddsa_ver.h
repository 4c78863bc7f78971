// Verification: harness shared by the Ed25519 and Ed448 checks.
#pragma once
#include "hash.h"
struct Tuple { Scheme s; Bytes pk, ctx, msg, sig; };
static std::string tup(const Tuple &t) {
  return std::string(t.s.name) + " pk=" + hx(t.pk) + " ctx=" + hx(t.ctx).substr(0, 64) + "(" + std::to_string(t.ctx.size()) + ") msg=" + hx(t.msg).substr(0, 64) + "(" + std::to_string(t.msg.size()) + ") sig=" + hx(t.sig);
}
// runs the library and the model; 'kind' labels the class of input
static int judge(Ctx &x, const Tuple &t, const char *kind, int must = 0) {
  const Scheme &s = t.s; const Curve &c = s.c(); unsigned kb = s.kb();
  alignas(64) u8 pk[64], sig[128];
  memcpy(pk, t.pk.data(), kb); memcpy(sig, t.sig.data(), 2 * kb);
  x.about("verify %s %s", kind, tup(t).substr(0, 440).c_str());
  int got = s.verify(t.msg.data(), t.msg.size(), t.ctx.data(), t.ctx.size(), pk, sig);
  int want = ref::ed_verify(c, s.m, t.pk.data(), t.ctx.data(), t.ctx.size(), t.msg.data(), t.msg.size(), t.sig.data());
  x.eval();
  x.count(want == 2 ? "expected_accept" : want == 3 ? "expected_reject" : "expected_bad_key");
  if (must && want != must) { x.fail("harness", std::string("harness expected ") + std::to_string(must) + " but the model says " + std::to_string(want) + " " + tup(t)); return want; }
  // where only the cofactored equation holds (5.1.7, 5.2.7) either answer is allowed
  if (got != want && (want == 2 || want == 3) && (got == 2 || got == 3)) {
    Pt A, R; Z h = ref::ed_k(c, s.m, t.pk.data(), t.ctx.data(), t.ctx.size(), t.msg.data(), t.msg.size(), t.sig.data());
    if (ref::pt_dec(c, t.pk.data(), A) && ref::pt_dec(c, t.sig.data(), R) && Z::le(t.sig.data() + kb, kb) < c.L) {
      Pt l = ref::pt_mulB(c, Z::le(t.sig.data() + kb, kb)), r = ref::pt_add(c, R, ref::pt_mul(c, h, A)); Z co(s.is448 ? 4 : 8);
      bool cof = ref::pt_eq(c, ref::pt_mul(c, co, l), ref::pt_mul(c, co, r));
      bool Ator = !ref::pt_eq(c, ref::pt_mul(c, c.L, A), ref::pt_id()), Rtor = !ref::pt_eq(c, ref::pt_mul(c, c.L, R), ref::pt_id());
      if (want == 3 && got == 2 && cof) { x.count("cofactored_accept"); return want; }
      if (s.is448 && want == 2 && got == 3 && Ator && Rtor) { x.fail(std::string("rejects-mixed-order-key-and-R-") + s.name, tup(t)); return want; }
    }
  }
  // with an undecodable key and a signature that is malformed as well, either error may be reported first
  Z S = Z::le(t.sig.data() + kb, kb);
  bool ok = got == want || (want == 4 && got == 3 && S >= c.L);
  if (!ok) x.fail(std::string(got == 2 ? "accepts-" : want == 2 ? "rejects-" : "flag-") + kind + "-" + s.name, tup(t) + " library " + std::to_string(got) + " model " + std::to_string(want));
  if (memcmp(pk, t.pk.data(), kb) || memcmp(sig, t.sig.data(), 2 * kb)) x.fail("modifies-input", tup(t));
  Bytes all = t.pk; all.insert(all.end(), t.sig.begin(), t.sig.end()); all.insert(all.end(), t.msg.begin(), t.msg.end()); all.insert(all.end(), t.ctx.begin(), t.ctx.end());
  x.seen(vf::hash_bytes(all.data(), all.size(), s.m));
  if (x.want_sample()) x.sample(std::string(kind) + ": " + tup(t).substr(0, 260) + " -> " + std::to_string(got));
  return want;
}
static Tuple honest(const Scheme &s, u64 key, size_t ml, size_t cl) {
  Tuple t{s, {}, {}, {}, {}};
  Bytes sk = gen("vsk", key, 57);
  ref::EdKey k = ref::ed_key(s.c(), sk.data());
  t.pk.assign(k.pk, k.pk + s.kb());
  t.msg = gen("vm", ml * 1000 + key, ml); if (s.hasctx()) t.ctx = gen("vc", cl, cl);
  t.sig.resize(2 * s.kb());
  ref::ed_sign(s.c(), s.m, k, k.pk, t.ctx.data(), t.ctx.size(), t.msg.data(), t.msg.size(), t.sig.data());
  return t;
}
static Bytes enc(const Curve &c, const Pt &P) { Bytes b(c.kbytes); ref::pt_enc(c, P, b.data()); return b; }
static void setS(Tuple &t, const Z &S) { unsigned kb = t.s.kb(); S.le_out(&t.sig[kb], kb); }
static void setR(Tuple &t, const Bytes &R) { std::copy(R.begin(), R.end(), t.sig.begin()); }
static bool dec(const Curve &c, const Bytes &b, Pt &P) { return ref::pt_dec(c, b.data(), P); }
// generator of the torsion subgroup (order 8 / 4)
static Pt torsion(const Curve &c) {
  static std::map<bool, Pt> memo;
  auto it = memo.find(c.is448);
  if (it != memo.end()) return it->second;
  int h = c.is448 ? 4 : 8;
  for (long y = 2;; y++) {
    Pt P; Bytes b = le(Z(y), c.kbytes);
    if (!dec(c, b, P)) continue;
    P = ref::pt_mul(c, c.L, P);
    if (!ref::pt_eq(c, ref::pt_mul(c, Z(h / 2), P), ref::pt_id())) { memo[c.is448] = P; return P; }
  }
}
static Z neg_mod(const Z &a, const Z &m) { return (m - a % m) % m; }

static std::vector<Section> ver_sections(bool is448) {
  std::vector<Section> v;
  bool T = vf::thorough();
  static std::vector<Scheme> S;
  for (auto &s : SCHEMES) if (s.is448 == is448) S.push_back(s);
  const Curve *c = is448 ? &c448() : &c25519();
  unsigned kb = c->kbytes, bits = 8 * kb;
  torsion(*c);
  ref::pt_mulB(*c, Z(1));
  // 1. every single-bit change of an accepted tuple
  u64 nb = T ? 40 : is448 ? 6 : 12, ML = 72, MB = 8 * ML, fl = 3 * bits + MB + 64;
  v.push_back({"single-bit-changes", "every single-bit change of R, S, public key, message and context of " + std::to_string(nb) + " valid tuples, and the tuples themselves", nb * (fl + 1),
    [=](Ctx &x, u64 i) { Dec d(i); u64 f = d(fl + 1), b = d(nb); auto &s = S[b % S.size()];
      Tuple t = honest(s, b, ML, 8);
      if (f == fl) { judge(x, t, "valid", 2); return; }
      // right after the valid tuple it was made from
      alignas(64) u8 pk0[64], sg0[128]; memcpy(pk0, t.pk.data(), kb); memcpy(sg0, t.sig.data(), 2 * kb);
      if (s.verify(t.msg.data(), t.msg.size(), t.ctx.data(), t.ctx.size(), pk0, sg0) != 2) x.fail(std::string("rejects-valid-") + s.name, tup(t)); x.eval();
      if (f < 2 * bits) t.sig[f / 8] ^= 1 << f % 8;
      else if ((f -= 2 * bits) < bits) t.pk[f / 8] ^= 1 << f % 8;
      else if ((f -= bits) < MB) t.msg[f / 8] ^= 1 << f % 8;
      else { f -= MB; if (!s.hasctx()) return; t.ctx[f / 8] ^= 1 << f % 8; }
      judge(x, t, "bitflip"); }});
  // 1b. every byte value in every byte of the signature (thorough: and of the key)
  u64 nbv = T ? 6 : 1, span = (T ? 3 : 2) * kb * 256;
  v.push_back({"byte-replacement", std::string(is448 && !T ? "every fifth" : "every") + " value of every single byte of the signature (thorough: and key) of a valid tuple per scheme", nbv * S.size() * span,
    [=](Ctx &x, u64 i) { Dec d(i); auto &s = S[d(S.size())]; u64 w = d(span), b = d(nbv);
      static thread_local std::map<std::pair<int, u64>, Tuple> memo; auto key = std::make_pair((int)s.m, b);
      if (!memo.count(key)) memo.emplace(key, honest(s, 100 + b, 5, 3));
      Tuple t = memo.at(key); u64 pos = w / 256;
      if (!T && is448 && (w + pos) % 5) return;
      (pos < 2 * kb ? t.sig[pos] : t.pk[pos - 2 * kb]) = w % 256;
      judge(x, t, "byte"); }});
  // 2. S + jL for every j that fits, and boundary values of S
  u64 nj = is448 ? 1024 : 16, ns = T ? 60 : 12;
  v.push_back({"S-plus-multiples-of-L", "S + j*L for every j that fits the encoding, for " + std::to_string(ns) + " valid signatures", ns * nj,
    [=](Ctx &x, u64 i) { Dec d(i); u64 j = d(nj); u64 b = d(ns); Tuple t = honest(S[b % S.size()], 20 + b, b, b % 9);
      Z s = Z::le(&t.sig[kb], kb) + c->L * Z((long)j);
      if (s >= Z::pow2(bits)) return;
      setS(t, s); judge(x, t, "S-plus-jL", j ? 3 : 2); }});
  // 3. free choice of S: A = identity (order 1), R = S*B
  u64 ebits = is448 ? 446 : 253, nd = T ? 128 : 32;
  v.push_back({"every-S-digit", "A = neutral point, R = S*B: S = +-d*2^i for every odd d < " + std::to_string(2 * nd) + " and every i; each accepted, and S+1 rejected", ebits * nd * 2,
    [=](Ctx &x, u64 i) { Dec d(i); u64 dig = 2 * d(nd) + 1, pos = d(ebits), sg = d(2); auto &s = S[i % S.size()];
      Z s1 = (Z((long)dig) * Z::pow2(pos)) % c->L; if (sg) s1 = neg_mod(s1, c->L);
      Tuple t{s, enc(*c, ref::pt_id()), Bytes(), gen("m", 3, 3), Bytes(2 * kb, 0)};
      setR(t, enc(*c, ref::pt_mulB(*c, s1))); setS(t, s1);
      judge(x, t, "S-digit", 2);
      setS(t, (s1 + Z(1)) % c->L); if (i % 4 == 0) judge(x, t, "S-digit+1", 3); }});
  // 3b. every pair of digits / boundary values of S around 0, L, powers of two
  u64 nbd = T ? 600 : 60;
  v.push_back({"S-boundaries", "A = neutral, R = S*B with S within " + std::to_string(nbd) + " of 0, L, 2L, every 2^i (i multiple of 8) and of the largest encodable value; accepted exactly when S < L", (u64)(3 + kb + 1) * (2 * nbd + 1),
    [=](Ctx &x, u64 i) { Dec d(i); long off = (long)d(2 * nbd + 1) - (long)nbd; u64 w = d(3 + kb + 1); auto &s = S[i % S.size()];
      Z base = w == 0 ? Z(0) : w == 1 ? c->L : w == 2 ? c->L * Z(2) : Z::pow2(8 * (w - 3)); if (w == 3 + kb) base = Z::pow2(8 * kb);
      Z s1 = base + Z(off); if (s1 < Z(0) || s1 >= Z::pow2(8 * kb)) return;
      Tuple t{s, enc(*c, ref::pt_id()), Bytes(), gen("m", 4, 3), Bytes(2 * kb, 0)};
      setR(t, enc(*c, ref::pt_mulB(*c, s1 % c->L))); setS(t, s1);
      judge(x, t, "S-boundary", s1 < c->L ? 2 : 3); }});
  // 4. key scalars and messages (the hash drives the variable-base digits), accepted, and with -A, S+1, r+1 rejected
  u64 nm = T ? 40000 : is448 ? 1200 : 3000;
  v.push_back({"keys-and-messages", std::to_string(nm) + " (key scalar, nonce, message) triples: valid accepted; S+1, negated key and negated R rejected", nm,
    [=](Ctx &x, u64 i) { auto &s = S[i % S.size()];
      Z a = i < 64 ? Z((long)i) : i < 128 ? neg_mod(Z((long)i - 64), c->L) : i < 128 + ebits ? Z::pow2(i - 128) % c->L : Z::le(gen("a", i, kb).data(), kb) % c->L;
      Z r = i % 3 == 0 ? Z((long)i / 3) : Z::le(gen("r", i, kb).data(), kb) % c->L;
      Tuple t{s, enc(*c, ref::pt_mulB(*c, a)), Bytes(), gen("km", i, i % 40), Bytes(2 * kb, 0)};
      setR(t, enc(*c, ref::pt_mulB(*c, r)));
      Z k = ref::ed_k(*c, s.m, t.pk.data(), t.ctx.data(), t.ctx.size(), t.msg.data(), t.msg.size(), t.sig.data());
      Z s1 = (r + k * a) % c->L; setS(t, s1);
      judge(x, t, "valid", 2);
      if (i % 4) return;
      Tuple q = t; setS(q, (s1 + Z(1)) % c->L); judge(x, q, "S+1", 3);
      q = t; q.pk[kb - 1] ^= 0x80; judge(x, q, "negated-key");
      q = t; q.sig[kb - 1] ^= 0x80; judge(x, q, "negated-R"); }});
  // 4b. volume: rare carries and digits show only in many generic values
  u64 nv = T ? (is448 ? 60000 : 200000) : is448 ? 1500 : 4000;
  v.push_back({"counter-messages", std::to_string(nv) + " keys x 16 messages that count up: valid signatures accepted, the same signature rejected for the next message", nv,
    [=](Ctx &x, u64 i) { auto &s = S[i % S.size()]; Z a = Z::le(gen("va", i, kb).data(), kb) % c->L, r0 = Z::le(gen("vr", i, kb).data(), kb) % c->L, S1;
      alignas(64) u8 pk[64], sig[128]; ref::pt_enc(*c, ref::pt_mulB(*c, a), pk); ref::pt_enc(*c, ref::pt_mulB(*c, r0), sig); Bytes m(8), cx = s.hasctx() ? gen("c", 1, 2) : Bytes();
      for (u64 j = 16 * i; j < 16 * i + 16; j++) for (int g = 0; g < 2; g++) { u64 w = j + g; memcpy(m.data(), &w, 8); Z k = ref::ed_k(*c, s.m, pk, cx.data(), cx.size(), m.data(), 8, sig), S2 = (r0 + k * a) % c->L; if (!g) { S1 = S2; S1.le_out(sig + kb, kb); }
        x.about("%s counter message %lu", s.name, w); int got = s.verify(m.data(), 8, cx.data(), cx.size(), pk, sig), want = S1 == S2 ? 2 : 3; x.eval(); x.distinct(1);
        if (got != want) x.fail(std::string(got == 2 ? "accepts-" : "rejects-") + "counter-" + s.name, "key scalar " + a.str() + " nonce " + r0.str() + " message " + std::to_string(w) + " sig=" + hex(sig, 2 * kb) + " library " + std::to_string(got) + " model " + std::to_string(want)); } }});
  // 5. public-key decoding
  u64 ny = T ? 100000 : is448 ? 3000 : 6000;
  auto keycase = [=](Ctx &x, Bytes pk, u64 i, const char *kind) {
      auto &s = S[i % S.size()]; Pt A;
      Tuple t{s, pk, Bytes(), Bytes(2, (u8)i), Bytes(2 * kb, 0)};
      if (dec(*c, pk, A)) {      // on the curve: R := S*B - k*A needs k first, so use an A-independent reject
        setR(t, enc(*c, ref::pt_mulB(*c, Z(3)))); setS(t, Z(3));
        judge(x, t, kind);
      } else {                   // must be refused, also when the equation would hold for the point with that y reduced
        Bytes q = pk; q[kb - 1] &= 0x7f; if (is448) q[56] = 0;
        Z y = Z::le(q.data(), kb) % c->p; Bytes canon = le(y, kb); canon[kb - 1] |= pk[kb - 1] & 0x80;
        Pt B2; bool low = dec(*c, canon, B2) || (canon[kb - 1] &= 0x7f, dec(*c, canon, B2));
        setR(t, enc(*c, ref::pt_mulB(*c, Z(5)))); setS(t, Z(5));
        judge(x, t, kind, 4);
        if (low) {               // equation holds with the lenient reading for neutral/low order points
          for (int j = 0; j < (is448 ? 4 : 8); j++) {
            setR(t, enc(*c, ref::pt_add(*c, ref::pt_mulB(*c, Z(5)), ref::pt_mul(*c, Z(j), B2))));
            judge(x, t, kind, 4);
          }
        }
      }
  };
  v.push_back({"key-y-low", "public keys y = 0.." + std::to_string(ny - 1) + " x sign: bad-key flag exactly for undecodable ones", ny * 2,
    [=](Ctx &x, u64 i) { Bytes pk = le(Z((long)(i / 2)), kb); pk[kb - 1] |= (i & 1) << 7; keycase(x, pk, i, "key-low"); }});
  u64 nh = T ? 20000 : 600;
  v.push_back({"key-y-high", "y from 2^" + std::string(is448 ? "448" : "255") + "-1 downwards through p (all non-canonical values up to the bound) and below, x sign", nh * 2,
    [=](Ctx &x, u64 i) { Z y = Z::pow2(is448 ? 448 : 255) - Z(1) - Z((long)(i / 2)); Bytes pk = le(y, kb); pk[kb - 1] |= (i & 1) << 7; keycase(x, pk, i, "key-high"); }});
  v.push_back({"key-y-around-p", "y within " + std::to_string(nh) + " of p, x sign", nh * 4,
    [=](Ctx &x, u64 i) { Z y = c->p - Z((long)nh) + Z((long)(i / 2)); if (y >= Z::pow2(is448 ? 448 : 255)) return; Bytes pk = le(y, kb); pk[kb - 1] |= (i & 1) << 7; keycase(x, pk, i, "key-around-p"); }});
  v.push_back({"key-y-structured", "y = k*2^j and p - k*2^j for k in {1,3,5,7}, every j, x sign", (u64)8 * (is448 ? 448 : 255) * 2,
    [=](Ctx &x, u64 i) { Dec d(i); u64 sg = d(2), ng = d(2); long k = 2 * (long)d(4) + 1; u64 j = d(is448 ? 448 : 255);
      Z y = Z(k) * Z::pow2(j) % c->p; if (ng) y = neg_mod(y, c->p);
      Bytes pk = le(y, kb); pk[kb - 1] |= sg << 7; keycase(x, pk, i, "key-structured"); }});
  if (is448) v.push_back({"key-byte-56", "every value of the last key byte x {neutral, base, 2 generic keys, y=-1}", 256 * 5,
    [=](Ctx &x, u64 i) { Dec d(i); u64 b = d(256), w = d(5); Bytes pk = w == 0 ? enc(*c, ref::pt_id()) : w == 4 ? le(c->p - Z(1), kb) : enc(*c, ref::pt_mulB(*c, w == 1 ? Z(1) : Z::le(gen("b56", w, 40).data(), 40)));
      pk[56] = b; keycase(x, pk, i, "key-byte56"); }});
  // 6. keys with a low order component, all torsion components of R
  int h = is448 ? 4 : 8; u64 nt = T ? 400 : 40;
  v.push_back({"low-order-components", "A = aB + iT, R = rB + jT for every i, j (T generates the torsion) x " + std::to_string(nt) + " (a, r, message)", (u64)(h * h) * nt,
    [=](Ctx &x, u64 i) { Dec d(i); long ti = d(h), tj = d(h); u64 b = d(nt); auto &s = S[b % S.size()];
      Z a = b % 4 == 0 ? Z(0) : Z::le(gen("ta", b, kb).data(), kb) % c->L, r = b % 5 == 0 ? Z(0) : Z::le(gen("tr", b, kb).data(), kb) % c->L;
      Pt Tn = torsion(*c);
      Tuple t{s, enc(*c, ref::pt_add(*c, ref::pt_mulB(*c, a), ref::pt_mul(*c, Z(ti), Tn))), Bytes(), gen("tm", b, 4), Bytes(2 * kb, 0)};
      setR(t, enc(*c, ref::pt_add(*c, ref::pt_mulB(*c, r), ref::pt_mul(*c, Z(tj), Tn))));
      Z k = ref::ed_k(*c, s.m, t.pk.data(), 0, 0, t.msg.data(), t.msg.size(), t.sig.data());
      setS(t, (r + k * a) % c->L);
      judge(x, t, "low-order"); }});
  // 7. encodings of R: non-canonical, negative zero, off curve
  u64 nr = T ? 3000 : 300;
  v.push_back({"R-encodings", "A = neutral, S = 0 or small: R with every non-canonical / off-curve y from the top and bottom " + std::to_string(nr) + " values x sign", nr * 2 * 2 * 2,
    [=](Ctx &x, u64 i) { Dec d(i); u64 sg = d(2), top = d(2), s0 = d(2), o = d(nr); auto &s = S[i % S.size()];
      Z y = top ? Z::pow2(is448 ? 448 : 255) - Z(1) - Z((long)o) : Z((long)o);
      Bytes R = le(y, kb); R[kb - 1] |= sg << 7;
      Tuple t{s, enc(*c, ref::pt_id()), Bytes(), gen("m", 5, 2), Bytes(2 * kb, 0)};
      setR(t, R); setS(t, s0 ? Z((long)o) : Z(0)); judge(x, t, "R-encoding"); }});
  if (is448) v.push_back({"R-and-S-byte-56", "every value of the last byte of R and of S in a valid signature", 512,
    [=](Ctx &x, u64 i) { Tuple t = honest(S[i % S.size()], 77, 3, 2); t.sig[i < 256 ? 56 : 113] = i % 256; judge(x, t, "byte56"); }});
  // 8. message and context lengths
  u64 ml = T ? 600 : 300;
  v.push_back({"message-lengths", "valid tuples with every message length 0.." + std::to_string(ml) + " accepted; same with the last byte changed, one byte dropped or added rejected", (ml + 1) * S.size() * 4,
    [=](Ctx &x, u64 i) { Dec d(i); auto &s = S[d(S.size())]; u64 k = d(4), n = d(ml + 1); Tuple t = honest(s, 3, n, n % 7);
      if (k == 1) { if (!n) return; t.msg[n - 1] ^= 0x40; } if (k == 2) { if (!n) return; t.msg.pop_back(); } if (k == 3) t.msg.push_back(0);
      judge(x, t, k ? "length-change" : "valid", k ? 3 : 2); }});
  v.push_back({"context-lengths", "valid tuples with every context length 0..255 accepted; changed contexts rejected", 256 * S.size() * 4,
    [=](Ctx &x, u64 i) { Dec d(i); auto &s = S[d(S.size())]; if (!s.hasctx()) return; u64 k = d(4), n = d(256); Tuple t = honest(s, 4, 20, n);
      if (k == 1) { if (!n) return; t.ctx[n - 1] ^= 0x04; } if (k == 2) { if (!n) return; t.ctx.pop_back(); } if (k == 3) { if (n == 255) return; t.ctx.push_back(0); }
      judge(x, t, k ? "context-change" : "valid", k ? 3 : 2); }});
  v.push_back({"huge-messages", "a signature over a message of 2^32+5 bytes is accepted; the one over its first 5 bytes is not", 2 * S.size(),
    [=](Ctx &x, u64 i) { auto &s = S[i / 2]; bool cut = i & 1; u64 n = (1ull << 32) + 5; Huge h(n, 8); if (!h.p) { x.count("huge-skipped"); return; }
      Bytes sk = secret(9, kb), cx = s.hasctx() ? gen("c", 2, 6) : Bytes(); u8 want[128]; alignas(64) u8 pk[64];
      ref::EdKey k = ref::ed_key(s.c(), sk.data()); memcpy(pk, k.pk, kb);
      Z r0 = Z::le(gen("hr", 1, kb).data(), kb) % c->L; Bytes R = enc(*c, ref::pt_mulB(*c, r0)); memcpy(want, R.data(), kb);
      Z kk = ref::ed_k(*c, s.m, pk, cx.data(), cx.size(), h.p, cut ? 5 : n, want); ((r0 + kk * k.a) % c->L).le_out(want + kb, kb);
      x.about("%s verify of a %lu byte message (%s)", s.name, n, cut ? "signature of a prefix" : "valid");
      int r = s.verify(h.p, n, cx.data(), cx.size(), pk, want); x.eval(); x.seen(vf::hash_bytes(want, 2 * kb));
      if (r != (cut ? 3 : 2)) x.fail(std::string(cut ? "accepts-huge-" : "rejects-huge-") + s.name, std::to_string(n) + " byte message: returned " + std::to_string(r)); }, 240});
  return v;
}
static int ver_main(int argc, char **argv, const char *id, bool is448) {
  vf::Check c;
  c.property = id;
  c.rule = "every (public key, context, message, signature) of the listed spaces is decided by the built library and by an independent big-integer RFC 8032 verifier (strict decoding, S < L, cofactorless equation); verdict and flag must agree; distinct_nontrivial = distinct tuples";
  c.assumptions = {"tuples outside the listed finite alphabets are not executed", "the hash output cannot be chosen, so the digits of k are covered by enumeration of messages; S is chosen freely through a neutral key"};
  c.hang_s = 60;
  c.sections = ver_sections(is448);
  c.post = [](std::vector<std::pair<std::string, u64>> &cv, std::vector<std::string> &err) {
    u64 a = 0, r = 0, b = 0;
    for (auto &k : cv) { if (k.first == "expected_accept") a = k.second; if (k.first == "expected_reject") r = k.second; if (k.first == "expected_bad_key") b = k.second; }
    if (!a || !r || !b) err.push_back("some verdict never occurred");
  };
  return vf::run(argc, argv, c);
}
