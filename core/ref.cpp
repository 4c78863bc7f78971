#include <cstdio>
#include <cstdlib>
#include "ref.h"
#include <map>

namespace ref {
// ---------------------------------------------------------------- SHA-512
static bool isprime(unsigned n) { for (unsigned i = 2; i * i <= n; i++) if (n % i == 0) return false; return n > 1; }
static u64 K512[80], H512[8], H384[8];
static bool sha_init() {
  // first 64 bits of the fractional parts of cube/square roots of primes
  unsigned n = 2, i = 0;
  while (i < 80) {
    if (isprime(n)) {
      Z t(n), r;
      mpz_mul_2exp(t.v, t.v, 3 * 64);
      mpz_root(r.v, t.v, 3);
      mpz_fdiv_r_2exp(r.v, r.v, 64);
      K512[i] = mpz_get_ui(r.v);
      if (i < 16) {
        Z s(n), q;
        mpz_mul_2exp(s.v, s.v, 128);
        mpz_sqrt(q.v, s.v);
        mpz_fdiv_r_2exp(q.v, q.v, 64);
        (i < 8 ? H512 : H384)[i % 8] = mpz_get_ui(q.v);
      }
      i++;
    }
    n++;
  }
  return true;
}
static bool sha_ready = sha_init();
static inline u64 ror(u64 x, int n) { return x >> n | x << (64 - n); }
__attribute__((optimize("O3"))) static void block512(u64 h[8], const u8 *p) {
  u64 w[80];
  for (int t = 0; t < 16; t++) { u64 x; memcpy(&x, p + 8 * t, 8); w[t] = __builtin_bswap64(x); }
#pragma GCC unroll 16
  for (int t = 16; t < 80; t++) {
    u64 s0 = ror(w[t - 15], 1) ^ ror(w[t - 15], 8) ^ (w[t - 15] >> 7);
    u64 s1 = ror(w[t - 2], 19) ^ ror(w[t - 2], 61) ^ (w[t - 2] >> 6);
    w[t] = s1 + w[t - 7] + s0 + w[t - 16];
  }
  u64 a = h[0], b = h[1], c = h[2], d = h[3], e = h[4], f = h[5], g = h[6], hh = h[7];
#pragma GCC unroll 80
  for (int t = 0; t < 80; t++) {
    u64 T1 = hh + (ror(e, 14) ^ ror(e, 18) ^ ror(e, 41)) + ((e & f) ^ (~e & g)) + K512[t] + w[t];
    u64 T2 = (ror(a, 28) ^ ror(a, 34) ^ ror(a, 39)) + ((a & b) ^ (a & c) ^ (b & c));
    hh = g; g = f; f = e; e = d + T1; d = c; c = b; b = a; a = T1 + T2;
  }
  h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e; h[5] += f; h[6] += g; h[7] += hh;
}
Sha512::Sha512(bool is384) { memcpy(h, is384 ? H384 : H512, sizeof h); }
Sha512 &Sha512::add(const void *pp, size_t n) {
  const u8 *p = (const u8 *)pp;
  total += n;
  if (!buf.empty() || n < 128) {
    size_t t = std::min(n, 128 - buf.size());
    buf.insert(buf.end(), p, p + t);
    p += t; n -= t;
    if (buf.size() == 128) { block512(h, buf.data()); buf.clear(); }
  }
  while (n >= 128) { block512(h, p); p += 128; n -= 128; }
  if (n) buf.insert(buf.end(), p, p + n);
  return *this;
}
void Sha512::fin(u8 out[64], unsigned ub, unsigned nb) {
  unsigned __int128 bits = (unsigned __int128)total * 8 + nb;
  u8 last = 0x80 >> nb;
  for (unsigned i = 0; i < nb; i++) last |= ub & (0x80 >> i);
  buf.push_back(last);
  while (buf.size() % 128 != 112) buf.push_back(0);
  for (int i = 15; i >= 0; i--) buf.push_back((u8)(bits >> (8 * i)));
  for (size_t i = 0; i < buf.size(); i += 128) block512(h, &buf[i]);
  for (int i = 0; i < 64; i++) out[i] = (u8)(h[i / 8] >> (56 - 8 * (i % 8)));
}
void sha512(const u8 *m, size_t n, u8 out[64]) { Sha512 s; s.add(m, n); s.fin(out); }

// ---------------------------------------------------------------- Keccak
// rotation offsets and round constants, computed from their definitions in FIPS 202
struct KTab { int rot[25]; u64 RC[24];
  constexpr KTab() : rot(), RC() {
    int x = 1, y = 0;
    for (int t = 0; t < 24; t++) { rot[x + 5 * y] = ((t + 1) * (t + 2) / 2) % 64; int nx = y, ny = (2 * x + 3 * y) % 5; x = nx; y = ny; }
    unsigned r = 1;   // LFSR x^8+x^6+x^5+x^4+1
    for (int i = 0; i < 24; i++)
      for (int j = 0; j <= 6; j++) {
        if (r & 1) RC[i] |= 1ull << ((1 << j) - 1);
        r = r << 1 ^ ((r >> 7) * 0x171);
      }
  } };
static constexpr KTab KT;
__attribute__((optimize("O3"))) static void keccakf(u64 A[25]) {
  for (int rd = 0; rd < 24; rd++) {
    u64 C[5], B[25];
#pragma GCC unroll 5
    for (int x = 0; x < 5; x++) C[x] = A[x] ^ A[x + 5] ^ A[x + 10] ^ A[x + 15] ^ A[x + 20];
#pragma GCC unroll 5
    for (int x = 0; x < 5; x++) { u64 D = C[(x + 4) % 5] ^ (C[(x + 1) % 5] << 1 | C[(x + 1) % 5] >> 63);
#pragma GCC unroll 5
      for (int y = 0; y < 5; y++) A[x + 5 * y] ^= D; }
#pragma GCC unroll 25
    for (int i = 0; i < 25; i++) { int x = i % 5, y = i / 5, k = KT.rot[i]; u64 v = A[i]; B[y + 5 * ((2 * x + 3 * y) % 5)] = k ? (v << k | v >> (64 - k) % 64) : v; }
#pragma GCC unroll 25
    for (int i = 0; i < 25; i++) { int x = i % 5, y = i - x; A[i] = B[i] ^ (~B[(x + 1) % 5 + y] & B[(x + 2) % 5 + y]); }
    A[0] ^= KT.RC[rd];
  }
}
void keccak(unsigned rate, u8 suffix, const u8 *m, size_t n, u8 *out, size_t d) {
  u64 A[25] = {0};
  u8 *S = (u8 *)A;
  while (n >= rate) { for (unsigned i = 0; i < rate / 8; i++) { u64 v; memcpy(&v, m + 8 * i, 8); A[i] ^= v; } keccakf(A); m += rate; n -= rate; }
  for (unsigned i = 0; i < n; i++) S[i] ^= m[i];
  S[n] ^= suffix; S[rate - 1] ^= 0x80;
  keccakf(A);
  while (d) { size_t t = d < rate ? d : rate; memcpy(out, S, t); out += t; d -= t; if (d) keccakf(A); }
}

// ---------------------------------------------------------------- curves
const Curve &c25519() {
  static Curve *c = nullptr;
  if (!c) {
    Curve *k = new Curve;
    k->is448 = false; k->bytes = 32; k->kbytes = 32; k->hbits = 512;
    k->p = Z::pow2(255) - Z(19);
    k->L = Z::pow2(252) + Z::dec("27742317777372353535851937790883648493");
    k->a = k->p - Z(1);
    k->d = ((k->p - Z(121665)) * invm(Z(121666), k->p)) % k->p;
    k->a24 = Z(121665);
    k->By = (Z(4) * invm(Z(5), k->p)) % k->p;
    Z x2 = ((k->By * k->By - Z(1)) * invm((k->d * k->By * k->By + Z(1)) % k->p, k->p)) % k->p;
    sqrtm(k->Bx, x2, k->p);
    if (mpz_odd_p(k->Bx.v)) k->Bx = k->p - k->Bx;
    c = k;
  }
  return *c;
}
const Curve &c448() {
  static Curve *c = nullptr;
  if (!c) {
    Curve *k = new Curve;
    k->is448 = true; k->bytes = 56; k->kbytes = 57; k->hbits = 912;
    k->p = Z::pow2(448) - Z::pow2(224) - Z(1);
    k->L = Z::pow2(446) - Z::hex("8335dc163bb124b65129c96fde933d8d723a70aadc873d6d54a7bb0d");
    k->a = Z(1);
    k->d = k->p - Z(39081);
    k->a24 = Z(39081);
    k->Bx = Z::dec("224580040295924300187604334099896036246789641632564134246125461686950415467406032909029192869357953282578032075146446173674602635247710");
    k->By = Z::dec("298819210078481492676017930443930673437544040154080242095928241372331506189835876003536878655418784733982303233503462500531545062832660");
    c = k;
  }
  return *c;
}
Z powm(const Z &b, const Z &e, const Z &p) { Z r; mpz_powm(r.v, b.v, e.v, p.v); return r; }
Z invm(const Z &a, const Z &p) { Z t = a % p, r; if (mpz_sgn(t.v) == 0) return Z(0); mpz_invert(r.v, t.v, p.v); return r; }
bool sqrtm(Z &r, const Z &a0, const Z &p) {
  Z a = a0 % p;
  if (mpz_tstbit(p.v, 1)) {            // p = 3 mod 4
    Z e = p + Z(1); mpz_fdiv_q_2exp(e.v, e.v, 2);
    r = powm(a, e, p);
  } else {                             // p = 5 mod 8
    Z e = p + Z(3); mpz_fdiv_q_2exp(e.v, e.v, 3);
    r = powm(a, e, p);
    if ((r * r) % p != a) {
      Z f = p - Z(1); mpz_fdiv_q_2exp(f.v, f.v, 2);
      r = (r * powm(Z(2), f, p)) % p;
    }
  }
  return (r * r) % p == a;
}
Pt pt_id() { return {Z(0), Z(1), Z(1)}; }
Pt pt_affine(const Z &x, const Z &y) { return {x, y, Z(1)}; }
Pt pt_add(const Curve &c, const Pt &P, const Pt &Q) {
  // add-2008-bbjlp, complete for both curves
  const Z &p = c.p;
  Z A = P.Zc * Q.Zc % p, B = A * A % p, C = P.X * Q.X % p, D = P.Y * Q.Y % p;
  Z E = c.d * C % p * D % p;
  Z F = B - E, G = B + E;
  Z t = (P.X + P.Y) * (Q.X + Q.Y) - C - D;
  Z X = A * F % p * t % p;
  Z Y = A * G % p * (D - c.a * C) % p;
  Z Zr = F * G % p;
  return {X, Y, Zr};
}
Pt pt_neg(const Curve &c, const Pt &P) { return {(c.p - P.X) % c.p, P.Y, P.Zc}; }
Pt pt_mul(const Curve &c, const Z &k, const Pt &P) {
  Pt R = pt_id();
  for (long i = (long)mpz_sizeinbase(k.v, 2) - 1; i >= 0; i--) {
    R = pt_add(c, R, R);
    if (mpz_tstbit(k.v, i)) R = pt_add(c, R, P);
  }
  return R;
}
Pt pt_mulB(const Curve &c, const Z &k) {
  const int W = 8, N = 59;   // t[255 i + j - 1] = j 2^(8 i) B
  static std::vector<Pt> tab[2];
  auto &t = tab[c.is448];
  if (t.empty()) {
    Pt P = pt_affine(c.Bx, c.By);
    for (int i = 0; i < N; i++) { Pt Q = P; for (int j = 1; j < 1 << W; j++) { t.push_back(Q); Q = pt_add(c, Q, P); } P = Q; }
  }
  Pt R = pt_id();
  for (int i = 0; i * W < (int)mpz_sizeinbase(k.v, 2); i++) { unsigned d = 0; for (int b = 0; b < W; b++) d |= mpz_tstbit(k.v, i * W + b) << b; if (d) R = pt_add(c, R, t.at(i * ((1 << W) - 1) + d - 1)); }
  return R;
}
void pt_aff(const Curve &c, const Pt &P, Z &x, Z &y) { Z i = invm(P.Zc, c.p); x = P.X * i % c.p; y = P.Y * i % c.p; }
bool pt_eq(const Curve &c, const Pt &P, const Pt &Q) {
  return (P.X * Q.Zc - Q.X * P.Zc) % c.p == Z(0) && (P.Y * Q.Zc - Q.Y * P.Zc) % c.p == Z(0);
}
bool pt_on(const Curve &c, const Z &x, const Z &y) {
  Z x2 = x * x % c.p, y2 = y * y % c.p;
  return (c.a * x2 + y2 - Z(1) - c.d * x2 % c.p * y2) % c.p == Z(0);
}
void pt_enc(const Curve &c, const Pt &P, u8 *out) {
  Z x, y; pt_aff(c, P, x, y);
  y.le_out(out, c.kbytes);
  if (mpz_odd_p(x.v)) out[c.kbytes - 1] |= 0x80;
}
bool pt_dec(const Curve &c, const u8 *in, Pt &P) {
  u8 b[57]; memcpy(b, in, c.kbytes);
  int s = b[c.kbytes - 1] >> 7; b[c.kbytes - 1] &= 0x7f;
  Z y = Z::le(b, c.kbytes);
  if (y >= c.p) return false;
  Z y2 = y * y % c.p;
  Z u = (y2 - Z(1)) % c.p, v = (c.d * y2 - c.a) % c.p;   // x^2 = (y^2-1)/(d y^2 - a)
  Z x;
  if (!sqrtm(x, u * invm(v, c.p) % c.p, c.p)) return false;
  if (x == Z(0) && s) return false;
  if ((int)mpz_odd_p(x.v) != s) x = c.p - x;
  P = pt_affine(x, y);
  return true;
}
// ---------------------------------------------------------------- RFC 7748
static Z clamp(const Curve &c, const u8 *k) {
  u8 b[56]; memcpy(b, k, c.bytes);
  if (c.is448) { b[0] &= 252; b[55] |= 128; }
  else { b[0] &= 248; b[31] &= 127; b[31] |= 64; }
  return Z::le(b, c.bytes);
}
void xdh(const Curve &c, const u8 *kk, const u8 *uu, u8 *out) {
  Z k = clamp(c, kk);
  u8 ub[56]; memcpy(ub, uu, c.bytes);
  if (!c.is448) ub[31] &= 127;
  const Z &p = c.p;
  Z x1 = Z::le(ub, c.bytes) % p, x2(1), z2(0), x3 = x1, z3(1);
  int bits = c.is448 ? 448 : 255, sw = 0;
  mpz_t A, AA, B, BB, E, C, D, DA, CB, t;
  mpz_inits(A, AA, B, BB, E, C, D, DA, CB, t, (mpz_ptr)0);
  for (int i = bits - 1; i >= 0; i--) {
    int b = mpz_tstbit(k.v, i);
    sw ^= b;
    if (sw) { mpz_swap(x2.v, x3.v); mpz_swap(z2.v, z3.v); }
    sw = b;
    mpz_add(A, x2.v, z2.v); mpz_mul(AA, A, A); mpz_mod(AA, AA, p.v);
    mpz_sub(B, x2.v, z2.v); mpz_mul(BB, B, B); mpz_mod(BB, BB, p.v);
    mpz_sub(E, AA, BB);
    mpz_add(C, x3.v, z3.v); mpz_sub(D, x3.v, z3.v);
    mpz_mul(DA, D, A); mpz_mod(DA, DA, p.v);
    mpz_mul(CB, C, B); mpz_mod(CB, CB, p.v);
    mpz_add(t, DA, CB); mpz_mul(x3.v, t, t); mpz_mod(x3.v, x3.v, p.v);
    mpz_sub(t, DA, CB); mpz_mul(t, t, t); mpz_mod(t, t, p.v);
    mpz_mul(z3.v, x1.v, t); mpz_mod(z3.v, z3.v, p.v);
    mpz_mul(x2.v, AA, BB); mpz_mod(x2.v, x2.v, p.v);
    mpz_mul(t, c.a24.v, E); mpz_add(t, t, AA); mpz_mul(z2.v, E, t); mpz_mod(z2.v, z2.v, p.v);
  }
  if (sw) { mpz_swap(x2.v, x3.v); mpz_swap(z2.v, z3.v); }
  mpz_clears(A, AA, B, BB, E, C, D, DA, CB, t, (mpz_ptr)0);
  (x2 * invm(z2, p) % p).le_out(out, c.bytes);
}
void xdh_base(const Curve &c, const u8 *kk, u8 *out) { xdh_int(c, clamp(c, kk), out); }
void xdh_exchange(const Curve &c, const u8 *a, const u8 *b, u8 *out) { xdh_int(c, clamp(c, a) * clamp(c, b) % c.L, out); }
void xdh_int(const Curve &c, const Z &k, u8 *out) {
  Z x, y;
  if (!c.is448) {
    pt_aff(c, pt_mulB(c, k), x, y);                       // u = (1+y)/(1-y)
    ((Z(1) + y) * invm(Z(1) - y, c.p) % c.p).le_out(out, 32);
  } else {
    // RFC 7748 4.2: 4-isogeny edwards448 -> curve448, u = y^2/x^2, and the
    // base point maps to u = 5, so k*(5) is the image of k*B.
    pt_aff(c, pt_mulB(c, k), x, y);
    Z r = y * invm(x, c.p) % c.p;
    (r * r % c.p).le_out(out, 56);
  }
}
// ---------------------------------------------------------------- RFC 8032
Z ed_hash(const Curve &c, Mode m, const u8 *ctx, size_t cl, std::vector<std::pair<const u8 *, size_t>> parts, u8 *raw) {
  std::vector<u8> b;
  auto add = [&](const void *p, size_t n) { if (n) b.insert(b.end(), (const u8 *)p, (const u8 *)p + n); };
  u8 f = m == PH, l = (u8)cl;
  if (c.is448) { add("SigEd448", 8); add(&f, 1); add(&l, 1); add(ctx, cl); }
  else if (m != PURE) { add("SigEd25519 no Ed25519 collisions", 32); add(&f, 1); add(&l, 1); add(ctx, cl); }
  for (auto &q : parts) add(q.first, q.second);
  u8 h[114];
  if (c.is448) shake256(b.data(), b.size(), h, 114); else sha512(b.data(), b.size(), h);
  if (raw) memcpy(raw, h, c.is448 ? 114 : 64);
  return Z::le(h, c.is448 ? 114 : 64) % c.L;
}
EdKey ed_key(const Curve &c, const u8 *sk) {
  EdKey k; u8 h[114];
  if (c.is448) { shake256(sk, 57, h, 114); h[0] &= 252; h[55] |= 128; h[56] = 0; }
  else { sha512(sk, 32, h); h[0] &= 248; h[31] &= 127; h[31] |= 64; }
  k.a = Z::le(h, c.kbytes);
  memcpy(k.prefix, h + c.kbytes, c.kbytes);
  pt_enc(c, pt_mulB(c, k.a % c.L), k.pk);
  return k;
}
static void prehash(const Curve &c, Mode m, const u8 *&msg, size_t &ml, u8 ph[64]) {
  if (m != PH) return;
  if (c.is448) shake256(msg, ml, ph, 64); else sha512(msg, ml, ph);
  msg = ph; ml = 64;
}
void ed_sign(const Curve &c, Mode m, const EdKey &k, const u8 *pk, const u8 *ctx, size_t cl, const u8 *msg, size_t ml, u8 *sig) {
  u8 ph[64]; prehash(c, m, msg, ml, ph);
  Z r = ed_hash(c, m, ctx, cl, {{k.prefix, c.kbytes}, {msg, ml}});
  pt_enc(c, pt_mulB(c, r), sig);
  Z h = ed_hash(c, m, ctx, cl, {{sig, c.kbytes}, {pk, c.kbytes}, {msg, ml}});
  ((r + h * k.a) % c.L).le_out(sig + c.kbytes, c.kbytes);
}
Z ed_k(const Curve &c, Mode m, const u8 *pk, const u8 *ctx, size_t cl, const u8 *msg, size_t ml, const u8 *R) {
  u8 ph[64]; prehash(c, m, msg, ml, ph);
  return ed_hash(c, m, ctx, cl, {{R, c.kbytes}, {pk, c.kbytes}, {msg, ml}});
}
int ed_verify(const Curve &c, Mode m, const u8 *pk, const u8 *ctx, size_t cl, const u8 *msg, size_t ml, const u8 *sig) {
  Pt A;
  if (!pt_dec(c, pk, A)) return 4;
  Z S = Z::le(sig + c.kbytes, c.kbytes);
  if (S >= c.L) return 3;
  Z h = ed_k(c, m, pk, ctx, cl, msg, ml, sig);
  Pt Q = pt_add(c, pt_mulB(c, S), pt_neg(c, pt_mul(c, h, A)));
  u8 e[57]; pt_enc(c, Q, e);
  return memcmp(e, sig, c.kbytes) == 0 ? 2 : 3;
}
// ---------------------------------------------------------------- h2c
Z h2f(u8 prefix, const u8 *msg, size_t n) {
  // what the library defines: SHA-512(prefix || msg), little endian, mod the group order
  u8 h[64]; Sha512 s; s.add(&prefix, 1).add(msg, n).fin(h);
  return Z::le(h, 64) % c25519().L;
}
Pt elligator2_ed25519(const Z &u) {
  // RFC 9380 6.7.1/6.8.2 from the mathematical definition (section 6.7.1
  // "Operations"), Z = 2, then the rational map to edwards25519.
  const Curve &c = c25519();
  const Z &p = c.p;
  Z J(486662);
  Z x1 = (p - J) * invm((Z(1) + Z(2) * u * u) % p, p) % p;
  if (x1 == Z(0)) x1 = (p - J) % p;
  auto g = [&](const Z &x) { return (x * x % p * x + J * x % p * x + x) % p; };
  Z x, y;
  if (sqrtm(y, g(x1), p)) { x = x1; if (!mpz_odd_p(y.v)) y = (p - y) % p; }
  else { x = (p - x1 - J) % p; sqrtm(y, g(x), p); if (mpz_odd_p(y.v)) y = (p - y) % p; }
  Z c1; sqrtm(c1, p - Z(486664), p); if (mpz_odd_p(c1.v)) c1 = p - c1;
  // (s,t) -> (v,w) = (c1*s/t, (s-1)/(s+1)); exceptional -> (0,1)
  if ((y * (x + Z(1))) % p == Z(0)) return pt_id();
  return pt_affine(c1 * x % p * invm(y, p) % p, (x - Z(1)) * invm(x + Z(1), p) % p);
}
}  // namespace ref
