// Reference model: mathematics only (GMP integers, affine/projective textbook
// formulas, FIPS 180-4 / FIPS 202 written from the standards).  It shares no
// code with the library under test and is checked by checks/refcheck against
// published vectors and Python's hashlib in setup_cmd.
#pragma once
#include <gmp.h>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>

namespace ref {
typedef uint8_t u8;
typedef uint64_t u64;

struct Z {                       // RAII mpz
  mpz_t v;
  Z() { mpz_init(v); }
  Z(long x) { mpz_init_set_si(v, x); }
  Z(const Z &o) { mpz_init_set(v, o.v); }
  Z(Z &&o) noexcept { mpz_init(v); mpz_swap(v, o.v); }
  Z &operator=(const Z &o) { mpz_set(v, o.v); return *this; }
  Z &operator=(Z &&o) noexcept { mpz_swap(v, o.v); return *this; }
  ~Z() { mpz_clear(v); }
  static Z hex(const char *s) { Z z; mpz_set_str(z.v, s, 16); return z; }
  static Z dec(const char *s) { Z z; mpz_set_str(z.v, s, 10); return z; }
  static Z le(const void *p, size_t n) { Z z; mpz_import(z.v, n, -1, 1, 0, 0, p); return z; }
  static Z pow2(unsigned n) { Z z(1); mpz_mul_2exp(z.v, z.v, n); return z; }
  void le_out(u8 *p, size_t n) const {   // value must fit
    memset(p, 0, n);
    size_t c;
    if (mpz_sizeinbase(v, 256) > n) { fprintf(stderr, "le_out overflow\n"); abort(); }
    mpz_export(p, &c, -1, 1, 0, 0, v);
  }
  std::string str() const { char *s = mpz_get_str(0, 16, v); std::string r = s; free(s); return r; }
};
inline Z operator+(const Z &a, const Z &b) { Z r; mpz_add(r.v, a.v, b.v); return r; }
inline Z operator-(const Z &a, const Z &b) { Z r; mpz_sub(r.v, a.v, b.v); return r; }
inline Z operator*(const Z &a, const Z &b) { Z r; mpz_mul(r.v, a.v, b.v); return r; }
inline Z operator%(const Z &a, const Z &b) { Z r; mpz_mod(r.v, a.v, b.v); return r; }   // nonnegative
inline bool operator==(const Z &a, const Z &b) { return mpz_cmp(a.v, b.v) == 0; }
inline bool operator!=(const Z &a, const Z &b) { return mpz_cmp(a.v, b.v) != 0; }
inline bool operator<(const Z &a, const Z &b) { return mpz_cmp(a.v, b.v) < 0; }
inline bool operator>=(const Z &a, const Z &b) { return mpz_cmp(a.v, b.v) >= 0; }

// ---- hashing -------------------------------------------------------------
void sha512(const u8 *m, size_t n, u8 out[64]);
struct Sha512 {                   // same function, absorbing pieces
  std::vector<u8> buf; u64 h[8]; u64 total = 0;
  explicit Sha512(bool is384 = false); Sha512 &add(const void *p, size_t n); void fin(u8 out[64], unsigned ub = 0, unsigned nb = 0);   // nb trailing bits, the high ones of ub
};
void keccak(unsigned rate, u8 suffix, const u8 *m, size_t n, u8 *out, size_t outlen);
inline void shake256(const u8 *m, size_t n, u8 *out, size_t d) { keccak(136, 0x1f, m, n, out, d); }
inline void shake128(const u8 *m, size_t n, u8 *out, size_t d) { keccak(168, 0x1f, m, n, out, d); }
inline void sha3(unsigned bits, const u8 *m, size_t n, u8 *out) { keccak(200 - bits / 4, 0x06, m, n, out, bits / 8); }

// ---- fields and curves -----------------------------------------------------
struct Curve {
  bool is448;
  unsigned bytes;      // field bytes: 32 / 56
  unsigned kbytes;     // EdDSA key bytes 32 / 57
  Z p, L, d, a;        // a x^2 + y^2 = 1 + d x^2 y^2
  Z a24;               // (A-2)/4 for the ladder  (RFC 7748 a24)
  Z Bx, By;
  unsigned hbits;
};
const Curve &c25519();
const Curve &c448();

Z invm(const Z &a, const Z &p);           // 0 -> 0
Z powm(const Z &b, const Z &e, const Z &p);
bool sqrtm(Z &r, const Z &a, const Z &p); // any square root, false if none

struct Pt { Z X, Y, Zc; };                // projective Edwards
Pt pt_id();
Pt pt_affine(const Z &x, const Z &y);
Pt pt_add(const Curve &c, const Pt &P, const Pt &Q);
Pt pt_neg(const Curve &c, const Pt &P);
Pt pt_mul(const Curve &c, const Z &k, const Pt &P);
Pt pt_mulB(const Curve &c, const Z &k);   // table of 2^i B
void pt_aff(const Curve &c, const Pt &P, Z &x, Z &y);
bool pt_eq(const Curve &c, const Pt &P, const Pt &Q);
bool pt_on(const Curve &c, const Z &x, const Z &y);
void pt_enc(const Curve &c, const Pt &P, u8 *out);      // kbytes
bool pt_dec(const Curve &c, const u8 *in, Pt &P);       // RFC 8032, strict

// ---- X25519 / X448 ---------------------------------------------------------
void xdh(const Curve &c, const u8 *k, const u8 *u, u8 *out);   // RFC 7748 ladder
void xdh_base(const Curve &c, const u8 *k, u8 *out);           // via Edwards, fast
void xdh_int(const Curve &c, const Z &k, u8 *out);             // k times the base point, k not a multiple of L
void xdh_exchange(const Curve &c, const u8 *a, const u8 *b, u8 *out);   // what the owners of secrets a and b agree on

// ---- EdDSA -----------------------------------------------------------------
enum Mode { PURE = 0, CTX = 1, PH = 2 };   // PURE only differs from CTX for Ed25519
Z ed_hash(const Curve &c, Mode m, const u8 *ctx, size_t cl, std::vector<std::pair<const u8 *, size_t>> parts, u8 *raw = nullptr);
struct EdKey { Z a; u8 prefix[57]; u8 pk[57]; };
EdKey ed_key(const Curve &c, const u8 *sk);
void ed_sign(const Curve &c, Mode m, const EdKey &k, const u8 *pk, const u8 *ctx, size_t cl, const u8 *msg, size_t ml, u8 *sig);
// 2 = OK, 3 = invalid signature, 4 = undecodable key  (RFC 8032 5.1.7/5.2.7,
// cofactorless equation, which is the one the library computes)
int ed_verify(const Curve &c, Mode m, const u8 *pk, const u8 *ctx, size_t cl, const u8 *msg, size_t ml, const u8 *sig);
Z ed_k(const Curve &c, Mode m, const u8 *pk, const u8 *ctx, size_t cl, const u8 *msg, size_t ml, const u8 *R);

// ---- hash to curve (edwards25519, the construction of the library) ---------
Z h2f(u8 prefix, const u8 *msg, size_t n);
Pt elligator2_ed25519(const Z &u);
}  // namespace ref
