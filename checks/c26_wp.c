/* Whole-program optimisation.  This file and the library are compiled and
   linked with -flto, so that the compiler sees through the tables of
   operations and inlines across the files.  Every operation is called twice
   on the same values: by name, where everything may be inlined, and through
   pointers the compiler knows nothing about. */
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include "faz_fp_avx2.h"
#include "faz_ecdh_avx2.h"
#include "faz_eddsa_avx2.h"
#include "faz_hash_avx2.h"
#include "sha512.h"
#include "sha3.h"
void sha512_2w_avx(uint8_t *m[2], size_t n, uint8_t *d[2]) __attribute__((weak));
void sha512_2w_avx_256b(uint8_t *m[2], uint8_t *d[2]) __attribute__((weak));
typedef ALIGN uint64_t E25[12]; /* a one-way element is read as three vectors */
#define MAXW 512
/* only this element has 12 words: ten digits and two words of padding, which mean nothing */
static inline void ld(void *d, const uint64_t *s, int n) { if (n == 12) { memset(d, 0, 96); n = 10; } for (int i = 0; i < n; i++) memcpy((char *)d + 8 * i, s + i, 8); }
static inline void st(uint64_t *d, const void *s, int n) { if (n == 12) n = 10; for (int i = 0; i < n; i++) memcpy(d + i, (const char *)s + 8 * i, 8); }
static inline void ldb(uint8_t *d, const uint64_t *s, int n) { for (int i = 0; i < n; i++) d[i] = ((const uint8_t *)s)[i]; }
static inline void stb(uint64_t *d, const uint8_t *s, int n) { for (int i = 0; i < n; i++) ((uint8_t *)d)[i] = s[i]; }
static inline void num(void *d, int n) { for (int i = 0; i < n; i++) { uint64_t v = i + 3; memcpy((char *)d + 8 * i, &v, 8); } }
static inline void flip(void *d) { *(char *)d ^= 1; }
/* one way of naming things per pass */
#define OP3(n, T, W, f) static void PASS(n)(uint64_t *o, const uint64_t *x, const uint64_t *y) { T a, b, c; ld(a, x, W); ld(b, y, W); num(c, W); if (!(f)) return; f(c, a, b); st(o, c, W); flip(a); f(c, a, b); st(o + W, c, W); flip(b); num(c, W); f(c, b, a); st(o + 2 * W, c, W); }
#define OPB(n, TC, T, WC, W, f) static void PASS(n)(uint64_t *o, const uint64_t *x, const uint64_t *y) { TC c; T a, b; ld(a, x, W); ld(b, y, W); num(c, WC); if (!(f)) return; f(c, a, b); st(o, c, WC); flip(a); f(c, a, b); st(o + WC, c, WC); flip(b); num(c, WC); f(c, b, a); st(o + 2 * WC, c, WC); }
#define OP2(n, TC, T, WC, W, f) static void PASS(n)(uint64_t *o, const uint64_t *x, const uint64_t *y) { TC c; T a; ld(a, x, W); num(c, WC); if (!(f)) return; f(c, a); st(o, c, WC); flip(a); f(c, a); st(o + WC, c, WC); num(c, WC); ld(a, y, W); f(c, a); st(o + 2 * WC, c, WC); }
#define OP1(n, T, W, f) static void PASS(n)(uint64_t *o, const uint64_t *x, const uint64_t *y) { T a; ld(a, x, W); if (!(f)) return; f(a); st(o, a, W); flip(a); f(a); st(o + W, a, W); ld(a, y, W); f(a); st(o + 2 * W, a, W); }
#define OPP(n, T, W, f) static void PASS(n)(uint64_t *o, const uint64_t *x, const uint64_t *y) { T a, b; ld(a, x, W); ld(b, y, W); if (!(f)) return; f(a, b); st(o, a, W); st(o + W, b, W); ld(b, x, W); ld(a, y, W); flip(a); f(a, b); st(o + 2 * W, a, W); st(o + 3 * W, b, W); }
#define OPQ(n, T, W, f) static void PASS(n)(uint64_t *o, const uint64_t *x, const uint64_t *y) { T a, b, c, d; ld(a, x, W); ld(b, y, W); num(c, W); num(d, W); if (!(f)) return; f(c, d, a, b); st(o, c, W); st(o + W, d, W); flip(a); f(c, d, a, b); st(o + 2 * W, c, W); st(o + 3 * W, d, W); }
#define OPC(n, T, W, f) static void PASS(n)(uint64_t *o, const uint64_t *x, const uint64_t *y) { T a, b; ld(a, x, W); ld(b, y, W); if (!(f)) return; o[0] = f(a, b) == 0; ld(a, x, W); ld(b, x, W); o[1] = f(a, b) == 0; flip(b); o[2] = f(a, b) == 0; }
#define OPI(n, T, W, f) static void PASS(n)(uint64_t *o, const uint64_t *x, const uint64_t *y) { T a; ld(a, x, W); if (!(f)) return; o[0] = f(a); flip(a); o[1] = f(a); ld(a, y, W); o[2] = f(a); }
#define OPV(n, T, W, f) static void PASS(n)(uint64_t *o, const uint64_t *x, const uint64_t *y) { T a, b; __m256i r; ld(a, x, W); ld(b, y, W); if (!(f)) return; r = f(a, b); st(o, &r, 4); ld(a, x, W); ld(b, x, W); r = f(a, b); st(o + 4, &r, 4); flip(b); r = f(a, b); st(o + 8, &r, 4); }
#define OPM(n, T, W, f) static void PASS(n)(uint64_t *o, const uint64_t *x, const uint64_t *y) { T a, b, c; ld(a, x, W); ld(b, y, W); num(c, W); if (!(f)) return; f(0, c, a, b); st(o, c, W); f(1, c, a, b); st(o + W, c, W); flip(b); f(1, c, a, b); st(o + 2 * W, c, W); }
#define OPS(n, T, W, f, N) static void PASS(n)(uint64_t *o, const uint64_t *x, const uint64_t *y) { T a; ALIGN uint8_t c[256]; memset(c, 7, 256); ld(a, x, W); if (!(f)) return; f(c, a); stb(o, c, N); flip(a); f(c, a); stb(o + 32, c, N); ld(a, y, W); f(c, a); stb(o + 64, c, N); }
#define OPU(n, T, W, f, N) static void PASS(n)(uint64_t *o, const uint64_t *x, const uint64_t *y) { T a; ALIGN uint8_t c[256]; memset(a, 0, sizeof a); ldb(c, x, N); if (!(f)) return; f(a, c); st(o, a, W); c[0] ^= 1; f(a, c); st(o + W, a, W); ldb(c, y, N); f(a, c); st(o + 2 * W, a, W); }
#define OPT(n, T2, T, W, f, g) static void PASS(n)(uint64_t *o, const uint64_t *x, const uint64_t *y) { T2 c; T a, b; ld(a, x, W); ld(b, y, W); memset(c, 0, sizeof c); if (!(f)) return; f(c, a, b); st(o, c, sizeof c / 8); flip(a); f(c, a, b); st(o + 128, c, sizeof c / 8); num(a, W); num(b, W); g(a, b, c); st(o + 256, a, W); st(o + 300, b, W); }
#define FREE(n, ...) static void PASS(n)(uint64_t *o, const uint64_t *x, const uint64_t *y) __VA_ARGS__
#define PASS(n) direct_##n
#define F25 Fp25519
#define F448 Fp448
#define A25 X25519
#define X64 X25519_x64
#define A448 X448
#define S25 Ed25519
#define S448 Ed448
#define H(f) f
#include "c26_wp_ops.inc"
#undef PASS
#undef F25
#undef F448
#undef A25
#undef X64
#undef A448
#undef S25
#undef S448
#undef H
static const PrimeField *volatile v25 = &Fp25519, *volatile v448 = &Fp448;
static const typeof(X25519) *volatile va = &X25519, *volatile vx = &X25519_x64, *volatile vb = &X448;
static const struct _struct_Ed255 *volatile vs = &Ed25519; static const struct _struct_Ed448 *volatile vt = &Ed448;
#define PASS(n) opaque_##n
#define F25 (*v25)
#define F448 (*v448)
#define A25 (*va)
#define X64 (*vx)
#define A448 (*vb)
#define S25 (*vs)
#define S448 (*vt)
#define H(f) ({ typeof(&f) volatile p_ = f; p_; })
#include "c26_wp_ops.inc"
#undef OP3
#undef OPB
#undef OP2
#undef OP1
#undef OPP
#undef OPQ
#undef OPC
#undef OPI
#undef OPV
#undef OPM
#undef OPS
#undef OPU
#undef OPT
#undef FREE
typedef void fn(uint64_t *, const uint64_t *, const uint64_t *);
static const struct op { const char *name; fn *d, *i; } ops[] = {
#define R(n, ...) {#n, direct_##n, opaque_##n},
#define OP3 R
#define OPB R
#define OP2 R
#define OP1 R
#define OPP R
#define OPQ R
#define OPC R
#define OPI R
#define OPV R
#define OPM R
#define OPS R
#define OPU R
#define OPT R
#define FREE(n, ...) {#n, direct_##n, opaque_##n},
#include "c26_wp_ops.inc"
};
#define NP 14
static uint64_t pat(int p, int i) { static const uint64_t v[] = {0, 1, ~0ull, 0x8000000000000000ull, 0xfffffffeffffffffull, 0x7fffffffffffffffull, 0xffffffffffffffedull, 0x0123456789abcdefull};
  switch (p) { case 0: return 0; case 1: return i == 0; case 2: return ~0ull; case 3: return i % 4 == 3 ? v[5] : v[2]; case 4: return i == 0 ? v[6] : v[2]; case 5: return i == 3 ? v[4] : v[2]; case 6: return i & 1 ? ~0ull : 0; case 7: return i == 0 ? 9 : 0; default: { uint64_t z = (p * 1000003ull + i + 1) * 0x9e3779b97f4a7c15ull; z ^= z >> 29; z *= 0xbf58476d1ce4e5b9ull; return z ^ z >> 32; } } }
int main(void) {
  static uint64_t x[MAXW] __attribute__((aligned(64))), y[MAXW] __attribute__((aligned(64))), o[2 * MAXW], e[2 * MAXW]; unsigned long ev = 0, di = 0; int bad = 0;
  for (unsigned k = 0; k < sizeof ops / sizeof *ops; k++) { int slow = k >= sizeof ops / sizeof *ops - 8, bf = 0, red = !slow && !strstr(ops[k].name, "full") && !strstr(ops[k].name, "unser"); uint64_t h = 1469598103934665603ull;
    for (int p = 0; p < NP; p++) for (int q = 0; q < NP; q++) { if (slow && (p + q) % 3) continue;
      /* digits of the vector forms: 25 bits (28 for the other field would be allowed as well) */
      for (int i = 0; i < MAXW; i++) { x[i] = pat(p, i); y[i] = pat(q, i + 7 * (q > 7)); if (red) { x[i] &= 0x1ffffff; y[i] &= 0x1ffffff; } }
      memset(o, 0, sizeof o); memset(e, 0, sizeof e); ops[k].d(o, x, y); ops[k].i(e, x, y); ev++; if (p | q) di++; for (int i = 0; i < 2 * MAXW; i++) h = (h ^ o[i]) * 1099511628211ull, h ^= h >> 31;
      if (memcmp(o, e, sizeof o) && !bf) { bf = 1; bad++; int w = 0; while (o[w] == e[w]) w++; printf("MISMATCH %s operands %d,%d word %d: inlined %016lx, called %016lx\n", ops[k].name, p, q, w, (long)o[w], (long)e[w]); } }
    printf("VALUE %s %016lx\n", ops[k].name, (long)h); }
  printf("DONE %lu %lu %lu %d\n", ev, di, (unsigned long)(sizeof ops / sizeof *ops), bad); return bad != 0;
}
