// C21: memory footprint.  Every public operation is run with each buffer in an
// arena of its own between inaccessible pages: flush against the page after it,
// flush against the page before it, and at every alignment, with inputs mapped
// read-only, several contents of the memory around them and of the dead stack.
// The result must be that of a plain call, and no other byte may change.
#include <malloc.h>
#include "edpoint.h"
#include "hash.h"
#include "faz_hash_avx2.h"
using namespace faz::ecdh;

enum Kind { IN, OUT, INOUT };
typedef std::function<Bytes(const Bytes &)> Norm;   // element outputs are compared by value
struct Arg { Kind k; Bytes data; unsigned align; Norm norm; size_t n() const { return data.size(); } Bytes val(const u8 *p) const { Bytes b(p, p + n()); return norm ? norm(b) : b; } };
static Arg in(const Bytes &b, unsigned a = 1) { return {IN, b, a, nullptr}; }
static Arg out(size_t n, unsigned a = 1, Norm f = nullptr) { return {OUT, Bytes(n, 0), a, f}; }
// an element or point operand: may be brought to another representation of the same value
static Arg el_in(const Bytes &b, Norm f) { return {INOUT, b, 32, f}; }
static Norm modp(const Curve &c, size_t n) { return [&c, n](const Bytes &b) { Bytes r; for (size_t i = 0; i + n <= b.size(); i += n) { Bytes t = le(Z::le(&b[i], n) % c.p, n); r.insert(r.end(), t.begin(), t.end()); } return r; }; }
static Arg io(const Bytes &b, unsigned a = 1, Norm f = nullptr) { return {INOUT, b, a, f}; }
typedef std::function<long(u8 **)> Call;
struct Op { std::string name; std::vector<Arg> a; Call f; };

static const size_t PG = 4096, AP = 2560;   // pages per arena
struct Arena {
  u8 *rw, *ro;     // first accessible byte of each view
  Arena() {
    int fd = memfd_create("arena", 0); if (fd < 0 || ftruncate(fd, AP * PG)) abort();
    auto view = [&](int prot) { u8 *m = (u8 *)mmap(nullptr, (AP + 2) * PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (m == MAP_FAILED || mmap(m + PG, AP * PG, prot, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) abort(); return m + PG; };
    rw = view(PROT_READ | PROT_WRITE); ro = view(PROT_READ); close(fd);
  }
  u8 *end() const { return rw + AP * PG; }
};
static Arena &arena(int i) { static Arena a[8]; return a[i]; }
__attribute__((noinline)) static void paint(u8 v) { volatile u8 b[96 << 10]; memset((void *)b, v, sizeof b); asm volatile("" ::"r"(b) : "memory"); }

// where: -1 end of the arena, otherwise that offset from its start
struct Place { std::vector<int> where; u8 fill, stack; const char *name; };
static bool exec(Ctx &x, const Op &op, const Place &m, const std::vector<Bytes> &want, long wr, const std::string &desc) {
  u8 *p[8]; u8 *w[8]; size_t lo[8], hi[8];
  for (size_t i = 0; i < op.a.size(); i++) {
    const Arg &a = op.a[i]; Arena &ar = arena(i); size_t n = a.n(); size_t off;
    int wh = m.where.size() == 1 ? m.where[0] : m.where[i];
    if (wh < 0) { off = AP * PG - n; off -= off % a.align; } else off = (size_t)wh - (size_t)wh % a.align;
    // only the neighbourhood is filled and compared: two pages on either side
    lo[i] = off > 2 * PG ? off - 2 * PG : 0; hi[i] = std::min(AP * PG, off + n + 2 * PG);
    if (n < 2 * PG) { lo[i] = off > 512 ? off - 512 : 0; hi[i] = std::min(AP * PG, off + n + 512); }
    memset(ar.rw + lo[i], m.fill, hi[i] - lo[i]); w[i] = ar.rw + off; if (a.k != OUT && n) memcpy(w[i], a.data.data(), n);
    p[i] = a.k == IN ? ar.ro + off : w[i];
  }
  x.about("%s %s: %s", op.name.c_str(), desc.c_str(), m.name);
  paint(m.stack); long r = op.f(p); x.eval();
  std::string at = op.name + " " + desc + ": " + m.name; bool ok = true;
  if (r != wr) { x.fail("result-" + op.name, at + " returns " + std::to_string(r) + " instead of " + std::to_string(wr)); ok = false; }
  for (size_t i = 0; i < op.a.size(); i++) {
    const Arg &a = op.a[i]; size_t n = a.n(), off = w[i] - arena(i).rw;
    if (a.k != IN && n && a.val(w[i]) != want[i]) { x.fail("result-" + op.name, at + " argument " + std::to_string(i) + " differs from the plain call"); ok = false; }
    for (size_t k = lo[i]; k < hi[i]; k++) if ((k < off || k >= off + n) && arena(i).rw[k] != m.fill) { x.fail("writes-outside-" + op.name, at + " argument " + std::to_string(i) + " offset " + std::to_string((long)k - (long)off)); ok = false; break; }
  }
  return ok;
}
static std::vector<Bytes> plain(const Op &op, long &r, u8 fill = 0x5C) {
  static u8 *mem[8] = {}; u8 *p[8]; const size_t CAP = AP * PG + 8192; for (size_t i = 0; i < op.a.size(); i++) { if (!mem[i]) mem[i] = (u8 *)aligned_alloc(4096, CAP); memset(mem[i], fill, std::min(CAP, op.a[i].n() + 1024)); p[i] = mem[i] + 512; if (op.a[i].k != OUT && op.a[i].n()) memcpy(p[i], op.a[i].data.data(), op.a[i].n()); }
  r = op.f(p); std::vector<Bytes> v; for (size_t i = 0; i < op.a.size(); i++) v.push_back(op.a[i].val(p[i])); return v;
}
// edges with different surroundings and stack contents
static void edges(Ctx &x, const Op &op, const std::string &desc) {
  long r; auto want = plain(op, r); x.distinct(1);
  static const Place M[] = {{{-1}, 0x00, 0xff, "before an inaccessible page (surroundings 00, stack ff)"}, {{-1}, 0xff, 0x00, "before an inaccessible page (surroundings ff, stack 00)"}, {{0}, 0xa5, 0x5a, "after an inaccessible page (surroundings a5, stack 5a)"}};
  for (auto &m : M) if (!exec(x, op, m, want, r, desc)) break;
  if (x.want_sample()) x.sample(op.name + " " + desc);
}
// every alignment of every byte-string argument, the others at an edge
static void aligns(Ctx &x, const Op &op, const std::string &desc) {
  long r; auto want = plain(op, r); 
  for (size_t i = 0; i < op.a.size(); i++) { if (op.a[i].align >= 64) continue; for (int k = 0; k < 64; k += op.a[i].align) { Place m; m.where.assign(op.a.size(), 64); m.where[i] = 64 + k; m.fill = 0xc3 ^ k; m.stack = 0x3c ^ k; char nm[64]; snprintf(nm, 64, "argument %zu at offset %d from a multiple of 64", i, k); m.name = nm; x.distinct(1); if (!exec(x, op, m, want, r, desc)) return; } }
  for (int k = 0; k < 64; k++) { Place m; m.where.assign(op.a.size(), 64 + k); m.fill = k; m.stack = ~k; m.name = "all arguments at the same odd offset"; if (!exec(x, op, m, want, r, desc)) return; }
}

// ---- the operations ---------------------------------------------------------
static Op op_keygen(const Scheme &s, const Bytes &sk) { const Scheme *q = &s; return {std::string("keygen-") + s.name, {in(sk), out(s.kb())}, [q](u8 **p) { return (long)q->keygen(p[1], p[0]); }}; }
static Op op_sign(const Scheme &s, const Bytes &sk, const Bytes &pk, const Bytes &m, const Bytes &c) { const Scheme *q = &s; u64 ml = m.size(), cl = c.size(); return {std::string("sign-") + s.name, {in(sk), in(pk), in(m), in(c), out(2 * s.kb())}, [=](u8 **p) { return (long)q->sign(p[4], p[2], ml, p[3], cl, p[1], p[0]); }}; }
static Op op_verify(const Scheme &s, const Bytes &sig, const Bytes &pk, const Bytes &m, const Bytes &c) { const Scheme *q = &s; u64 ml = m.size(), cl = c.size(); return {std::string("verify-") + s.name, {in(pk), in(sig), in(m), in(c)}, [=](u8 **p) { return (long)q->verify(p[2], ml, p[3], cl, p[0], p[1]); }}; }
struct Key { Bytes sk, pk; };
static const Key &key(const Scheme &s, u64 i) { static std::map<std::pair<const Scheme *, u64>, Key> c; Key &k = c[{&s, i}]; if (k.sk.empty()) { k.sk = secret(i + 4, s.kb()); k.pk.resize(s.kb()); Buf a, b; memcpy(b.b, k.sk.data(), s.kb()); s.keygen(a, b); memcpy(k.pk.data(), a.b, s.kb()); } return k; }
static Bytes sig_of(const Scheme &s, const Key &k, const Bytes &m, const Bytes &c) { static u8 sig[256]; s.sign(sig, m.data(), m.size(), c.data(), c.size(), k.pk.data(), k.sk.data()); return Bytes(sig, sig + 2 * s.kb()); }

// field operations: element sizes and alignments by representation
static std::vector<Op> field_ops() {
  using namespace faz::fp; std::vector<Op> v;
  for (int f = 0; f < 2; f++) {
    const PrimeField *F = f ? &Fp448 : &Fp25519; std::string fn = f ? "Fp448" : "Fp25519"; size_t by = f ? 56 : 32, nd = f ? 16 : 10;
    for (int w = 0; w < 4; w++) {   // full, 1w, 2w, 4w
      size_t sz = w == 0 ? (f ? 56 : 32) : w == 1 ? (f ? 128 : 96) : nd * 16 * (w - 1); std::string nm = fn + (w == 0 ? ".full." : w == 1 ? ".1w." : w == 2 ? ".2w." : ".4w."); int lanes = w == 0 ? 1 : w == 1 ? 1 : w == 2 ? 2 : 4; 
      if (w == 3) sz = nd * 32;
      if (w == 2) sz = nd * 16;
      for (int variant = 0; variant < 3; variant++) {
        // operands: elements produced by deserializing bytes in every lane
        auto el = [&](int which) { Bytes b = gen("c21el", f * 100 + w * 10 + which + variant * 1000, by * 4); if (variant == 1) b.assign(by * 4, which & 1 ? 0xff : 0xfe); if (variant == 2) { b.assign(by * 4, 0); b[0] = which; } alignas(64) u8 e[1024]; memset(e, 0, sizeof e);
          if (w == 0) { if (variant == 0) b[by - 1] &= 0x7f; return Bytes(b.begin(), b.begin() + by); }
          if (w == 1) F->_1w_red.arith.misc.unser((u64 *)e, b.data()); else if (w == 2) F->_2w_red.arith.misc.unser((__m256i *)e, b.data()); else F->_4w_red.arith.misc.unser((__m256i *)e, b.data());
          return Bytes(e, e + sz); };
        Norm nf; if (w == 1 && !f) nf = [F, w, by](const Bytes &b) { alignas(64) u8 e[1024], o[512]; memset(e, 0, sizeof e); memset(o, 0, sizeof o); memcpy(e, b.data(), b.size()); if (w == 1) F->_1w_red.arith.misc.ser(o, (u64 *)e); else if (w == 2) F->_2w_red.arith.misc.ser(o, (__m256i *)e); else F->_4w_red.arith.misc.ser(o, (__m256i *)e); return Bytes(o, o + by * (w == 1 ? 1 : w == 2 ? 2 : 4)); };
        Norm vf = w == 0 ? modp(f ? c448() : c25519(), by) : nf;
        Bytes A = el(3), Bb = el(4); auto add = [&](const char *o, std::vector<Arg> a, Call c) { v.push_back({nm + o, a, c}); };
#define U(i) ((u64 *)p[i])
#define M(i) ((__m256i *)p[i])
#define O3(o, T, fp) if (fp) add(#o, {el_in(A, vf), el_in(Bb, vf), out(sz, 32, nf)}, [F](u8 **p) { fp(T(2), T(0), T(1)); return 0L; })
#define O2(o, T, fp) if (fp) add(#o, {el_in(A, vf), out(sz, 32, nf)}, [F](u8 **p) { fp(T(1), T(0)); return 0L; })
#define O1(o, T, fp) if (fp) add(#o, {io(A, 32, nf)}, [F](u8 **p) { fp(T(0)); return 0L; })
#define OI2(o, T, fp) if (fp) add(#o, {io(A, 32, nf), io(Bb, 32, nf)}, [F](u8 **p) { fp(T(0), T(1)); return 0L; })
#define OIB(o, T, fp) if (fp) add(#o, {el_in(Bb, vf), io(A, 32, nf)}, [F](u8 **p) { fp(T(1), T(0)); return 0L; })
#define V1(o, fp) if (fp) add(#o, {el_in(A, vf), out(32, 32)}, [F](u8 **p) { *M(1) = fp(M(0)); return 0L; })
#define V2(o, fp) if (fp) add(#o, {el_in(A, vf), el_in(Bb, vf), out(32, 32)}, [F](u8 **p) { *M(2) = fp(M(0), M(1)); return 0L; })
#define ARITH1(T, t) O3(add, U, F->t.arith.add); O3(sub, U, F->t.arith.sub); O3(mul, U, F->t.arith.mul); O2(inv, U, F->t.arith.inv); O1(neg, U, F->t.arith.neg); O1(sqr, U, F->t.arith.sqr); O2(copy, U, F->t.arith.misc.copy); \
        if (F->t.arith.cmp) add("cmp", {el_in(A, vf), el_in(Bb, vf)}, [F](u8 **p) { return (long)!!F->t.arith.cmp(U(0), U(1)); }); if (F->t.arith.cmp) add("cmp-same", {el_in(A, vf), el_in(A, vf)}, [F](u8 **p) { return (long)!!F->t.arith.cmp(U(0), U(1)); }); \
        if (F->t.arith.sgn) add("sgn", {el_in(A, vf)}, [F](u8 **p) { return (long)F->t.arith.sgn(U(0)); }); if (F->t.arith.prime) add("prime", {out(sz, 32, nf)}, [F](u8 **p) { F->t.arith.prime(U(0)); return 0L; }); \
        if (F->t.arith.cmv) for (int b = 0; b < 2; b++) add(b ? "cmv1" : "cmv0", {el_in(A, vf), el_in(Bb, vf), out(sz, 32, nf)}, [F, b](u8 **p) { F->t.arith.cmv(b, U(2), U(0), U(1)); return 0L; }); \
        if (F->t.arith.misc.zero) add("zero", {out(sz, 32, nf)}, [F](u8 **p) { F->t.arith.misc.zero(U(0)); return 0L; }); if (F->t.arith.misc.ser) add("ser", {el_in(A, vf), out(by)}, [F](u8 **p) { F->t.arith.misc.ser(p[1], U(0)); return 0L; }); if (F->t.arith.misc.unser) add("unser", {in(gen("ub", variant, by)), out(sz, 32, nf)}, [F](u8 **p) { F->t.arith.misc.unser(U(1), p[0]); return 0L; });
        if (w == 0) {
          ARITH1(u64, _1w_full); if (!f) OIB(srt, U, F->_1w_full.arith.srt);
          Bytes AA = A, BB = Bb; AA.insert(AA.end(), Bb.begin(), Bb.end()); BB.insert(BB.end(), A.begin(), A.end()); Bytes P4 = AA; P4.insert(P4.end(), BB.begin(), BB.end());
          if (F->_1w_full.arithex.intmul) add("intmul", {el_in(A, vf), el_in(Bb, vf), out(2 * sz, 32)}, [F](u8 **p) { F->_1w_full.arithex.intmul(U(2), U(0), U(1)); return 0L; });
          if (F->_1w_full.arithex.intsqr) add("intsqr", {el_in(A, vf), out(2 * sz, 32)}, [F](u8 **p) { F->_1w_full.arithex.intsqr(U(1), U(0)); return 0L; });
          if (F->_1w_full.arithex.mula24) add("mula24", {el_in(A, vf), out(sz, 32, nf)}, [F](u8 **p) { F->_1w_full.arithex.mula24(U(1), U(0)); return 0L; });
          if (F->_1w_full.arithex.reduce) add("reduce", {el_in(AA, nullptr), out(sz, 32, nf)}, [F](u8 **p) { F->_1w_full.arithex.reduce(U(1), U(0)); return 0L; });
          if (F->_1w_full.arithex.intmul2) add("intmul2", {el_in(AA, nullptr), el_in(BB, nullptr), out(4 * sz, 32)}, [F](u8 **p) { F->_1w_full.arithex.intmul2(U(2), U(0), U(1)); return 0L; });
          if (F->_1w_full.arithex.intsqr2) add("intsqr2", {el_in(AA, nullptr), out(4 * sz, 32)}, [F](u8 **p) { F->_1w_full.arithex.intsqr2(U(1), U(0)); return 0L; });
          if (F->_1w_full.arithex.reduce2) add("reduce2", {el_in(P4, nullptr), out(2 * sz, 32)}, [F](u8 **p) { F->_1w_full.arithex.reduce2(U(1), U(0)); return 0L; });
        } else if (w == 1) {
          // the unused digits of the 12-word element are not part of its value: neutralised by serializing in other checks
          ARITH1(u64, _1w_red); if (!f) OIB(srt, U, F->_1w_red.arith.srt); else O2(srt, U, F->_1w_red.arith.srt);
          OI2(addsub, U, F->_1w_red.arithex.addsub); O1(compress, U, F->_1w_red.arithex.compress); O1(compressfast, U, F->_1w_red.arithex.compressfast);
        } else if (w == 2) {
          O3(add, M, F->_2w_red.arith.add); O3(sub, M, F->_2w_red.arith.sub); O3(mul, M, F->_2w_red.arith.mul); O1(neg, M, F->_2w_red.arith.neg); O1(sqr, M, F->_2w_red.arith.sqr); O2(ngz, M, F->_2w_red.arith.ngz); V2(cmp, F->_2w_red.arith.cmp); V1(sgn, F->_2w_red.arith.sgn);
          for (int b = 0; b < 4 && F->_2w_red.arith.cmv; b++) add("cmv", {el_in(A, vf), el_in(Bb, vf), out(sz, 32, nf)}, [F, b](u8 **p) { F->_2w_red.arith.cmv(_mm256_set_epi64x(-(b >> 1), -(b >> 1), -(b & 1), -(b & 1)), M(2), M(0), M(1)); return 0L; });
          O2(copy, M, F->_2w_red.arith.misc.copy); OI2(addsub, M, F->_2w_red.arithex.addsub); O1(intsqr, M, F->_2w_red.arithex.intsqr); O1(compress, M, F->_2w_red.arithex.compress); OI2(compress2, M, F->_2w_red.arithex.compress2); O1(compressfast, M, F->_2w_red.arithex.compressfast);
          if (F->_2w_red.arith.misc.zero) add("zero", {out(sz, 32, nf)}, [F](u8 **p) { F->_2w_red.arith.misc.zero(M(0)); return 0L; }); if (F->_2w_red.arith.misc.ser) add("ser", {el_in(A, vf), out(by * lanes)}, [F](u8 **p) { F->_2w_red.arith.misc.ser(p[1], M(0)); return 0L; }); if (F->_2w_red.arith.misc.unser) add("unser", {in(gen("ub", variant, by * lanes)), out(sz, 32, nf)}, [F](u8 **p) { F->_2w_red.arith.misc.unser(M(1), p[0]); return 0L; });
        } else {
          O3(add, M, F->_4w_red.arith.add); O3(sub, M, F->_4w_red.arith.sub); O3(mul, M, F->_4w_red.arith.mul); O1(neg, M, F->_4w_red.arith.neg); O1(sqr, M, F->_4w_red.arith.sqr); O2(ngz, M, F->_4w_red.arith.ngz); V2(cmp, F->_4w_red.arith.cmp); OIB(srt, M, F->_4w_red.arith.srt);
          if (F->_4w_red.arithex.addsub) add("addsub", {el_in(A, vf), el_in(Bb, vf), out(sz, 32, nf), out(sz, 32, nf)}, [F](u8 **p) { F->_4w_red.arithex.addsub(M(2), M(3), M(0), M(1)); return 0L; });
          O2(copy, M, F->_4w_red.arith.misc.copy); O1(intsqr, M, F->_4w_red.arithex.intsqr); O1(compress, M, F->_4w_red.arithex.compress); OI2(compress2, M, F->_4w_red.arithex.compress2); O1(compressfast, M, F->_4w_red.arithex.compressfast); OI2(new_compressfast2, M, F->_4w_red.arithex.new_compressfast2);
          if (F->_4w_red.arith.misc.zero) add("zero", {out(sz, 32, nf)}, [F](u8 **p) { F->_4w_red.arith.misc.zero(M(0)); return 0L; }); if (F->_4w_red.arith.misc.ser) add("ser", {el_in(A, vf), out(by * lanes)}, [F](u8 **p) { F->_4w_red.arith.misc.ser(p[1], M(0)); return 0L; }); if (F->_4w_red.arith.misc.unser) add("unser", {in(gen("ub", variant, by * lanes)), out(sz, 32, nf)}, [F](u8 **p) { F->_4w_red.arith.misc.unser(M(1), p[0]); return 0L; });
        }
      }
    }
  }
  return v;
}
#undef U
#undef M
static std::vector<Op> dh_ops(u64 k) {
  std::vector<Op> v; static const struct { const char *n; const X_ECDH *f; size_t b; } D[] = {{"X25519", &X25519, 32}, {"X25519_x64", &X25519_x64, 32}, {"X448", &X448, 56}};
  for (auto &d : D) { const X_ECDH *f = d.f; Bytes s = secret(k, d.b), u = gen("c21u", k, d.b); if (k % 3 == 1) u.assign(d.b, 0xff); if (k % 3 == 2) { u.assign(d.b, 0); u[0] = 9; }
    v.push_back({std::string("keygen-") + d.n, {in(s), out(d.b)}, [f](u8 **p) { return (long)f->keygen(p[1], p[0]); }});
    v.push_back({std::string("shared-") + d.n, {in(s), in(u), out(d.b)}, [f](u8 **p) { return (long)f->shared(p[2], p[1], p[0]); }}); }
  return v;
}
static std::vector<Op> stream_ops(u64 len) {   // messages of len bytes, whole and in two pieces
  std::vector<Op> v; Bytes m = content(0, len); u64 cut = len / 2; u64 l = len;
  v.push_back({"sha512", {in(m), out(64)}, [=](u8 **p) { sph_sha512_context c; sph_sha512_init(&c); sph_sha512(&c, p[0], l); sph_sha512_close(&c, p[1]); return 0L; }});
  v.push_back({"sha512-pieces", {in(m), out(64)}, [=](u8 **p) { sph_sha512_context c; sph_sha512_init(&c); sph_sha512(&c, p[0], cut); sph_sha512(&c, p[0] + cut, l - cut); sph_sha512_close(&c, p[1]); return 0L; }});
  v.push_back({"sha512-context", {in(m), out(64), out(sizeof(sph_sha512_context), 8)}, [=](u8 **p) { auto *c = (sph_sha512_context *)p[2]; sph_sha512_init(c); sph_sha512(c, p[0], l); sph_sha512_close(c, p[1]); memset(p[2], 0, sizeof *c); return 0L; }});
  v.push_back({"sha512-bits", {in(m), out(64)}, [=](u8 **p) { sph_sha512_context c; sph_sha512_init(&c); sph_sha512(&c, p[0], l); sph_sha512_addbits_and_close(&c, 0xa0, 3, p[1]); return 0L; }});
  v.push_back({"sha384", {in(m), out(48)}, [=](u8 **p) { sph_sha384_context c; sph_sha384_init(&c); sph_sha384(&c, p[0], l); sph_sha384_close(&c, p[1]); return 0L; }});
  static const struct { int a, d; } S[] = {{224, 28}, {256, 32}, {384, 48}, {512, 64}};
  for (auto &a : S) { int al = a.a; std::string n = "sha3-" + std::to_string(al); v.push_back({n, {in(m), out(a.d)}, [=](u8 **p) { return (long)Hash(al, p[0], l * 8, p[1]); }});
    v.push_back({n + "-pieces", {in(m), out(a.d), out(sizeof(hashState), 32)}, [=](u8 **p) { hashState *h = (hashState *)p[2]; long r = Init(h, al); r |= Update(h, p[0], cut * 8); r |= Update(h, p[0] + cut, (l - cut) * 8); r |= Final(h, p[1]); memset(p[2], 0, sizeof *h); return r; }}); }
  for (int al : {128, 256}) for (unsigned d : {1u, 32u, 57u, 114u, 135u, 136u, 137u, 167u, 168u, 169u, 300u}) { if (d != 57 + (unsigned)len % 3 * 50 && len % 16 != d % 16) continue; std::string n = "shake" + std::to_string(al) + "-" + std::to_string(d);
    v.push_back({n, {in(m), out(d)}, [=](u8 **p) { return (long)(al == 128 ? SHAKE128(p[0], l * 8, p[1], d) : SHAKE256(p[0], l * 8, p[1], d)); }});
    v.push_back({n + "-pieces", {in(m), out(d), out(sizeof(hashState), 32)}, [=](u8 **p) { hashState *h = (hashState *)p[2]; long r = Init(h, al); r |= Update(h, p[0], cut * 8); r |= Update(h, p[0] + cut, (l - cut) * 8); r |= Final2(h, p[1], d); memset(p[2], 0, sizeof *h); return r; }}); }
  return v;
}
static std::vector<Op> two_ops(u64 len) {
  std::vector<Op> v; Bytes m = content(0, len), q = content(5, len); u64 l = len;
  v.push_back({"sha512-2w", {in(m), in(q), out(64), out(64)}, [=](u8 **p) { u8 *m[2] = {p[0], p[1]}, *o[2] = {p[2], p[3]}; sha512_2w_avx(m, l, o); return 0L; }});
  if (len == 32 && sha512_2w_avx_256b) v.push_back({"sha512-2w-32", {in(m), in(q), out(64), out(64)}, [=](u8 **p) { u8 *m[2] = {p[0], p[1]}, *o[2] = {p[2], p[3]}; sha512_2w_avx_256b(m, o); return 0L; }});
  return v;
}
static std::vector<Op> h2c_ops(u64 len) {
  std::vector<Op> v; Bytes m = content(0, len); u64 l = len;
  v.push_back({"h2c-x64", {in(m), out(sizeof(Point), 32)}, [=](u8 **p) { h2c25519_x64((Point *)p[1], p[0], l); return 0L; }});
  v.push_back({"h2c-avx2", {in(m), out(sizeof(Point), 32)}, [=](u8 **p) { h2c25519_avx2((Point *)p[1], p[0], l); return 0L; }});
  v.push_back({"hash-to-field", {in(m), out(32, 32)}, [=](u8 **p) { hash_to_field((u64 *)p[1], 1, p[0], l); return 0L; }});
  v.push_back({"hash-to-field-2w", {in(m), out(32, 32), out(32, 32)}, [=](u8 **p) { hash_to_field_2w((u64 *)p[1], (u64 *)p[2], p[0], l); return 0L; }});
  return v;
}
static Bytes raw(const void *p, size_t n) { return Bytes((const u8 *)p, (const u8 *)p + n); }
static std::vector<Op> point_ops(u64 i) {
  std::vector<Op> v; auto &A = points(); auto ZA = zalpha(); const Aff &a = A[i % A.size()], &b = A[(i * 5 + 3) % A.size()]; PointXYZT_1way_full P, Q; memset(&P, 0, sizeof P); memset(&Q, 0, sizeof Q); put_pt(P, a, ZA[i % ZA.size()], i); put_pt(Q, b, ZA[(i / 3) % ZA.size()], i / 2);
  Point pa, pb; memset(&pa, 0, sizeof pa); memset(&pb, 0, sizeof pb); put(pa.X, a.x); put(pa.Y, a.y); put(pb.X, b.x); put(pb.Y, b.y); Bytes u = gen("c21pu", i, 32); E1 eu, ev; alignas(64) u8 t[64]; memset(&eu, 0, sizeof eu); memset(&ev, 0, sizeof ev); memcpy(t, u.data(), 32); t[31] &= 0x7f; Fp25519._1w_red.arith.misc.unser(eu, t); Fp25519._1w_red.arith.misc.unser(ev, t); alignas(64) __m256i uu[16]; memset(uu, 0, sizeof uu); Fp25519._2w_red.arithex.inter(uu, eu, ev);
  v.push_back({"isOnCurve", {el_in(raw(&pa, sizeof pa), modp(c25519(), 32))}, [](u8 **p) { return (long)isOnCurve((Point *)p[0]); }});
  v.push_back({"areEqual", {el_in(raw(&pa, sizeof pa), modp(c25519(), 32)), el_in(raw(&pb, sizeof pb), modp(c25519(), 32))}, [](u8 **p) { return (long)areEqual((Point *)p[0], (Point *)p[1]); }});
  v.push_back({"areEqual-same", {el_in(raw(&pa, sizeof pa), modp(c25519(), 32)), el_in(raw(&pa, sizeof pa), modp(c25519(), 32))}, [](u8 **p) { return (long)areEqual((Point *)p[0], (Point *)p[1]); }});
  v.push_back({"fulladd", {el_in(raw(&P, sizeof P), modp(c25519(), 32)), el_in(raw(&Q, sizeof Q), modp(c25519(), 32)), out(sizeof P, 32)}, [](u8 **p) { _1way_fulladd_1w_full((PointXYZT_1way_full *)p[2], (PointXYZT_1way_full *)p[0], (PointXYZT_1way_full *)p[1]); return 0L; }});
  if (_1way_doubling_1w_full) v.push_back({"doubling", {io(raw(&P, sizeof P), 32)}, [](u8 **p) { _1way_doubling_1w_full((PointXYZT_1way_full *)p[0]); return 0L; }});
  v.push_back({"map", {el_in(raw(t, 32), modp(c25519(), 32)), out(sizeof P, 32)}, [](u8 **p) { map_to_curve((PointXYZT_1way_full *)p[1], (u64 *)p[0]); return 0L; }});
  v.push_back({"map-2w", {in(raw(uu, 160), 32), out(sizeof(PointXYZT_2way), 32)}, [](u8 **p) { map_to_curve_2w((PointXYZT_2way *)p[1], (__m256i *)p[0]); return 0L; }});
  if (modular_reduction_ed25519) v.push_back({"scalar-reduction", {io(gen("c21r", i, 64), 8)}, [](u8 **p) { modular_reduction_ed25519(p[0]); return 0L; }});
  return v;
}
// the remaining field operations: lane (de)interleaving and the two-result ones
static std::vector<Op> more_field_ops() {
  std::vector<Op> v;
  for (int f = 0; f < 2; f++) for (int k = 0; k < 3; k++) { const PrimeField *F = f ? &Fp448 : &Fp25519; std::string fn = f ? "Fp448" : "Fp25519"; size_t by = f ? 56 : 32, s1 = f ? 128 : 96, s2 = (f ? 16 : 10) * 16, s4 = (f ? 16 : 10) * 32;
    auto e = [&](int w, int which) { Bytes b = gen("c21m", f * 100 + w * 10 + which + k * 1000, by * 4); if (k == 1) b.assign(by * 4, 0xff); alignas(64) u8 t[1024]; memset(t, 0, sizeof t); if (w == 1) F->_1w_red.arith.misc.unser((u64 *)t, b.data()); else if (w == 2) F->_2w_red.arith.misc.unser((__m256i *)t, b.data()); else F->_4w_red.arith.misc.unser((__m256i *)t, b.data()); return Bytes(t, t + (w == 1 ? s1 : w == 2 ? s2 : s4)); };
    Norm nf; if (!f) nf = [F](const Bytes &b) { alignas(64) u8 t[256], o[64]; memset(t, 0, sizeof t); memcpy(t, b.data(), b.size()); F->_1w_red.arith.misc.ser(o, (u64 *)t); return Bytes(o, o + 32); };
    if (F->_2w_red.arithex.inter) v.push_back({fn + ".2w.inter", {in(e(1, 0), 32), in(e(1, 1), 32), out(s2, 32)}, [F](u8 **p) { F->_2w_red.arithex.inter((__m256i *)p[2], (u64 *)p[0], (u64 *)p[1]); return 0L; }});
    if (F->_2w_red.arithex.deinter) v.push_back({fn + ".2w.deinter", {in(e(2, 0), 32), out(s1, 32, nf), out(s1, 32, nf)}, [F](u8 **p) { F->_2w_red.arithex.deinter((u64 *)p[1], (u64 *)p[2], (__m256i *)p[0]); return 0L; }});
    if (F->_2w_red.arithex.intmul) v.push_back({fn + ".2w.intmul", {in(e(2, 0), 32), in(e(2, 1), 32), out(s2, 32)}, [F](u8 **p) { F->_2w_red.arithex.intmul((__m256i *)p[2], (__m256i *)p[0], (__m256i *)p[1]); return 0L; }});
    if (F->_4w_red.arithex.intmul) v.push_back({fn + ".4w.intmul", {in(e(4, 0), 32), in(e(4, 1), 32), out(s4, 32)}, [F](u8 **p) { F->_4w_red.arithex.intmul((__m256i *)p[2], (__m256i *)p[0], (__m256i *)p[1]); return 0L; }});
    if (F->_4w_red.arithex.addsublar) v.push_back({fn + ".4w.addsublar", {io(e(4, 0), 32), io(e(4, 1), 32)}, [F](u8 **p) { F->_4w_red.arithex.addsublar((__m256i *)p[0], (__m256i *)p[1]); return 0L; }});
  }
  return v;
}
// the size last asked of the aligned allocator (0: not asked)
static size_t asked;
extern "C" void *__libc_memalign(size_t, size_t);
extern "C" int posix_memalign(void **p, size_t a, size_t n) { asked = n; *p = __libc_memalign(a, n); return *p ? 0 : 12; }
extern "C" void *aligned_alloc(size_t a, size_t n) { asked = n; return __libc_memalign(a, n); }
static void run(Ctx &x, const std::vector<Op> &v, const std::string &d) { for (auto &o : v) edges(x, o, d); }
static const u64 NS = 5;
int main(int argc, char **argv) {
  vf::Check c; c.property = "C21"; c.level = "exploration"; bool T = vf::thorough();
  c.rule = "Every operation of the public interface, for every listed length, is executed with each argument at the end and at the start of accessible memory (inaccessible pages beyond), inputs in read-only mappings, three contents of the surrounding memory and of the dead stack, and at every offset 0..63; its result must be that of an ordinary call and no byte outside its outputs may change. Distinct by construction (operation, length, placement).";
  c.assumptions = {"byte strings may have any alignment; field elements and points have the 32-byte alignment, and streaming contexts the alignment, of their declared types", "the ordinary call's result is decided by the other properties' checks"};
  u64 ML = T ? 700 : 300; static const u64 CL[] = {0, 1, 13, 255};
  c.sections.push_back({"signature-lengths", "sign and verify, five schemes, every message length 0.." + std::to_string(ML) + " x context lengths 0, 1, 13, 255", NS * (ML + 1), [=](Ctx &x, u64 i) {
    const Scheme &s = SCHEMES[i % NS]; u64 len = i / NS; const Key &k = key(s, len % 3); Bytes m = content(0, len); for (u64 q = 0; q < 4; q++) { u64 cl = CL[q]; if (!s.hasctx() && cl) break; if (!T && q && q != 1 + len % 3) continue; Bytes cx = content(4, cl); std::string d = "message " + std::to_string(len) + " context " + std::to_string(cl); edges(x, op_sign(s, k.sk, k.pk, m, cx), d); Bytes sg = sig_of(s, k, m, cx); edges(x, op_verify(s, sg, k.pk, m, cx), d); if (len % 8 == 0) { sg[len / 8 % sg.size()] ^= 4; edges(x, op_verify(s, sg, k.pk, m, cx), d + " changed signature"); } } }});
  c.sections.push_back({"signature-contexts", "sign and verify, every context length 0..255 (and 256, 257, 300, refused), messages of 0 and 50 bytes", NS * 259, [=](Ctx &x, u64 i) {
    const Scheme &s = SCHEMES[i % NS]; if (!s.hasctx()) return; u64 cl = i / NS; if (cl == 258) cl = 300; const Key &k = key(s, 1); Bytes cx = content(4, cl); for (u64 ml : {0, 50}) { Bytes m = content(0, ml); std::string d = "message " + std::to_string(ml) + " context " + std::to_string(cl); Op so = op_sign(s, k.sk, k.pk, m, cx); if (cl <= 255) edges(x, so, d); Bytes sg = cl <= 255 ? sig_of(s, k, m, cx) : Bytes(2 * s.kb(), 1); edges(x, op_verify(s, sg, k.pk, m, cx), d); } }});
  c.sections.push_back({"keys", "key generation of five signature schemes and key generation and shared secret of three Diffie-Hellman functions for special and generic secrets", 40, [=](Ctx &x, u64 i) { for (auto &s : SCHEMES) edges(x, op_keygen(s, secret(i, s.kb())), "secret " + std::to_string(i)); run(x, dh_ops(i), "secret " + std::to_string(i)); }});
  c.sections.push_back({"alignment", "every offset 0..63 of every byte-string argument, and of all at once: signing, verification and key generation of all schemes, Diffie-Hellman, hashing", 64, [=](Ctx &x, u64 i) {
    if (i < NS * 4) { const Scheme &s = SCHEMES[i % NS]; u64 w = i / NS; const Key &k = key(s, 2); Bytes m = content(0, 77), cx = s.hasctx() ? content(4, 21) : Bytes(); if (w == 0) aligns(x, op_keygen(s, k.sk), "aligned"); if (w == 1) aligns(x, op_sign(s, k.sk, k.pk, m, cx), "message 77"); Bytes sg = sig_of(s, k, m, cx); if (w == 2) aligns(x, op_verify(s, sg, k.pk, m, cx), "message 77"); if (w == 3) { sg[3] ^= 1; aligns(x, op_verify(s, sg, k.pk, m, cx), "changed signature"); } return; }
    std::vector<Op> v = dh_ops(4); if (i < 30) { if (i - 20 < v.size()) aligns(x, v[i - 20], "generic secret"); return; }
    v.clear(); for (u64 l : {0, 7, 200, 333}) { auto a = stream_ops(l), b = two_ops(l == 7 ? 32 : l), d = h2c_ops(l); for (auto &q : {a, b, d}) for (auto &o : q) v.push_back(o); } for (u64 j = i - 30; j < v.size(); j += 34) aligns(x, v[j], "length " + std::to_string(v[j].a[0].n())); }});
  c.sections.push_back({"hash-lengths", "streaming hashes, SHA-3 and SHAKE (several output lengths), one-call and in two pieces, two-lane SHA-512, field hash and hash to curve: every message length 0.." + std::to_string(ML * 2), ML * 2 + 1, [=](Ctx &x, u64 len) { std::string d = "length " + std::to_string(len); run(x, stream_ops(len), d); run(x, two_ops(len), d); if (len <= ML) run(x, h2c_ops(len), d); }});
  static const u64 LL[] = {4096, 65535, 65536, 65537, 1u << 20, (1u << 20) + 1, 9u << 20};
  c.sections.push_back({"long-messages", "4 KiB, 64 KiB (-1, +0, +1), 1 MiB (+0, +1) and 9 MiB (more than the stack) through signing, verification, streaming and one-call hashes, two-lane SHA-512 and hash to curve", 7 * (NS + 3), [=](Ctx &x, u64 i) {
    u64 len = LL[6 - i / (NS + 3)], w = i % (NS + 3); std::string d = "length " + std::to_string(len);
    if (w == NS) run(x, stream_ops(len), d); else if (w == NS + 1) run(x, two_ops(len), d); else if (w == NS + 2) run(x, h2c_ops(len), d);
    else { const Scheme &s = SCHEMES[w]; const Key &k = key(s, 2); Bytes m = content(0, len), cx = s.hasctx() ? content(4, 9) : Bytes(); edges(x, op_sign(s, k.sk, k.pk, m, cx), d); edges(x, op_verify(s, sig_of(s, k, m, cx), k.pk, m, cx), d); } }});
  c.sections.push_back({"shake-outputs", "SHAKE128/256 with every output length 0..600 at the edges", 601, [=](Ctx &x, u64 d) { for (int al : {128, 256}) { Bytes m = content(0, d % 40); u64 l = m.size(); edges(x, {"shake" + std::to_string(al), {in(m), out(d)}, [=](u8 **p) { return (long)(al == 128 ? SHAKE128(p[0], l * 8, p[1], d) : SHAKE256(p[0], l * 8, p[1], d)); }}, "output " + std::to_string(d)); } }});
  static std::vector<Op> fo = field_ops(); for (auto &o : more_field_ops()) fo.push_back(o);
  c.sections.push_back({"field", "all operations of both field tables in all representations (" + std::to_string(fo.size()) + " operation x operand cases)", fo.size(), [=](Ctx &x, u64 i) { edges(x, fo[i], "case " + std::to_string(i)); aligns(x, fo[i], "case " + std::to_string(i)); }});
  c.sections.push_back({"points", "exported point operations, predicates, maps and the scalar reduction on 64 combinations of points", 64, [=](Ctx &x, u64 i) { run(x, point_ops(i), "case " + std::to_string(i)); if (i < 2) for (auto &o : point_ops(i)) aligns(x, o, "case " + std::to_string(i)); }});
  c.sections.push_back({"null-empty", "zero-length messages and contexts given as null pointers", NS + 1, [=](Ctx &x, u64 i) {
    if (i < NS) { const Scheme &s = SCHEMES[i]; const Key &k = key(s, 1); Bytes m; Buf a, b, pk, sk; memcpy(pk.b, k.pk.data(), s.kb()); memcpy(sk.b, k.sk.data(), s.kb()); static u8 z[8]; x.about("%s null message and context", s.name); int r = s.sign(a, z, 0, z, 0, pk, sk); int r2 = s.sign(b, nullptr, 0, nullptr, 0, pk, sk); x.eval(2); x.distinct(2); if (r != r2 || memcmp(a.b, b.b, 2 * s.kb())) x.fail(std::string("null-sign-") + s.name, "null differs from empty"); int v = s.verify(nullptr, 0, nullptr, 0, pk, a); x.eval(); x.distinct(1); if (v != s.verify(z, 0, z, 0, pk, a)) x.fail(std::string("null-verify-") + s.name, "null differs from empty");
      if (s.hasctx()) { Bytes t = content(0, 40); s.sign(a, t.data(), 40, z, 0, pk, sk); s.sign(b, t.data(), 40, nullptr, 0, pk, sk); x.eval(2); x.distinct(1); if (memcmp(a.b, b.b, 2 * s.kb())) x.fail(std::string("null-context-") + s.name, "null context differs from empty"); t = content(4, 40); s.sign(a, z, 0, t.data(), 40, pk, sk); s.sign(b, nullptr, 0, t.data(), 40, pk, sk); x.eval(2); x.distinct(1); if (memcmp(a.b, b.b, 2 * s.kb())) x.fail(std::string("null-message-") + s.name, "null message differs from empty"); } return; }
    static u8 z[8]; u8 d[64], e[64]; x.about("null message to the hashes"); sph_sha512_context c; sph_sha512_init(&c); sph_sha512(&c, nullptr, 0); sph_sha512_close(&c, d); ref::sha512(z, 0, e); x.eval(); x.distinct(1); if (memcmp(d, e, 64)) x.fail("null-sha512", "empty"); SHAKE256(nullptr, 0, d, 64); SHAKE256(z, 0, e, 64); x.eval(2); x.distinct(1); if (memcmp(d, e, 64)) x.fail("null-shake", "empty"); Point P, Q; h2c25519_x64(&P, nullptr, 0); h2c25519_avx2(&Q, nullptr, 0); x.eval(2); x.distinct(1); if (!areEqual(&P, &Q)) x.fail("null-h2c", "empty"); }});
  static const u64 HN[] = {(1ull << 29) + 3, (1ull << 32) - 1, (1ull << 32) + 9};
  c.sections.push_back({"huge-messages", std::string("signing and verifying messages of 2^29 bytes") + (T ? ", 2^32-1 and more than 2^32 bytes" : "") + " against the reference model: lengths are not truncated", NS * (T ? 3 : 1), [=](Ctx &x, u64 i) {
    const Scheme &s = SCHEMES[i % NS]; u64 n = HN[i / NS]; Huge h(n, 9); if (!h.p) { x.count("huge-skipped"); return; } const Key &k = key(s, 2); Bytes cx = s.hasctx() ? content(4, 9) : Bytes(); u8 w[128]; Buf sg, pk, sk; memcpy(pk.b, k.pk.data(), s.kb()); memcpy(sk.b, k.sk.data(), s.kb()); x.about("%s message of %lu bytes", s.name, n); int r = s.sign(sg, h.p, n, cx.data(), cx.size(), pk, sk); x.eval(); x.distinct(1);
    ref::ed_sign(s.c(), s.m, ref::ed_key(s.c(), k.sk.data()), k.pk.data(), cx.data(), cx.size(), h.p, n, w); if (r != faz::eddsa::EDDSA_SIGNATURE_OK || memcmp(sg.b, w, 2 * s.kb())) x.fail(std::string("huge-sign-") + s.name, std::to_string(n) + " bytes"); memcpy(sg.b, w, 2 * s.kb()); if (s.verify(h.p, n, cx.data(), cx.size(), pk, sg) != faz::eddsa::EDDSA_VERIFICATION_OK) x.fail(std::string("huge-verify-") + s.name, std::to_string(n) + " bytes"); x.eval(); x.distinct(1); }});
  // allocation and printing helpers
  c.sections.push_back({"helpers", "allocated keys and signatures are large enough, aligned, distinct and writable; printing a key or signature writes its bytes as one hexadecimal number, for several values", 24, [=](Ctx &x, u64 i) {
    using namespace faz::eddsa; auto chk = [&](const char *nm, std::function<u8 *()> al, size_t n, std::function<void(FILE *, u8 *)> pr, std::function<void(void *)> fr, std::function<void(u8 *)> rnd) {
      x.about("allocating %s", nm); asked = 0; u8 *p = al(); size_t got = asked; x.eval(); x.distinct(1); if (p && (got ? got : malloc_usable_size(p)) < n) { x.fail(std::string("alloc-size-") + nm, std::to_string(got) + " bytes asked for, " + std::to_string(n) + " needed"); return; } if (!p || (uintptr_t)p % 32) { x.fail(std::string("alloc-") + nm, "null or misaligned"); if (!p) return; }
      Bytes v = i == 0 ? Bytes(n, 0) : i == 1 ? Bytes(n, 255) : gen(nm, i, n); memcpy(p, v.data(), n); if (rnd && i == 3) { rnd(p); v = Bytes(p, p + n); } if (pr) { char *t = nullptr; size_t tn = 0; FILE *f = open_memstream(&t, &tn); x.about("printing %s", nm); pr(f, p); fclose(f); std::string w; char b[4]; for (size_t k = n; k-- > 0;) { snprintf(b, 4, "%02x", v[k]); w += b; } std::string g(t, tn); free(t); for (auto &ch : g) ch = tolower(ch); x.eval(); if (g.find(w) == std::string::npos) x.fail(std::string("print-") + nm, g + " for " + hx(v)); if (memcmp(p, v.data(), n)) x.fail(std::string("print-changes-") + nm, hx(v)); } if (fr) fr(p); };
    auto dh = [&](const char *nm, const X_ECDH &D, size_t n) { chk(nm, [&] { return D.allocKey(); }, n, [&](FILE *f, u8 *p) { D.printKey(f, p); }, [&](void *p) { D.freeKey(p); }, [&](u8 *p) { D.randKey(p); }); }; dh("X25519-key", X25519, 32); dh("X25519_x64-key", X25519_x64, 32); dh("X448-key", X448, 56);
    #define ED(nm, S, n) chk(nm "-key", [&] { return S.allocKey(); }, n, [&](FILE *f, u8 *p) { S.printKey(f, p); }, [&](void *p) { S.freeKey(p); }, [&](u8 *p) { S.randKey(p); }); chk(nm "-signature", [&] { return S.allocSignature(); }, 2 * n, [&](FILE *f, u8 *p) { S.printSignature(f, p); }, [&](void *p) { S.freeSignature(p); }, nullptr)
    ED("Ed25519", Ed25519.Pure, 32); ED("Ed25519ctx", Ed25519.Context, 32); ED("Ed25519ph", Ed25519.PreHash, 32); ED("Ed448", Ed448.PureContext, 57); ED("Ed448ph", Ed448.PreHash, 57);
    for (int f = 0; f < 2; f++) { const faz::fp::PrimeField *F = f ? &faz::fp::Fp448 : &faz::fp::Fp25519; std::string n = f ? "Fp448" : "Fp25519"; auto el = [&](const std::string &nm, std::function<void *()> al, std::function<void(void *)> fr, std::function<void(void *)> rnd, size_t sz) { std::string q = n + nm; chk(q.c_str(), [&] { return (u8 *)al(); }, sz, nullptr, fr, [&](u8 *p) { rnd(p); }); };
      el(".full", [&] { return (void *)F->_1w_full.arith.misc.alloc(); }, [&](void *p) { F->_1w_full.arith.misc.free(p); }, [&](void *p) { F->_1w_full.arith.misc.rand((u64 *)p); }, f ? 56 : 32); el(".1w", [&] { return (void *)F->_1w_red.arith.misc.alloc(); }, [&](void *p) { F->_1w_red.arith.misc.free(p); }, [&](void *p) { F->_1w_red.arith.misc.rand((u64 *)p); }, f ? 128 : 96);
      el(".2w", [&] { return (void *)F->_2w_red.arith.misc.alloc(); }, [&](void *p) { F->_2w_red.arith.misc.free(p); }, [&](void *p) { F->_2w_red.arith.misc.rand((__m256i *)p); }, f ? 256 : 160); el(".4w", [&] { return (void *)F->_4w_red.arith.misc.alloc(); }, [&](void *p) { F->_4w_red.arith.misc.free(p); }, [&](void *p) { F->_4w_red.arith.misc.rand((__m256i *)p); }, f ? 512 : 320); } }});
  c.hang_s = 300;
  return vf::run(argc, argv, c);
}
