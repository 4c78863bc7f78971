// C22: re-entrancy.  A controlled scheduler runs library calls in real threads,
// one at a time, and decides at every scheduling point which goes on.
//  - plain builds: every instruction that touches the library's writable static
//    memory is a scheduling point (the pages are inaccessible; the instruction
//    is stepped over).  Calls that touch none commute, so one schedule stands
//    for all; those that do are explored up to a preemption bound.
//  - block build: every basic block of the library is a scheduling point; all
//    schedules with one preemption, grids of two, and three nested calls.
//  - streaming contexts: all interleavings of operation sequences.
#include <dlfcn.h>
#include <link.h>
#include <linux/futex.h>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <atomic>
#include <climits>
#include <mutex>
#include <ucontext.h>
#include <unistd.h>
#include "hash.h"
#include "faz_hash_avx2.h"
using namespace faz;
typedef std::atomic<int> Word;
static void fwait(Word &w, int v, long ns = 0) { timespec t{0, ns}; syscall(SYS_futex, (int *)&w, FUTEX_WAIT_PRIVATE, v, ns ? &t : nullptr, nullptr, 0); }
static void fwake(Word &w) { syscall(SYS_futex, (int *)&w, FUTEX_WAKE_PRIVATE, INT_MAX, nullptr, nullptr, 0); }

#define NAME2(x) #x
#define NAME(x) NAME2(x)   // some public names are macros for others
// ---- loaded libraries -------------------------------------------------------
struct Range { u8 *p; size_t n; };
struct Lib {
  void *h = nullptr; std::string name; std::vector<Range> rw; std::vector<Bytes> image;
  const ecdh::X_ECDH *x, *x64, *x448; const eddsa::_struct_Ed255 *e25; const eddsa::_struct_Ed448 *e48; const fp::PrimeField *f25, *f48;
  template <class T> void sym(T &t, const char *n) { t = (T)dlsym(h, n); }
  void (*h2cx)(hash::Point *, u8 *, size_t), (*h2ca)(hash::Point *, u8 *, size_t); void (*s5i)(void *), (*s5)(void *, const void *, size_t), (*s5c)(void *, void *), (*s3i)(void *), (*s3)(void *, const void *, size_t), (*s3c)(void *, void *);
  HashReturn (*Hash_)(int, const BitSequence *, DataLength, BitSequence *), (*shake128)(const BitSequence *, DataLength, BitSequence *, unsigned), (*shake256)(const BitSequence *, DataLength, BitSequence *, unsigned), (*Init_)(hashState *, int), (*Update_)(hashState *, const BitSequence *, DataLength), (*Final_)(hashState *, BitSequence *), (*Final2_)(hashState *, BitSequence *, unsigned);
  void (*two)(u8 **, size_t, u8 **); int (*onc)(hash::Point *), (*eq)(hash::Point *, hash::Point *); void (*m2c)(void *, u64 *), (*fadd)(void *, void *, void *), (*dbl)(void *), (*h2f)(u64 *, u8, u8 *, size_t), (*h2f2)(u64 *, u64 *, u8 *, size_t), (*pp)(FILE *, hash::Point *);
  bool load(const std::string &file) {
    h = dlopen(file.c_str(), RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "%s\n", dlerror()); return false; }
    sym(x, "X25519"); sym(x64, "X25519_x64"); sym(x448, "X448"); sym(e25, "Ed25519"); sym(e48, "Ed448"); sym(f25, "Fp25519"); sym(f48, "Fp448"); sym(h2cx, "h2c25519_x64"); sym(h2ca, "h2c25519_avx2");
    sym(s5i, NAME(sph_sha512_init)); sym(s5, NAME(sph_sha512)); sym(s5c, NAME(sph_sha512_close)); sym(s3i, NAME(sph_sha384_init)); sym(s3, NAME(sph_sha384)); sym(s3c, NAME(sph_sha384_close)); sym(Hash_, "Hash"); sym(shake128, "SHAKE128"); sym(shake256, "SHAKE256"); sym(Init_, "Init"); sym(Update_, "Update"); sym(Final_, "Final"); sym(Final2_, "Final2"); sym(two, "sha512_2w_avx"); sym(onc, "isOnCurve"); sym(eq, "areEqual"); sym(m2c, "map_to_curve"); sym(fadd, "_1way_fulladd_1w_full"); sym(dbl, "_1way_doubling_1w_full"); sym(h2f, "hash_to_field"); sym(h2f2, "hash_to_field_2w"); sym(pp, "print_point");
    struct A { void *s; std::vector<Range> v; } a{(void *)x, {}};
    dl_iterate_phdr([](dl_phdr_info *i, size_t, void *d) { A *a = (A *)d; bool mine = false; uintptr_t rl = 0, rh = 0; for (int k = 0; k < i->dlpi_phnum; k++) { auto &h = i->dlpi_phdr[k]; uintptr_t b = i->dlpi_addr + h.p_vaddr; if (h.p_type == PT_LOAD && (uintptr_t)a->s >= b && (uintptr_t)a->s < b + h.p_memsz) mine = true; if (h.p_type == PT_GNU_RELRO) { rl = b & ~4095ul; rh = (b + h.p_memsz) & ~4095ul; } }
      if (mine) for (int k = 0; k < i->dlpi_phnum; k++) { auto &h = i->dlpi_phdr[k]; if (h.p_type == PT_LOAD && (h.p_flags & PF_W)) { uintptr_t b = (i->dlpi_addr + h.p_vaddr) & ~4095ul, e = (i->dlpi_addr + h.p_vaddr + h.p_memsz + 4095) & ~4095ul; if (rl <= b && rh > b) b = rh; if (b < e) a->v.push_back({(u8 *)b, e - b}); } }
      return 0; }, &a);
    rw = a.v; for (auto &r : rw) image.push_back(Bytes(r.p, r.p + r.n)); return x && e25 && f25; }
  void protect(int prot) { for (auto &r : rw) mprotect(r.p, r.n, prot); }
  bool in(void *a) { for (auto &r : rw) if ((u8 *)a >= r.p && (u8 *)a < r.p + r.n) return true; return false; }
  void reset() { protect(PROT_READ | PROT_WRITE); for (size_t i = 0; i < rw.size(); i++) memcpy(rw[i].p, image[i].data(), rw[i].n); }
};
static Lib PL, P0, BL;

// ---- operations: inputs for data set d are fixed; outputs go to o ---------------
struct Env { alignas(64) u8 in[2048]; alignas(64) u8 o[4096]; size_t on; };
struct Op { std::string name; std::function<void(Lib &, int d, Env &)> prep, run; };
static std::vector<Op> OPS;
static std::set<std::string> seen;   // random bytes given out during this schedule
static std::mutex books;   // calls that wait for each other may run at the same time for a moment
static bool fresh(const u8 *b, size_t n) { std::lock_guard<std::mutex> g(books); return seen.insert(std::string((const char *)b, n)).second; }
static const char *SN[] = {"Ed25519", "Ed25519ctx", "Ed25519ph", "Ed448", "Ed448ph"};
static int kb(int s) { return s < 3 ? 32 : 57; }
static int s_keygen(Lib &l, int s, u8 *pk, u8 *sk) { return s == 0 ? l.e25->Pure.keygen(pk, sk) : s == 1 ? l.e25->Context.keygen(pk, sk) : s == 2 ? l.e25->PreHash.keygen(pk, sk) : s == 3 ? l.e48->PureContext.keygen(pk, sk) : l.e48->PreHash.keygen(pk, sk); }
static int s_sign(Lib &l, int s, u8 *sg, u8 *m, u64 ml, u8 *c, u64 cl, u8 *pk, u8 *sk) { return s == 0 ? l.e25->Pure.sign(sg, m, ml, pk, sk) : s == 1 ? l.e25->Context.sign(sg, m, ml, c, cl, pk, sk) : s == 2 ? l.e25->PreHash.sign(sg, m, ml, c, cl, pk, sk) : s == 3 ? l.e48->PureContext.sign(sg, m, ml, c, cl, pk, sk) : l.e48->PreHash.sign(sg, m, ml, c, cl, pk, sk); }
static int s_verify(Lib &l, int s, u8 *sg, u8 *m, u64 ml, u8 *c, u64 cl, u8 *pk) { return s == 0 ? l.e25->Pure.verify(m, ml, pk, sg) : s == 1 ? l.e25->Context.verify(m, ml, c, cl, pk, sg) : s == 2 ? l.e25->PreHash.verify(m, ml, c, cl, pk, sg) : s == 3 ? l.e48->PureContext.verify(m, ml, c, cl, pk, sg) : l.e48->PreHash.verify(m, ml, c, cl, pk, sg); }
static void make_ops() {
  auto fillin = [](Env &e, const char *l, int d) { Bytes b = gen(l, d, sizeof e.in); memcpy(e.in, b.data(), b.size()); };
  for (int s = 0; s < 5; s++) {   // in: sk 0, pk 64, ctx 128, sig 256, msg 512
    static const u64 ML[3] = {40, 150, 0}, CL[3] = {5, 40, 1}; int k = kb(s);
    auto base = [=](Lib &l, int d, Env &e) { fillin(e, SN[s], d); s_keygen(l, s, e.in + 64, e.in); };
    OPS.push_back({std::string("keygen-") + SN[s], base, [=](Lib &l, int, Env &e) { e.o[0] = s_keygen(l, s, e.o + 1, e.in); e.on = 1 + k; }});
    OPS.push_back({std::string("sign-") + SN[s], base, [=](Lib &l, int d, Env &e) { e.o[0] = s_sign(l, s, e.o + 1, e.in + 512, ML[d], e.in + 128, CL[d], e.in + 64, e.in); e.on = 1 + 2 * k; }});
    // data set 0 and 2 verify, data set 1 does not
    OPS.push_back({std::string("verify-") + SN[s], [=](Lib &l, int d, Env &e) { base(l, d, e); s_sign(l, s, e.in + 256, e.in + 512, ML[d], e.in + 128, CL[d], e.in + 64, e.in); if (d == 1) e.in[512] ^= 1; }, [=](Lib &l, int d, Env &e) { e.o[0] = s_verify(l, s, e.in + 256, e.in + 512, ML[d], e.in + 128, CL[d], e.in + 64); e.on = 1; }});
  }
  for (int v = 0; v < 3; v++) { const char *n[] = {"X25519", "X25519_x64", "X448"}; int k = v == 2 ? 56 : 32; auto F = [=](Lib &l) { return v == 0 ? l.x : v == 1 ? l.x64 : l.x448; };
    auto base = [=](Lib &, int d, Env &e) { fillin(e, n[v], d); };
    if (v != 1) OPS.push_back({std::string("keygen-") + n[v], base, [=](Lib &l, int, Env &e) { e.o[0] = F(l)->keygen(e.o + 1, e.in); e.on = 1 + k; }});
    OPS.push_back({std::string("shared-") + n[v], base, [=](Lib &l, int, Env &e) { e.o[0] = F(l)->shared(e.o + 1, e.in + 64, e.in); e.on = 1 + k; }}); }
  auto base = [=](Lib &, int d, Env &e) { fillin(e, "c22", d); };
  static const u64 HL[3] = {200, 35, 128};
  OPS.push_back({"h2c-x64", base, [](Lib &l, int d, Env &e) { l.h2cx((hash::Point *)e.o, e.in, HL[d]); e.on = sizeof(hash::Point); }});
  OPS.push_back({"h2c-avx2", base, [](Lib &l, int d, Env &e) { l.h2ca((hash::Point *)e.o, e.in, HL[d]); e.on = sizeof(hash::Point); }});
  OPS.push_back({"sha512", base, [](Lib &l, int d, Env &e) { sph_sha512_context c; l.s5i(&c); l.s5(&c, e.in, HL[d] / 3); l.s5(&c, e.in + HL[d] / 3, HL[d] - HL[d] / 3); l.s5c(&c, e.o); e.on = 64; }});
  OPS.push_back({"sha384", base, [](Lib &l, int d, Env &e) { sph_sha384_context c; l.s3i(&c); l.s3(&c, e.in, HL[d]); l.s3c(&c, e.o); e.on = 48; }});
  OPS.push_back({"sha3", base, [](Lib &l, int d, Env &e) { l.Hash_(d ? 256 : 512, e.in, HL[d] * 8, e.o); e.on = d ? 32 : 64; }});
  OPS.push_back({"shake", base, [](Lib &l, int d, Env &e) { hashState h; l.Init_(&h, 256); l.Update_(&h, e.in, 8 * (HL[d] / 2)); l.Update_(&h, e.in + HL[d] / 2, 8 * (HL[d] - HL[d] / 2)); l.Final2_(&h, e.o, 200); l.shake128(e.in, HL[d] * 8, e.o + 200, 100); e.on = 300; }});
  if (PL.two) OPS.push_back({"sha512-2w", base, [](Lib &l, int d, Env &e) { u8 *m[2] = {e.in, e.in + 300}, *o[2] = {e.o, e.o + 64}; l.two(m, HL[d], o); e.on = 128; }});
  for (int f = 0; f < 2; f++) { std::string n = f ? "Fp448" : "Fp25519"; size_t by = f ? 56 : 32; auto F = [=](Lib &l) { return f ? l.f48 : l.f25; };
    OPS.push_back({n + "-1w", base, [=](Lib &l, int, Env &e) { auto &A = F(l)->_1w_full.arith; auto &R = F(l)->_1w_red.arith; alignas(64) u64 a[16], b[16], c[16]; memset(a, 0, sizeof a); memcpy(a, e.in, by); ((u8 *)a)[by - 1] &= 0x7f; A.inv(c, a); A.mul(c, c, a); A.sub(c, c, a); A.sqr(c); A.misc.ser(e.o, c); R.misc.unser(a, e.in + 64); R.misc.unser(b, e.in + 128); R.mul(c, a, b); R.inv(b, c); R.add(b, b, a); R.misc.ser(e.o + 64, b); e.on = 64 + by; memset(e.o + by, 0, 64 - by); }});
    OPS.push_back({n + "-vector", base, [=](Lib &l, int, Env &e) { auto &A = F(l)->_2w_red; auto &R = F(l)->_4w_red; alignas(64) __m256i a[16], b[16], c[16]; A.arith.misc.unser(a, e.in); A.arith.misc.unser(b, e.in + 256); if (A.arith.mul) A.arith.mul(c, a, b); else { A.arithex.intmul(c, a, b); A.arithex.compress(c); } if (A.arith.sqr) A.arith.sqr(c); if (A.arith.sub) A.arith.sub(c, c, a); A.arith.misc.ser(e.o, c); R.arith.misc.unser(a, e.in); R.arith.misc.unser(b, e.in + 512); if (R.arith.mul) R.arith.mul(c, a, b); else { R.arithex.intmul(c, a, b); R.arithex.compress(c); } if (R.arith.add) R.arith.add(c, c, b); R.arith.misc.ser(e.o + 2 * by, c); e.on = 6 * by; }}); }
  // the remaining operations of the fields
  for (int f = 0; f < 2; f++) { std::string n = f ? "Fp448" : "Fp25519"; size_t by = f ? 56 : 32; auto F = [=](Lib &l) { return f ? l.f48 : l.f25; };
    for (int r = 0; r < 2; r++) OPS.push_back({n + (r ? "-1w-red-rest" : "-1w-full-rest"), base, [=](Lib &l, int d, Env &e) {
      auto &A = r ? F(l)->_1w_red.arith : F(l)->_1w_full.arith; alignas(64) u64 v[4][48]; memset(v, 0, sizeof v); u8 t[64]; u8 *o = e.o; memcpy(t, e.in, 64); t[by - 1] &= 0x7f; A.misc.unser(v[0], t); memcpy(t, e.in + 64, 64); t[by - 1] &= 0x7f; A.misc.unser(v[1], t);
      auto put = [&](u64 *z) { A.misc.ser(o, z); o += by; };
      if (A.sgn) *o++ = A.sgn(v[0]);
      if (A.cmp) *o++ = A.cmp(v[0], v[1]), *o++ = A.cmp(v[0], v[0]);
      if (A.misc.copy) A.misc.copy(v[2], v[0]), put(v[2]);
      if (A.neg) A.neg(v[2]), put(v[2]);
      if (A.cmv) A.cmv(d & 1, v[2], v[2], v[1]), put(v[2]);
      if (A.srt) { if (A.sqr) A.sqr(v[1]); A.srt(v[2], v[1]); put(v[2]); }
      if (A.prime) { memset(v[3], 0, sizeof v[3]); A.prime(v[3]); memcpy(o, v[3], by); o += by; }
      if (A.misc.zero) A.misc.zero(v[2]), put(v[2]);
      if (!r) { auto &X = F(l)->_1w_full.arithex; if (X.mula24) X.mula24(v[2], v[0]), put(v[2]); if (X.intmul && X.reduce) X.intmul(v[3], v[0], v[1]), X.reduce(v[2], v[3]), put(v[2]); if (X.intsqr && X.reduce) X.intsqr(v[3], v[0]), X.reduce(v[2], v[3]), put(v[2]); }
      else { auto &X = F(l)->_1w_red.arithex; if (X.addsub) X.addsub(v[0], v[1]), X.compress(v[0]), X.compress(v[1]), put(v[0]), put(v[1]); if (X.intmul) X.intmul(v[3], v[0], v[1]), X.compress(v[3]), put(v[3]); }
      e.on = o - e.o; }});
    OPS.push_back({n + "-double-width", base, [=](Lib &l, int, Env &e) {   // two products side by side
      auto &X = F(l)->_1w_full.arithex; u8 *o = e.o; memset(o, 0, 256); if (X.intmul2 && X.reduce2) { alignas(64) u64 a[16] = {0}, b[16] = {0}, c[32] = {0}; memcpy(a, e.in, 2 * by); memcpy(b, e.in + 128, 2 * by); X.intmul2(c, a, b); X.reduce2(a, c); memcpy(o, a, 2 * by); X.intsqr2(c, b); X.reduce2(a, c); memcpy(o + 2 * by, a, 2 * by); } e.on = 256; }});
    OPS.push_back({n + "-vector-rest", base, [=](Lib &l, int d, Env &e) {
      auto &A = F(l)->_2w_red; auto &R = F(l)->_4w_red; alignas(64) __m256i v[3][16]; memset(v, 0, sizeof v); u8 *o = e.o; A.arith.misc.unser(v[0], e.in); A.arith.misc.unser(v[1], e.in + 256);
      if (A.arith.misc.copy) A.arith.misc.copy(v[2], v[0]), A.arith.misc.ser(o, v[2]), o += 2 * by;
      if (A.arith.neg) A.arith.neg(v[2]), A.arith.misc.ser(o, v[2]), o += 2 * by;
      if (A.arith.ngz) A.arith.misc.unser(v[2], e.in + 512), A.arith.ngz(v[2], v[0]), A.arith.misc.ser(o, v[2]), o += 2 * by;
      if (A.arith.cmv) A.arith.cmv(_mm256_set1_epi64x(d & 1 ? -1 : 0), v[2], v[0], v[1]), A.arith.misc.ser(o, v[2]), o += 2 * by;
      if (A.arithex.intsqr) A.arith.misc.copy(v[2], v[0]), A.arithex.intsqr(v[2]), A.arithex.compress(v[2]), A.arith.misc.ser(o, v[2]), o += 2 * by;
      if (A.arithex.addsub) A.arithex.addsub(v[0], v[1]), A.arithex.compress(v[0]), A.arithex.compress(v[1]), A.arith.misc.ser(o, v[0]), o += 2 * by;
      R.arith.misc.unser(v[0], e.in); R.arith.misc.unser(v[1], e.in + 1024);
      if (R.arith.neg) R.arith.neg(v[0]), R.arith.misc.ser(o, v[0]), o += 4 * by;
      if (R.arith.sub) R.arith.sub(v[2], v[0], v[1]), R.arithex.compress(v[2]), R.arith.misc.ser(o, v[2]), o += 4 * by;
      if (R.arithex.intsqr) R.arithex.intsqr(v[1]), R.arithex.compress(v[1]), R.arith.misc.ser(o, v[1]), o += 4 * by;
      e.on = o - e.o; }}); }
  // points and the parts of hash-to-curve
  OPS.push_back({"points", [=](Lib &l, int d, Env &e) { base(l, d, e); for (int k = 0; k < 2; k++) l.h2cx((hash::Point *)(e.in + 1024 + 64 * k), e.in + 100 * k, HL[d]); if (d == 1) e.in[1024] ^= 1; }, [](Lib &l, int, Env &e) { hash::Point *P = (hash::Point *)(e.in + 1024), *Q = P + 1; e.o[0] = l.onc(P); e.o[1] = l.onc(Q); e.o[2] = l.eq(P, Q); e.o[3] = l.eq(P, P); e.on = 4; }});
  if (PL.m2c && PL.fadd && PL.dbl) OPS.push_back({"curve-arithmetic", base, [](Lib &l, int, Env &e) { alignas(64) static thread_local u8 z[3][512]; memset(z, 0, sizeof z); alignas(64) u64 u[2][4]; memcpy(u, e.in, 64); u[0][3] &= ~0ull >> 1; u[1][3] &= ~0ull >> 1; l.m2c(z[0], u[0]); l.m2c(z[1], u[1]); l.fadd(z[2], z[0], z[1]); l.dbl(z[2]); u64 *P = (u64 *)z[2]; auto &A = l.f25->_1w_full.arith; alignas(64) u64 i[4], t[4]; A.inv(i, P + 8); A.mul(t, P, i); A.misc.ser(e.o, t); A.mul(t, P + 4, i); A.misc.ser(e.o + 32, t); e.on = 64; }});
  if (PL.h2f) OPS.push_back({"hash-to-field", base, [](Lib &l, int d, Env &e) { alignas(64) u64 u[3][4]; l.h2f(u[0], d, e.in, HL[d]); l.f25->_1w_full.arith.misc.ser(e.o, u[0]); e.on = 32; if (l.h2f2) { l.h2f2(u[1], u[2], e.in, HL[d]); l.f25->_1w_full.arith.misc.ser(e.o + 32, u[1]); l.f25->_1w_full.arith.misc.ser(e.o + 64, u[2]); e.on = 96; } }});
  // printing; allocation; randomness
  auto text = [](Env &e, const std::function<void(FILE *)> &f) { FILE *o = fmemopen(e.o, sizeof e.o, "w"); f(o); e.on = ftell(o); fclose(o); };
  OPS.push_back({"print-keys", base, [=](Lib &l, int d, Env &e) { text(e, [&](FILE *o) { l.x->printKey(o, e.in + d); l.x64->printKey(o, e.in + 64); l.x448->printKey(o, e.in + 128); l.e25->Pure.printKey(o, e.in + 64); l.e25->PreHash.printSignature(o, e.in + 32); l.e48->PureContext.printKey(o, e.in + 9); l.e48->PreHash.printSignature(o, e.in + 300); }); }});
  OPS.push_back({"print-elements", base, [=](Lib &l, int, Env &e) { text(e, [&](FILE *o) { alignas(64) u64 v[64]; alignas(64) __m256i w[16]; for (auto F : {l.f25, l.f48}) { memset(v, 0, sizeof v); size_t by = F == l.f25 ? 32 : 56; memcpy(v, e.in, by); ((u8 *)v)[by - 1] &= 0x7f; F->_1w_full.arith.misc.print(o, v); F->_1w_red.arith.misc.unser(v, e.in + 64); F->_1w_red.arith.misc.print(o, v); F->_2w_red.arith.misc.unser(w, e.in + 128); F->_2w_red.arith.misc.print(o, w); F->_4w_red.arith.misc.unser(w, e.in + 256); F->_4w_red.arith.misc.print(o, w); } hash::Point P; memcpy(&P, e.in + 512, sizeof P); if (l.pp) l.pp(o, &P); }); }});
  static std::set<void *> held;
  for (int a = 0; a < 6; a++) { static const char *n[] = {"X25519", "X448", "Ed25519", "Ed448", "Fp25519", "Fp448"}; static const size_t bytes[] = {32, 56, 64, 114, 320, 512};
    OPS.push_back({std::string("alloc-") + n[a], base, [=](Lib &l, int, Env &e) { size_t z = bytes[a]; u8 *p[2]; e.o[0] = 1; for (int k = 0; k < 2; k++) { p[k] = a == 0 ? l.x->allocKey() : a == 1 ? l.x448->allocKey() : a == 2 ? l.e25->Pure.allocSignature() : a == 3 ? l.e48->PureContext.allocSignature() : (u8 *)(a == 4 ? l.f25 : l.f48)->_4w_red.arith.misc.alloc(); { std::lock_guard<std::mutex> g(books); if (!held.insert(p[k]).second) e.o[0] = 0; } memcpy(p[k], e.in + 512 * k, z); }
      memcpy(e.o + 1, p[0], z); memcpy(e.o + 1 + z, p[1], z); for (int k = 0; k < 2; k++) { { std::lock_guard<std::mutex> g(books); held.erase(p[k]); } a == 0 ? l.x->freeKey(p[k]) : a == 1 ? l.x448->freeKey(p[k]) : a == 2 ? l.e25->Pure.freeSignature(p[k]) : a == 3 ? l.e48->PureContext.freeSignature(p[k]) : (a == 4 ? l.f25 : l.f48)->_4w_red.arith.misc.free(p[k]); } e.on = 1 + 2 * z; }}); }
  // random bytes: no 16 of them were handed out before, in this schedule
  for (int a = 0; a < 5; a++) { static const char *n[] = {"X25519", "X448", "Ed25519", "Ed448", "Fp25519"};
    OPS.push_back({std::string("rand-") + n[a], base, [=](Lib &l, int, Env &e) { e.o[0] = 1; for (int k = 0; k < 2; k++) { alignas(64) u8 b[64]; size_t z = a == 1 ? 56 : a == 3 ? 57 : 32; memset(b, 0, sizeof b); a == 0 ? l.x->randKey(b) : a == 1 ? l.x448->randKey(b) : a == 2 ? l.e25->Pure.randKey(b) : a == 3 ? l.e48->PureContext.randKey(b) : l.f25->_1w_full.arith.misc.rand((u64 *)b); for (size_t i = 0; i + 16 <= z; i++) if (!fresh(b + i, 16)) e.o[0] = 0; } e.on = 1; }}); }
}

// ---- the scheduler ------------------------------------------------------------
static const int NT = 3;
struct Thread { pthread_t t; int op, d; Lib *lib; Env env; bool live; u64 blocks, target, target2, limit; bool stepping, touched; };
static Thread TH[NT]; static Word turn, epoch, ndone, points; static int nthr; static Lib *traplib;   // epoch: 4 * schedule + calls in it
static thread_local int me = -1;
struct Point { int cur; bool cur_live; int chosen; unsigned live; };
static std::vector<int> plan; static std::vector<Point> trace; static u64 maxpoints = 4000;
// decide who runs next; cur has reached a scheduling point, or ended (live false)
static int decide(int cur, bool live) {
  unsigned l = 0; for (int i = 0; i < nthr; i++) if (TH[i].live) l |= 1u << i; if (!l) return -1;
  int c; size_t k = trace.size(); if (k < plan.size() && (l >> plan[k] & 1)) c = plan[k]; else if (live) c = cur; else { c = 0; while (!(l >> c & 1)) c++; }
  trace.push_back({cur, live, c, l}); points++; return c;
}
static void hand(int to) { turn = to; fwake(turn); }
static void wait_turn(int id) { for (;;) { int t = turn; if (t == id) return; fwait(turn, t); } }
// past the bound on scheduling points (a call that spins on a lock another one
// holds, say) the threads take turns
static u64 free_points;
static void rotate(int id) { for (int k = 1; k < nthr; k++) { int o = (id + k) % nthr; if (TH[o].live) { points++; hand(o); wait_turn(id); return; } } points++; }
static void sched_point() { int id = me; wait_turn(id); if (trace.size() >= maxpoints) { if (++free_points % 64 == 0) rotate(id); return; } int c = decide(id, true); if (c != id) { hand(c); wait_turn(id); } }
extern "C" void __sanitizer_cov_trace_pc() { if (me < 0) return; Thread &t = TH[me]; u64 b = ++t.blocks; if (b == t.target || b == t.target2) sched_point(); else if (b > t.limit && b % 256 == 0) rotate(me); }
static void *thread_main(void *a) {
  int id = (int)(intptr_t)a; int seen = 0;
  for (;;) {
    while (epoch == seen) fwait(epoch, seen);
    seen = epoch; if (id >= (seen & 3)) continue;
    wait_turn(id); me = id; OPS[TH[id].op].run(*TH[id].lib, TH[id].d, TH[id].env); me = -1;
    wait_turn(id); TH[id].live = false; int c = decide(id, false); ndone++; fwake(ndone); if (c >= 0) hand(c);
  }
}
static void onsegv(int, siginfo_t *si, void *u) {
  if (me < 0 || !traplib || !traplib->in(si->si_addr)) { signal(SIGSEGV, SIG_DFL); return; }
  TH[me].touched = true; sched_point(); traplib->protect(PROT_READ | PROT_WRITE); ((ucontext_t *)u)->uc_mcontext.gregs[REG_EFL] |= 0x100; TH[me].stepping = true;
}
static void ontrap(int, siginfo_t *, void *u) { if (me < 0 || !TH[me].stepping) { signal(SIGTRAP, SIG_DFL); return; } TH[me].stepping = false; ((ucontext_t *)u)->uc_mcontext.gregs[REG_EFL] &= ~0x100l; traplib->protect(PROT_NONE); }
// system calls that fill a buffer in static memory are scheduling points too
template <class F> static ssize_t fill(void *b, size_t n, F f) {
  if (me < 0 || !traplib || !n || (!traplib->in(b) && !traplib->in((u8 *)b + n - 1))) return f();
  TH[me].touched = true; sched_point(); traplib->protect(PROT_READ | PROT_WRITE); ssize_t r = f(); int e = errno; if (!TH[me].stepping) traplib->protect(PROT_NONE); errno = e; return r;
}
extern "C" ssize_t read(int fd, void *b, size_t n) { return fill(b, n, [=] { return syscall(SYS_read, fd, b, n); }); }
extern "C" ssize_t getrandom(void *b, size_t n, unsigned f) { return fill(b, n, [=] { return syscall(SYS_getrandom, b, n, f); }); }
extern "C" int getentropy(void *b, size_t n) { return fill(b, n, [=] { return syscall(SYS_getrandom, b, n, 0) == (long)n ? 0 : -1; }); }
// so are the library's own locks in static memory; a call that has to wait for
// one lets the others go on
template <class F> static int locking(void *m, F f) {
  if (me < 0) return f();
  bool in = traplib && traplib->in(m); if (in) { TH[me].touched = true; sched_point(); traplib->protect(PROT_READ | PROT_WRITE); }
  int r = f(); if (in && !TH[me].stepping) traplib->protect(PROT_NONE); return r;
}
template <class T> static T next(const char *n) { return (T)dlsym(RTLD_NEXT, n); }
extern "C" int pthread_mutex_lock(pthread_mutex_t *m) { static auto f = next<int (*)(pthread_mutex_t *)>("pthread_mutex_lock"); static auto t = next<int (*)(pthread_mutex_t *)>("pthread_mutex_trylock"); if (me < 0) return f(m); for (;;) { int r = locking(m, [=] { return t(m); }); if (r != EBUSY) return r; rotate(me); } }
extern "C" int pthread_mutex_unlock(pthread_mutex_t *m) { static auto f = next<int (*)(pthread_mutex_t *)>("pthread_mutex_unlock"); return locking(m, [=] { return f(m); }); }
extern "C" int pthread_once(pthread_once_t *o, void (*g)()) { static auto f = next<int (*)(pthread_once_t *, void (*)())>("pthread_once"); return locking(o, [=] { return f(o, g); }); }
static void start() {
  static bool up = false; if (up) return; up = true; turn = -1; epoch = 0;
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_flags = SA_SIGINFO; sa.sa_sigaction = onsegv; sigaction(SIGSEGV, &sa, nullptr); sa.sa_sigaction = ontrap; sigaction(SIGTRAP, &sa, nullptr);
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1 << 20); for (int i = 0; i < NT; i++) pthread_create(&TH[i].t, &at, thread_main, (void *)(intptr_t)i);
}
struct Call { int op, d; };
static std::vector<u64> NB;   // basic blocks of each operation on each data set
// outputs of each call running alone, from the library's initial state
static const Bytes &alone(Lib &l, int op, int d) {
  static std::map<std::tuple<Lib *, int, int>, Bytes> m; Bytes &b = m[{&l, op, d}]; if (b.empty()) { static Env e; memset(&e, 0, sizeof e); l.reset(); OPS[op].prep(l, d, e); l.reset(); seen.clear(); OPS[op].run(l, d, e); b.assign(e.o, e.o + e.on); l.reset(); } return b; }
static const Bytes &prepared(int op, int d) { static std::map<std::pair<int, int>, Bytes> m; Bytes &b = m[{op, d}]; if (b.empty()) { static Env e; memset(&e, 0, sizeof e); PL.reset(); OPS[op].prep(PL, d, e); b.assign(e.in, e.in + sizeof e.in); } return b; }
static u64 blocks_alone(int op, int d) { Env *e = new Env; memcpy(e->in, prepared(op, d).data(), sizeof e->in); BL.reset(); seen.clear(); TH[0].blocks = 0; TH[0].target = TH[0].target2 = ~0ull; me = 0; OPS[op].run(BL, d, *e); me = -1; u64 b = TH[0].blocks; delete e; return b; }
// pairs of operations that wait for each other (each such schedule takes long)
static std::map<std::pair<int, int>, int> blocked;
static bool waits(const std::vector<Call> &c) { for (size_t i = 0; i < c.size(); i++) for (size_t k = 0; k < c.size(); k++) if (i != k && blocked[{c[i].op, c[k].op}] >= 8) return true; return false; }
// one schedule; true when every call returned what it returns alone
static bool go(Ctx &x, Lib &l, bool trap, const std::vector<Call> &calls, const std::string &desc, bool &stuck) {
  stuck = false; if (waits(calls)) { x.count("schedules-left-out-waiting-calls"); return true; }
  start(); nthr = calls.size(); for (int i = 0; i < nthr; i++) { Thread &t = TH[i]; t.op = calls[i].op; t.d = calls[i].d; t.lib = &l; memset(t.env.o, 0, sizeof t.env.o); memcpy(t.env.in, prepared(t.op, t.d).data(), sizeof t.env.in); alone(l, t.op, t.d); t.live = true; t.blocks = 0; t.limit = NB.empty() ? ~0ull : 4 * NB[t.op * 3 + t.d] + 4096; t.stepping = t.touched = false; }
  l.reset(); seen.clear(); trace.clear(); points = 0; ndone = 0; stuck = false; x.about("%s", desc.c_str());
  if (trap) { traplib = &l; l.protect(PROT_NONE); } turn = -1;
  int c = decide(-1, false); epoch = (epoch & ~3) + 4 + nthr; fwake(epoch); hand(c);
  int idle = 0; while (ndone < nthr) { int n = ndone, p = points, tu = turn; fwait(ndone, n, 250000000); if (ndone == n && points == p && turn == tu) { if (++idle >= 2) { stuck = true; idle = 0; for (int k = 1; k <= nthr; k++) { int o = (tu + k) % nthr; if (TH[o].live && o != tu) { hand(o); break; } } } } else idle = 0; }
  traplib = nullptr; l.protect(PROT_READ | PROT_WRITE); turn = -1; if (stuck) { x.count("schedules-with-a-blocked-call"); for (int i = 0; i < nthr; i++) for (int k = 0; k < nthr; k++) if (i != k) blocked[{TH[i].op, TH[k].op}]++; }
  x.eval(trace.size()); x.count("schedules"); x.count("traces"); bool ok = true;
  for (int i = 0; i < nthr; i++) { const Bytes &w = alone(l, TH[i].op, TH[i].d); if (TH[i].env.on != w.size() || memcmp(TH[i].env.o, w.data(), w.size())) { x.fail("interference-" + OPS[TH[i].op].name, desc + ": call " + std::to_string(i) + " returns " + hex(TH[i].env.o, std::min<size_t>(w.size(), 64)) + " instead of " + hex(w.data(), std::min<size_t>(w.size(), 64))); ok = false; } }
  return ok;
}
static std::string names(const std::vector<Call> &c) { std::string s; for (auto &k : c) s += (s.empty() ? "" : " || ") + OPS[k.op].name + "/" + std::to_string(k.d); return s; }
// All schedules over the accesses to writable static memory, up to a preemption
// bound.  When at most one of the calls touches any, its accesses commute with
// everything and one schedule represents all.  An exploration is cut after a
// number of scheduling points (explorations-cut-at-the-cap); the schedules are
// taken in an order that spreads the preemption points evenly, so that a cut
// exploration has looked everywhere.
static void explore(Ctx &x, Lib &l, const std::vector<Call> &calls, int bound, u64 cap) {
  struct Node { std::vector<int> plan; int left; }; u64 runs = 0, touched = 0, work = 0; bool trunc = false; const u64 maxwork = cap * 100;
  for (auto &t : TH) t.target = t.target2 = ~0ull;
  std::vector<Node> cur{{{}, bound}}, later;   // fewest preemptions first
  while (!cur.empty()) {
    Node n = cur.back(); cur.pop_back(); if (runs >= cap || work >= maxwork) { trunc = true; break; }
    plan = n.plan; bool stuck; std::string d = names(calls) + " in " + l.name + ", schedule"; for (int p : plan) d += " " + std::to_string(p);
    if (!go(x, l, true, calls, d, stuck)) return; runs++; work += trace.size() + (stuck ? maxwork / 5 : 0); x.distinct(1); if (runs == 1 && !stuck) { int u = 0; for (size_t i = 0; i < calls.size(); i++) u += TH[i].touched; if (u < 2) { touched = trace.size(); if (u) x.count("explorations-with-one-call-touching-static-memory"); break; } } if (stuck) continue; touched = std::max<u64>(touched, trace.size());
    auto tr = trace; for (size_t k = n.plan.size(); k < tr.size(); k++) for (int a = 0; a < (int)calls.size(); a++) if (a != tr[k].chosen && (tr[k].live >> a & 1)) { int cost = tr[k].cur_live ? 1 : 0; if (cost > n.left) continue; std::vector<int> p; for (size_t q = 0; q < k; q++) p.push_back(tr[q].chosen); p.push_back(a); (cost ? later : cur).push_back({p, n.left - cost}); if (later.size() > 200000) { trunc = true; break; } }
    if (cur.empty()) { cur.swap(later); std::reverse(cur.begin(), cur.end()); if (cur.size() * touched > maxwork) { std::vector<Node> o; size_t m = cur.size(), step = m / 2 + 1; std::vector<bool> u(m); for (; step; step /= 2) for (size_t i = 0; i < m; i += step) if (!u[i]) u[i] = true, o.push_back(cur[i]); std::reverse(o.begin(), o.end()); cur.swap(o); } }
  }
  plan.clear(); if (trunc) x.count("explorations-cut-at-the-cap"); x.count("static-memory-accesses", touched - calls.size()); if (x.want_sample()) x.sample(names(calls) + " in " + l.name + ": " + std::to_string(runs) + " schedules");
}
int main(int argc, char **argv) {
  vf::Check c; c.property = "C22"; c.level = "model_checking"; c.states_mode = true; bool T = vf::thorough();
  const char *root = getenv("VERIF_ROOT"); std::string R = root ? root : "/verif", B = R + "/build/C22"; PL.name = "the project's build"; P0.name = "the clang -O0 build"; BL.name = "the block build";
  if (!PL.load(B + "/plain.so") || !P0.load(B + "/plain0.so") || !BL.load(B + "/blocks.so")) return 2;
  make_ops(); u64 no = OPS.size(); NB.assign(no * 3, 0); u64 tot = 0; for (u64 i = 0; i < no; i++) for (int d = 0; d < 3; d++) { NB[i * 3 + d] = blocks_alone(i, d); if (!d) tot += NB[i * 3]; }
  c.rule = "Calls run in real threads under a controlled scheduler; after every schedule each call's outputs must equal those it gives alone from the library's initial state (restored before each schedule). Transitions are scheduler decisions and context operations; states are distinct schedules (prefix, preemption points) or distinct interleavings by construction; every schedule executes the library itself.";
  c.assumptions = {"calls that touch no writable static memory of the library commute (their other memory is their stacks and their own arguments), so one schedule represents all of them", "interleavings inside one inline-assembly block are covered by the instruction-level exploration only"};
  c.sections.push_back({"static-memory", "every pair of " + std::to_string(no) + " operations (different data) in two builds, all schedules over accesses to writable static memory with at most " + (T ? "3" : "2") + " preemptions", no * no * 2, [=](Ctx &x, u64 i) { Dec d(i); u64 b = d(2), o = d(no), p = d(no); explore(x, b ? P0 : PL, {{(int)o, 0}, {(int)p, 1}}, T ? 3 : 2, T ? 20000 : 1500); }});
  c.sections.push_back({"three-calls", "three concurrent calls of every operation, and of neighbouring operations, likewise with at most 2 preemptions", no * 2, [=](Ctx &x, u64 i) { int o = i % no, q = i / no; explore(x, PL, {{o, 0}, {(int)((o + q) % no), 1}, {(int)((o + 2 * q) % no), 2}}, 2, T ? 20000 : 1500); }});
  const u64 SL = 64; 
  c.sections.push_back({"one-preemption", "each operation preempted at every one of its basic blocks (" + std::to_string(tot) + " in all) by a whole call of the same operation on other data", no * SL, [=](Ctx &x, u64 i) { int o = i / SL; u64 s = i % SL, n = NB[o * 3]; TH[1].target = TH[1].target2 = TH[0].target2 = ~0ull; plan = {0, 1, 0}; bool st; for (u64 k = 1 + s; k <= n; k += SL) { TH[0].target = k; x.distinct(1); if (!go(x, BL, false, {{o, 0}, {o, 1}}, OPS[o].name + " preempted at block " + std::to_string(k) + " of " + std::to_string(n), st)) break; if (trace.size() > 1) x.count("preempted"); } plan.clear(); if (x.want_sample()) x.sample(OPS[o].name + " at blocks " + std::to_string(1 + s) + ", " + std::to_string(1 + s + SL) + ", ... of " + std::to_string(n)); }});
  u64 PP = T ? 1024 : 96;
  c.sections.push_back({"one-preemption-pairs", "every ordered pair of operations, the first preempted by the second at " + std::to_string(PP) + " evenly spaced blocks", no * no, [=](Ctx &x, u64 i) { int o = i / no, p = i % no; u64 n = NB[o * 3]; TH[1].target = TH[1].target2 = TH[0].target2 = ~0ull; plan = {0, 1, 0}; bool st; u64 q = std::min(PP, n); for (u64 k = 0; k < q; k++) { TH[0].target = 1 + (k * n + (i % q) * n / q / q) / q; x.distinct(1); if (!go(x, BL, false, {{o, 0}, {p, 1}}, OPS[o].name + " preempted by " + OPS[p].name + " at block " + std::to_string(TH[0].target), st)) break; } plan.clear(); }});
  u64 G = T ? 160 : 40;
  c.sections.push_back({"two-preemptions", "two calls of one operation, the first preempted at i, the second at j, on a " + std::to_string(G) + "x" + std::to_string(G) + " grid of blocks; and three nested calls on the same grid", no * G, [=](Ctx &x, u64 i) { int o = i / G; u64 a = i % G, n0 = NB[o * 3], n1 = NB[o * 3 + 1]; bool st; TH[0].target2 = TH[1].target2 = TH[2].target = TH[2].target2 = ~0ull; for (u64 b = 0; b < G; b++) { TH[0].target = 1 + a * n0 / G; TH[1].target = 1 + b * n1 / G; std::string at = " at blocks " + std::to_string(TH[0].target) + " and " + std::to_string(TH[1].target); plan = {0, 1, 0, 1}; x.distinct(2); if (!go(x, BL, false, {{o, 0}, {o, 1}}, OPS[o].name + " twice, preempted" + at, st)) break; plan = {0, 1, 2, 1, 0}; if (!go(x, BL, false, {{o, 0}, {o, 1}, {o, 2}}, OPS[o].name + " three times, nested" + at, st)) break; } plan.clear(); }});
  // contexts: three operation sequences init, update, update, close interleaved in every way
  static std::vector<std::vector<int>> IL; { std::vector<int> v; u64 nn[3] = {0, 0, 0}; std::function<void()> rec = [&]() { if (v.size() == 12) { IL.push_back(v); return; } for (int k = 0; k < 3; k++) if (nn[k] < 4) { nn[k]++; v.push_back(k); rec(); v.pop_back(); nn[k]--; } }; rec(); }
  static const u64 PC[][2] = {{0, 0}, {1, 127}, {128, 1}, {100, 28}, {136, 136}, {200, 300}, {111, 1}, {72, 64}};
  u64 ILS = (IL.size() + 99) / 100;
  c.sections.push_back({"contexts", "three streaming contexts (SHA-512, SHA-384 and sponge, and three of one kind), each init, update, update, close: all " + std::to_string(IL.size()) + " interleavings x 8 choices of pieces x 5 combinations of kinds", ILS * 8 * 5, [=](Ctx &x, u64 i) {
    Dec d(i); u64 sl = d(ILS), pc = d(8), kc = d(5); static const int KC[5][3] = {{0, 0, 0}, {1, 1, 1}, {2, 2, 2}, {0, 1, 2}, {3, 2, 3}}; const int *kd = KC[kc];
    static std::map<std::tuple<int, int, u64>, Bytes> want; static const u8 *S = stream().data(); int dl[4] = {64, 48, 64, 32};
    auto w = [&](int kind, int t, u64 n) -> const Bytes & { Bytes &b = want[{kind, t, n}]; if (b.empty()) { b.resize(dl[kind]); const u8 *m = S + 1000 * t; if (kind == 0) ref::sha512(m, n, b.data()); else if (kind == 1) { u8 o[64]; ref::Sha512 s(true); s.add(m, n); s.fin(o); memcpy(b.data(), o, 48); } else ref::keccak(kind == 2 ? 136 : 136, kind == 2 ? 0x1f : 6, m, n, b.data(), dl[kind]); } return b; };
    for (u64 q = sl * 100; q < IL.size() && q < sl * 100 + 100; q++) { alignas(64) static u8 ctx[3][1024]; u64 pos[3] = {0, 0, 0}; int st[3] = {0, 0, 0}; u8 o[3][64]; memset(ctx, 0x77, sizeof ctx); x.about("contexts, interleaving %lu pieces %lu kinds %lu", q, pc, kc);
      for (int t : IL[q]) { u64 n = st[t] == 1 || st[t] == 2 ? PC[(pc + 3 * t) % 8][st[t] - 1] : 0; void *cx = ctx[t]; const u8 *m = S + 1000 * t + pos[t]; int k = kd[t];
        switch (st[t]++) { case 0: if (k == 0) PL.s5i(cx); else if (k == 1) PL.s3i(cx); else PL.Init_((hashState *)cx, 256); if (k == 2) PL.Init_((hashState *)cx, 256); break;
          case 1: case 2: if (k == 0) PL.s5(cx, m, n); else if (k == 1) PL.s3(cx, m, n); else PL.Update_((hashState *)cx, m, n * 8); pos[t] += n; break;
          case 3: if (k == 0) PL.s5c(cx, o[t]); else if (k == 1) PL.s3c(cx, o[t]); else if (k == 2) PL.Final2_((hashState *)cx, o[t], 64); else PL.Final_((hashState *)cx, o[t]); break; } x.eval(); }
      x.distinct(1); x.count("traces"); for (int t = 0; t < 3; t++) if (memcmp(o[t], w(kd[t], t, pos[t]).data(), dl[kd[t]])) { std::string s; for (int k : IL[q]) s += (char)('0' + k); x.fail("contexts", "interleaving " + s + " pieces " + std::to_string(pc) + " kinds " + std::to_string(kc) + " context " + std::to_string(t)); } } }});
  c.hang_s = 120;
  return vf::run(argc, argv, c);
}
