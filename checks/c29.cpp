// C29: every operation keeps the platform's calling convention, works from any
// state of the machine that the convention lets a caller leave, and releases
// what it acquires, also when memory cannot be allocated.
//  - each public function and exported symbol of each build is called through a
//    trampoline that sets all registers and flags the convention leaves open to
//    a chosen pattern and inspects all of those that belong to the caller after;
//    the outputs must be those of the plain state.
//  - the allocator is replaced: every sequence of successes and failures.
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <fenv.h>
#include <setjmp.h>
#include <signal.h>
#include <sys/mman.h>
#include <unistd.h>
#include <map>
#include "hash.h"
#include "faz_hash_avx2.h"
#include "prng.h"
using namespace faz;
#define NAME2(x) #x
#define NAME(x) NAME2(x)

// ---- the trampoline -----------------------------------------------------------
struct Abi {
  u64 fn, reg[6], nst, st[4];            // 0, 8, 56, 64
  u64 keep[6];                           // 96   rbx rbp r12-r15 at entry
  u64 junk;                              // 144  rax r10 r11
  u64 flags; unsigned mxcsr; unsigned short fcw, pad;   // 152, 160, 164
  u8 ymm[32], fill[32];                  // 168, 200
  u64 after[6], rax, rspoff, aflags; unsigned amxcsr; unsigned char env[28]; u8 ymmout[32];   // 232, 280, 288, 296, 304, 308, 336
  u64 guard;                             // 368  words above the arguments that changed
};
extern "C" { void vp_abi(Abi *); Abi *vp_cur; u64 vp_rsp; }
asm(R"(.text
.globl vp_abi
vp_abi:
  pushq %rbx
  pushq %rbp
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rdi,vp_cur(%rip)
  movq %rsp,vp_rsp(%rip)
  andq $-64,%rsp
  subq $512,%rsp
  movq %rdi,%r11
  movabsq $0x5ca1ab1e0ddba115,%rax
  xorl %ecx,%ecx
1: movq %rax,(%rsp,%rcx,8)
  incl %ecx
  cmpl $64,%ecx
  jb 1b
  xorl %ecx,%ecx
2: cmpq 56(%r11),%rcx
  jae 3f
  movq 64(%r11,%rcx,8),%rax
  movq %rax,(%rsp,%rcx,8)
  incq %rcx
  jmp 2b
3: ldmxcsr 160(%r11)
  fldcw 164(%r11)
  vmovdqu 200(%r11),%ymm1
  vmovdqa %ymm1,%ymm2
  vmovdqa %ymm1,%ymm3
  vmovdqa %ymm1,%ymm4
  vmovdqa %ymm1,%ymm5
  vmovdqa %ymm1,%ymm6
  vmovdqa %ymm1,%ymm7
  vmovdqa %ymm1,%ymm8
  vmovdqa %ymm1,%ymm9
  vmovdqa %ymm1,%ymm10
  vmovdqa %ymm1,%ymm11
  vmovdqa %ymm1,%ymm12
  vmovdqa %ymm1,%ymm13
  vmovdqa %ymm1,%ymm14
  vmovdqa %ymm1,%ymm15
  vmovdqu 168(%r11),%ymm0
  movq 96(%r11),%rbx
  movq 104(%r11),%rbp
  movq 112(%r11),%r12
  movq 120(%r11),%r13
  movq 128(%r11),%r14
  movq 136(%r11),%r15
  pushq 152(%r11)
  popfq
  movq 8(%r11),%rdi
  movq 16(%r11),%rsi
  movq 24(%r11),%rdx
  movq 32(%r11),%rcx
  movq 40(%r11),%r8
  movq 48(%r11),%r9
  movq 144(%r11),%rax
  movq %rax,%r10
  movq (%r11),%r11
  call *%r11
  movq vp_cur(%rip),%r11
  movq %rax,280(%r11)
  pushfq
  popq %rax
  movq %rax,296(%r11)
  cld
  movq %rbx,232(%r11)
  movq %rbp,240(%r11)
  movq %r12,248(%r11)
  movq %r13,256(%r11)
  movq %r14,264(%r11)
  movq %r15,272(%r11)
  vmovdqu %ymm0,336(%r11)
  stmxcsr 304(%r11)
  fnstenv 308(%r11)
  fninit
  vzeroupper
  movq vp_rsp(%rip),%rcx
  andq $-64,%rcx
  subq $512,%rcx
  subq %rsp,%rcx
  movq %rcx,288(%r11)
  addq %rcx,%rsp
  movabsq $0x5ca1ab1e0ddba115,%rax
  xorl %edx,%edx
  movq 56(%r11),%rcx
4: cmpl $64,%ecx
  jae 6f
  cmpq %rax,(%rsp,%rcx,8)
  je 5f
  incq %rdx
5: incl %ecx
  jmp 4b
6: movq %rdx,368(%r11)
  movl $0x1f80,-4(%rsp)
  ldmxcsr -4(%rsp)
  movq vp_rsp(%rip),%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbp
  popq %rbx
  ret
)");
static_assert(offsetof(Abi, junk) == 144 && offsetof(Abi, mxcsr) == 160 && offsetof(Abi, fill) == 200 && offsetof(Abi, amxcsr) == 304 && offsetof(Abi, env) == 308 && offsetof(Abi, ymmout) == 336 && offsetof(Abi, guard) == 368, "layout");

// ---- the allocator ------------------------------------------------------------
extern "C" { void *__libc_malloc(size_t); void __libc_free(void *); void *__libc_memalign(size_t, size_t); void *__libc_realloc(void *, size_t); void *__libc_calloc(size_t, size_t); }
static bool tracking; static std::vector<bool> afail; static unsigned nalloc; static void *livep[256]; static size_t liven; static int badfree;
static void note(void *p) { if (p && liven < 256) livep[liven++] = p; }
static bool refuse() { unsigned k = nalloc++; return k < afail.size() && afail[k]; }
extern "C" {
void *malloc(size_t n) { if (!tracking) return __libc_malloc(n); if (refuse()) { errno = ENOMEM; return nullptr; } void *p = __libc_malloc(n); note(p); return p; }
void *calloc(size_t a, size_t b) { if (!tracking) return __libc_calloc(a, b); if (refuse()) { errno = ENOMEM; return nullptr; } void *p = __libc_calloc(a, b); note(p); return p; }
void *memalign(size_t a, size_t n) { if (!tracking) return __libc_memalign(a, n); if (refuse()) { errno = ENOMEM; return nullptr; } void *p = __libc_memalign(a, n); note(p); return p; }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **r, size_t a, size_t n) { void *p = memalign(a, n); if (!p) return ENOMEM; *r = p; return 0; }
void free(void *p) { if (tracking && p) { size_t i = 0; while (i < liven && livep[i] != p) i++; if (i == liven) { badfree++; return; } livep[i] = livep[--liven]; } __libc_free(p); }
void *realloc(void *p, size_t n) { if (!tracking) return __libc_realloc(p, n); if (refuse()) { errno = ENOMEM; return nullptr; } if (p) { size_t i = 0; while (i < liven && livep[i] != p) i++; if (i == liven) { badfree++; return nullptr; } livep[i] = livep[--liven]; } void *q = __libc_realloc(p, n); note(q); return q; }
}

// ---- builds and operations ----------------------------------------------------
struct Lib { std::string name; void *h = nullptr; const ecdh::X_ECDH *x[3]; const eddsa::_struct_Ed255 *e25; const eddsa::_struct_Ed448 *e48; const fp::PrimeField *f[2];
  void *sym(const char *n) const { return dlsym(h, n); }
  bool load(const std::string &file) { h = dlopen(file.c_str(), RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "%s\n", dlerror()); return false; }
    static const char *n[] = {"X25519", "X25519_x64", "X448"}; for (int i = 0; i < 3; i++) x[i] = (const ecdh::X_ECDH *)sym(n[i]); e25 = (const eddsa::_struct_Ed255 *)sym("Ed25519"); e48 = (const eddsa::_struct_Ed448 *)sym("Ed448"); f[0] = (const fp::PrimeField *)sym("Fp25519"); f[1] = (const fp::PrimeField *)sym("Fp448");
    return x[0] && x[1] && x[2] && e25 && e48 && f[0] && f[1]; } };
static std::vector<Lib> LIBS;
static const int NB = 6; static const size_t BS = 4096;
struct alignas(64) Mem { u8 b[NB][BS]; };
static Mem &M = *(Mem *)mmap(nullptr, sizeof(Mem), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
static FILE *out; static size_t outn; static char outb[1 << 16];
// an argument: buffer i (its first n bytes count in the comparison), a 64-bit
// number, a 32-bit number (the upper half is junk), the stream
struct Arg { enum K { BUF, Q, D, FP } k; int i; u64 v; };
static Arg B(int i, u64 n) { return {Arg::BUF, i, n}; } static Arg Q(u64 v) { return {Arg::Q, 0, v}; } static Arg D(unsigned v) { return {Arg::D, 0, v}; } static Arg FS() { return {Arg::FP, 0, 0}; }
enum Ret { RV, RI, RY, RP };             // nothing, int, vector, pointer (an allocation)
enum Fill { BYTES, DIG };
struct Op { std::string name; std::function<void *(const Lib &)> fn; std::vector<Arg> a; Ret ret = RV; Fill fill = BYTES; std::function<void(const Lib &)> prep; int vec = -1; bool rnd = false; std::function<void *(const Lib &)> rel; };
static std::vector<Op> OPS;
static void fill(const Op &o, int d) {
  for (int i = 0; i < NB; i++) { Bytes g = gen(("c29" + std::to_string(i)).c_str(), d, BS); u64 *w = (u64 *)g.data();
    if (o.fill == DIG) for (size_t k = 0; k < BS / 8; k++) w[k] &= d == 1 ? 0 : (1u << 25) - 1; else if (d == 1) memset(w, 0xff, BS); else if (d == 2) memset(w, 0, BS); memcpy(M.b[i], w, BS); } }
template <class F> static std::function<void *(const Lib &)> at(F f) { return [f](const Lib &l) { return (void *)f(l); }; }
static std::function<void *(const Lib &)> sy(const char *n) { return [n](const Lib &l) { return l.sym(n); }; }
static void make_ops() {
  auto add = [&](std::string n, std::function<void *(const Lib &)> f, std::vector<Arg> a, Ret r = RV, Fill fl = BYTES) -> Op & { Op o; o.name = n; o.fn = f; o.a = a; o.ret = r; o.fill = fl; OPS.push_back(o); return OPS.back(); };
  for (int f = 0; f < 2; f++) { std::string p = f ? "Fp448" : "Fp25519"; u64 by = f ? 56 : 32, nd = f ? 16 : 10;
    #define E(nm, member, args, ret, fl) add(p + "." nm, at([f](const Lib &l) { return l.f[f]->member; }), std::vector<Arg> args, ret, fl)
    #define L(...) {__VA_ARGS__}
    #define COMMON(r, R, n, fl, al) \
      E(r ".mul", R.arith.mul, L(B(0, n), B(1, n), B(2, n)), RV, fl); E(r ".sqr", R.arith.sqr, L(B(0, n)), RV, fl); E(r ".add", R.arith.add, L(B(0, n), B(1, n), B(2, n)), RV, fl); E(r ".sub", R.arith.sub, L(B(0, n), B(1, n), B(2, n)), RV, fl); E(r ".neg", R.arith.neg, L(B(0, n)), RV, fl); \
      E(r ".ser", R.arith.misc.ser, L(B(0, al * by), B(1, 0)), RV, fl); E(r ".unser", R.arith.misc.unser, L(B(0, n), B(1, al * by)), RV, BYTES); E(r ".copy", R.arith.misc.copy, L(B(0, n), B(1, n)), RV, fl); E(r ".zero", R.arith.misc.zero, L(B(0, n)), RV, fl); E(r ".print", R.arith.misc.print, L(FS(), B(1, 0)), RV, fl); \
      E(r ".rand", R.arith.misc.rand, L(B(0, n)), RV, fl).rnd = true; { Op &o = E(r ".alloc", R.arith.misc.alloc, L(), RP, fl); o.rel = at([f](const Lib &l) { return l.f[f]->R.arith.misc.free; }); }
    #define ONE(r, R, n, fl) E(r ".cmp", R.arith.cmp, L(B(0, 0), B(1, 0)), RI, fl); E(r ".cmp-equal", R.arith.cmp, L(B(0, 0), B(0, 0)), RI, fl); for (int b = 0; b < 2; b++) E(r ".cmv", R.arith.cmv, L(D(b), B(0, n), B(1, n), B(2, n)), RV, fl); E(r ".inv", R.arith.inv, L(B(0, n), B(1, 0)), RV, fl); E(r ".sgn", R.arith.sgn, L(B(0, 0)), RI, fl); E(r ".srt", R.arith.srt, L(B(0, n), B(1, 0)), RV, fl); E(r ".prime", R.arith.prime, L(B(0, n)), RV, fl);
    COMMON("full", _1w_full, by, BYTES, 1) ONE("full", _1w_full, by, BYTES)
    E("full.intmul", _1w_full.arithex.intmul, L(B(0, 2 * by), B(1, by), B(2, by)), RV, BYTES); E("full.intmul2", _1w_full.arithex.intmul2, L(B(0, 4 * by), B(1, 2 * by), B(2, 2 * by)), RV, BYTES); E("full.intsqr", _1w_full.arithex.intsqr, L(B(0, 2 * by), B(1, by)), RV, BYTES); E("full.intsqr2", _1w_full.arithex.intsqr2, L(B(0, 4 * by), B(1, 2 * by)), RV, BYTES);
    E("full.mula24", _1w_full.arithex.mula24, L(B(0, by), B(1, by)), RV, BYTES); E("full.reduce", _1w_full.arithex.reduce, L(B(0, by), B(1, 0)), RV, BYTES); E("full.reduce2", _1w_full.arithex.reduce2, L(B(0, 2 * by), B(1, 0)), RV, BYTES);
    COMMON("1w", _1w_red, nd * 8, DIG, 1) ONE("1w", _1w_red, nd * 8, DIG)
    E("1w.addsub", _1w_red.arithex.addsub, L(B(0, nd * 8), B(1, nd * 8)), RV, DIG); E("1w.intmul", _1w_red.arithex.intmul, L(B(0, nd * 8), B(1, nd * 8), B(2, nd * 8)), RV, DIG); E("1w.compress", _1w_red.arithex.compress, L(B(0, nd * 8)), RV, DIG); E("1w.compressfast", _1w_red.arithex.compressfast, L(B(0, nd * 8)), RV, DIG);
    u64 n2 = nd * 16, n4 = nd * 32;
    COMMON("2w", _2w_red, n2, DIG, 2) E("2w.ngz", _2w_red.arith.ngz, L(B(0, n2), B(1, n2)), RV, DIG); E("2w.cmp", _2w_red.arith.cmp, L(B(0, 0), B(1, 0)), RY, DIG); E("2w.sgn", _2w_red.arith.sgn, L(B(0, 0)), RY, DIG); for (int b = 0; b < 3; b++) E("2w.cmv", _2w_red.arith.cmv, L(B(0, n2), B(1, n2), B(2, n2)), RV, DIG).vec = b;
    E("2w.addsub", _2w_red.arithex.addsub, L(B(0, n2), B(1, n2)), RV, DIG); E("2w.inter", _2w_red.arithex.inter, L(B(0, n2), B(1, 0), B(2, 0)), RV, DIG); E("2w.deinter", _2w_red.arithex.deinter, L(B(0, nd * 8), B(1, nd * 8), B(2, 0)), RV, DIG); E("2w.intmul", _2w_red.arithex.intmul, L(B(0, n2), B(1, n2), B(2, n2)), RV, DIG); E("2w.intsqr", _2w_red.arithex.intsqr, L(B(0, n2)), RV, DIG); E("2w.compress", _2w_red.arithex.compress, L(B(0, n2)), RV, DIG); E("2w.compress2", _2w_red.arithex.compress2, L(B(0, n2), B(1, n2)), RV, DIG); E("2w.compressfast", _2w_red.arithex.compressfast, L(B(0, n2)), RV, DIG);
    COMMON("4w", _4w_red, n4, DIG, 4) E("4w.ngz", _4w_red.arith.ngz, L(B(0, n4), B(1, n4)), RV, DIG); E("4w.cmp", _4w_red.arith.cmp, L(B(0, 0), B(1, 0)), RY, DIG); E("4w.srt", _4w_red.arith.srt, L(B(0, n4), B(1, 0)), RV, DIG);
    E("4w.addsub", _4w_red.arithex.addsub, L(B(0, n4), B(1, n4), B(2, n4), B(3, n4)), RV, DIG); E("4w.addsublar", _4w_red.arithex.addsublar, L(B(0, n4), B(1, n4)), RV, DIG); E("4w.intmul", _4w_red.arithex.intmul, L(B(0, n4), B(1, n4), B(2, n4)), RV, DIG); E("4w.intsqr", _4w_red.arithex.intsqr, L(B(0, n4)), RV, DIG); E("4w.compress", _4w_red.arithex.compress, L(B(0, n4)), RV, DIG); E("4w.compress2", _4w_red.arithex.compress2, L(B(0, n4), B(1, n4)), RV, DIG); E("4w.compressfast", _4w_red.arithex.compressfast, L(B(0, n4)), RV, DIG); E("4w.new_compressfast2", _4w_red.arithex.new_compressfast2, L(B(0, n4), B(1, n4)), RV, DIG);
    #undef E
  }
  static const char *XN[] = {"X25519", "X25519_x64", "X448"};
  for (int v = 0; v < 3; v++) { u64 k = v == 2 ? 56 : 32; std::string p = XN[v];
    #define E(nm, member, args, ret) add(p + "." nm, at([v](const Lib &l) { return l.x[v]->member; }), std::vector<Arg> args, ret)
    E("keygen", keygen, L(B(0, k), B(1, k)), RI); E("shared", shared, L(B(0, k), B(1, k), B(2, k)), RI); E("randKey", randKey, L(B(0, k)), RV).rnd = true; E("printKey", printKey, L(FS(), B(1, k)), RV); { Op &o = E("allocKey", allocKey, L(), RP); o.rel = at([v](const Lib &l) { return l.x[v]->freeKey; }); }
    #undef E
  }
  #define SCHEME(nm, S, k, CTX) { std::string p = nm; auto kg = [](const Lib &l) { l.S.keygen(M.b[4], M.b[5]); }; \
    for (u64 ml : {(u64)0, (u64)40, (u64)600}) { \
      add(p + ".sign", at([](const Lib &l) { return l.S.sign; }), CTX ? std::vector<Arg>{B(0, 2 * k), B(1, 600), Q(ml), B(2, 64), Q(ml / 20), B(4, k), B(5, k)} : std::vector<Arg>{B(0, 2 * k), B(1, 600), Q(ml), B(4, k), B(5, k)}, RI).prep = kg; \
      for (int bad = 0; bad < 2; bad++) add(p + ".verify", at([](const Lib &l) { return l.S.verify; }), CTX ? std::vector<Arg>{B(1, 600), Q(ml), B(2, 64), Q(ml / 20), B(4, k), B(0, 2 * k)} : std::vector<Arg>{B(1, 600), Q(ml), B(4, k), B(0, 2 * k)}, RI).prep = [=](const Lib &l) { kg(l); if (CTX) ((eddsa::SignCtx)l.S.sign)(M.b[0], M.b[1], ml, M.b[2], ml / 20, M.b[4], M.b[5]); else ((eddsa::Sign)l.S.sign)(M.b[0], M.b[1], ml, M.b[4], M.b[5]); if (bad) M.b[0][k + 3] ^= 1; }; } \
    if (CTX) { add(p + ".sign-long-context", at([](const Lib &l) { return l.S.sign; }), {B(0, 2 * k), B(1, 600), Q(10), B(2, 300), Q(256), B(4, k), B(5, k)}, RI).prep = kg; add(p + ".verify-long-context", at([](const Lib &l) { return l.S.verify; }), {B(1, 600), Q(10), B(2, 300), Q(256), B(4, k), B(0, 2 * k)}, RI).prep = kg; } \
    add(p + ".verify-bad-key", at([](const Lib &l) { return l.S.verify; }), CTX ? std::vector<Arg>{B(1, 600), Q(9), B(2, 64), Q(3), B(4, k), B(0, 2 * k)} : std::vector<Arg>{B(1, 600), Q(9), B(4, k), B(0, 2 * k)}, RI).prep = [](const Lib &) { memset(M.b[4], 0xff, 57); }; \
    add(p + ".keygen", at([](const Lib &l) { return l.S.keygen; }), {B(0, k), B(1, k)}, RI); add(p + ".randKey", at([](const Lib &l) { return l.S.randKey; }), {B(0, k)}).rnd = true; add(p + ".printKey", at([](const Lib &l) { return l.S.printKey; }), {FS(), B(1, k)}); add(p + ".printSignature", at([](const Lib &l) { return l.S.printSignature; }), {FS(), B(1, 2 * k)}); \
    add(p + ".allocKey", at([](const Lib &l) { return l.S.allocKey; }), {}, RP).rel = at([](const Lib &l) { return l.S.freeKey; }); add(p + ".allocSignature", at([](const Lib &l) { return l.S.allocSignature; }), {}, RP).rel = at([](const Lib &l) { return l.S.freeSignature; }); }
  SCHEME("Ed25519", e25->Pure, 32, false) SCHEME("Ed25519ph", e25->PreHash, 32, true) SCHEME("Ed25519ctx", e25->Context, 32, true) SCHEME("Ed448", e48->PureContext, 57, true) SCHEME("Ed448ph", e48->PreHash, 57, true)
  for (u64 n : {(u64)0, (u64)1, (u64)31, (u64)200, (u64)4000}) { add("h2c25519_x64", sy("h2c25519_x64"), {B(0, sizeof(hash::Point)), B(1, n), Q(n)}); add("h2c25519_avx2", sy("h2c25519_avx2"), {B(0, sizeof(hash::Point)), B(1, n), Q(n)}); add("hash_to_field", sy("hash_to_field"), {B(0, 32), D(n & 1), B(1, n), Q(n)}); add("hash_to_field_2w", sy("hash_to_field_2w"), {B(0, 32), B(2, 32), B(1, n), Q(n)}); }
  auto pt = [](const Lib &l) { if (auto h = (void (*)(void *, u8 *, size_t))l.sym("h2c25519_x64")) { u8 t[40]; memcpy(t, M.b[3], 40); h(M.b[0], t, 40); h(M.b[1], t, 39); } };
  add("isOnCurve", sy("isOnCurve"), {B(0, 0)}, RI); add("isOnCurve", sy("isOnCurve"), {B(0, 0)}, RI).prep = pt; add("areEqual", sy("areEqual"), {B(0, 0), B(1, 0)}, RI).prep = pt; add("areEqual", sy("areEqual"), {B(0, 0), B(0, 0)}, RI).prep = pt; add("print_point", sy("print_point"), {FS(), B(0, 0)}).prep = pt;
  add("map_to_curve", sy("map_to_curve"), {B(0, 128), B(1, 0)}); add("map_to_curve_2w", sy("map_to_curve_2w"), {B(0, 640), B(1, 0)}, RV, DIG); add("_1way_fulladd_1w_full", sy("_1way_fulladd_1w_full"), {B(0, 128), B(1, 128), B(2, 128)}); add("_1way_doubling_1w_full", sy("_1way_doubling_1w_full"), {B(0, 128)}); for (int t = 0; t < 2; t++) add("_2way_doubling", sy("_2way_doubling"), {B(0, 640), D(t)}, RV, DIG);
  add("intmul2_Fp255_2w_redradix", sy("intmul2_Fp255_2w_redradix"), {B(0, 160), B(1, 160), B(2, 0), B(3, 0)}, RV, DIG); OPS.back().a.push_back(B(4, 0)); OPS.back().a.push_back(B(5, 0));
  add("modular_reduction_ed25519", sy("modular_reduction_ed25519"), {B(0, 32)}); for (u64 n : {(u64)0, (u64)1, (u64)77}) add("spc_memset", sy("spc_memset"), {B(0, 128), D(0xa5), Q(n)}); for (u64 n : {(u64)0, (u64)1, (u64)300}) add("prgn_random_bytes", sy("prgn_random_bytes"), {B(0, n), Q(n)}).rnd = true;
  for (int v = 0; v < 2; v++) { const char *ini = v ? NAME(sph_sha384_init) : NAME(sph_sha512_init), *up = v ? NAME(sph_sha384) : NAME(sph_sha512), *cl = v ? NAME(sph_sha384_close) : NAME(sph_sha512_close), *ab = v ? NAME(sph_sha384_addbits_and_close) : NAME(sph_sha512_addbits_and_close); u64 dl = v ? 48 : 64;
    add(ini, sy(ini), {B(0, 208)}); for (u64 n : {(u64)0, (u64)5, (u64)128, (u64)700}) { auto pr = [=](const Lib &l) { ((void (*)(void *))l.sym(ini))(M.b[0]); ((void (*)(void *, const void *, size_t))l.sym(up))(M.b[0], M.b[3], 100 + n % 13); }; add(up, sy(up), {B(0, 208), B(1, n), Q(n)}).prep = pr; add(cl, sy(cl), {B(0, 0), B(1, dl)}).prep = pr; add(ab, sy(ab), {B(0, 0), D(0xe0), D(n % 8), B(1, dl)}).prep = pr; } }
  add("sph_sha384_comp", sy("sph_sha384_comp"), {B(0, 128), B(1, 64)});
  for (int bl : {224, 256, 384, 512}) { add("Init", sy("Init"), {B(0, 208), D(bl)}); auto pr = [=](const Lib &l) { ((int (*)(void *, int))l.sym("Init"))(M.b[0], bl); ((int (*)(void *, const void *, u64))l.sym("Update"))(M.b[0], M.b[3], 8 * 60); }; for (u64 n : {(u64)0, (u64)8, (u64)800, (u64)4096}) { add("Update", sy("Update"), {B(0, 208), B(1, n / 8), Q(n)}, RI).prep = pr; add("Hash", sy("Hash"), {D(bl), B(1, n / 8), Q(n), B(0, (u64)bl / 8)}, RI); } add("Final", sy("Final"), {B(0, 0), B(1, (u64)bl / 8)}, RI).prep = pr; add("Final2", sy("Final2"), {B(0, 0), B(1, 300), D(300)}, RI).prep = pr; }
  for (u64 n : {(u64)0, (u64)8, (u64)2400}) for (unsigned d : {0u, 1u, 400u}) { add("SHAKE128", sy("SHAKE128"), {B(1, 300), Q(n), B(0, d), D(d)}, RI); add("SHAKE256", sy("SHAKE256"), {B(1, 300), Q(n), B(0, d), D(d)}, RI); }
  auto two = [](const Lib &) { u8 *m[4] = {M.b[2], M.b[3], M.b[4], M.b[5]}; memcpy(M.b[0], m, 16); memcpy(M.b[1], m + 2, 16); };
  for (u64 n : {(u64)0, (u64)1, (u64)111, (u64)112, (u64)600}) { Op &o = add("sha512_2w_avx", sy("sha512_2w_avx"), {B(0, 0), Q(n), B(1, 0), B(4, 64), B(5, 64)}); o.prep = two; } { Op &o = add("sha512_2w_avx_256b", sy("sha512_2w_avx_256b"), {B(0, 0), B(1, 0), B(4, 64), B(5, 64)}); o.prep = two; }
}
// what a state of the machine looks like at entry
struct State { const char *name; u64 keep, junk, flags; unsigned mxcsr; unsigned short fcw; int fill; };
static const u64 FL = 0x202;
static const State ST[] = {{"plain", 0, 0, FL, 0x1f80, 0x37f, 0}, {"every open register and flag set", ~0ull, ~0ull, FL | 0x8d5, 0x1f80, 0x37f, 0xff}, {"carry set", 0x0123456789abcdefull, 0x5555555555555555ull, FL | 1, 0x1f80, 0x37f, 0x55}, {"overflow set", 0xfedcba9876543210ull, 0xaaaaaaaaaaaaaaaaull, FL | 0x800, 0x1f80, 0x37f, 0xaa}, {"rounding up, denormals as zero", 1ull << 63, 1, FL | 0x40, 0x1f80 | 0x4000 | 0x8040, 0xb7f, 0x80}, {"rounding to zero, single precision", 0x7ff0000000000001ull, 0x7ff8000000000000ull, FL | 0x90, 0x1f80 | 0x6000, 0xc7f, 0x7f}};
static const int NST = sizeof ST / sizeof *ST;
struct Out { Bytes b; u64 rax; bool operator==(const Out &o) const { return b == o.b && rax == o.rax; } };
static void setup(const Op &o, const Lib &l, int d) { fill(o, d); if (o.prep) o.prep(l); outn = 0; memset(outb, 0, 64); fseek(out, 0, SEEK_SET); fflush(out); }
static void args(const Op &o, const State &s, Abi &a) {
  memset(&a, 0, sizeof a); u64 *r[10]; for (int i = 0; i < 6; i++) { r[i] = &a.reg[i]; a.reg[i] = s.junk; } for (int i = 0; i < 4; i++) r[6 + i] = &a.st[i];
  size_t k = 0; for (auto &g : o.a) { if (k >= 10) break; *r[k++] = g.k == Arg::BUF ? (u64)M.b[g.i] : g.k == Arg::Q ? g.v : g.k == Arg::D ? (unsigned)g.v | (s.junk << 32) : (u64)out; }
  a.nst = k > 6 ? k - 6 : 0; for (int i = 0; i < 6; i++) a.keep[i] = s.keep ^ (s.keep ? (u64)i * 0x0101010101010101ull : 0); a.junk = s.junk; a.flags = s.flags; a.mxcsr = s.mxcsr; a.fcw = s.fcw; memset(a.fill, s.fill, 32); memcpy(a.ymm, a.fill, 32);
  if (o.vec >= 0) { u64 v[4] = {o.vec == 1 ? ~0ull : 0, 0, 0, 0}; v[1] = v[0]; v[2] = v[3] = o.vec ? ~0ull : 0; memcpy(a.ymm, v, 32); }
}
static Out collect(const Op &o, const Abi &a) {
  Out r; r.rax = o.ret == RI ? (unsigned)a.rax : 0; if (o.ret == RY) r.b.insert(r.b.end(), a.ymmout, a.ymmout + 32); fflush(out); 
  for (auto &g : o.a) if (g.k == Arg::BUF && !o.rnd) r.b.insert(r.b.end(), M.b[g.i], M.b[g.i] + g.v); else if (g.k == Arg::FP) r.b.insert(r.b.end(), outb, outb + outn); return r; }
static const char *KN[] = {"rbx", "rbp", "r12", "r13", "r14", "r15"};
static std::string where(const Op &o, const Lib &l) { std::string s = o.name + "("; for (auto &g : o.a) { if (s.back() != '(') s += ", "; s += g.k == Arg::BUF ? "buffer " + std::to_string(g.i) : g.k == Arg::FP ? "stream" : std::to_string(g.v); } return s + ") in " + l.name; }
static u64 fds() { u64 m = 0; for (int i = 0; i < 64; i++) if (fcntl(i, F_GETFD) >= 0) m |= 1ull << i; return m; }
static void conv(Ctx &x, const Op &o, const Lib &l, int d) {
  void *fn = o.fn(l); if (!fn) { x.count("not-offered"); return; } Out base; u64 f0 = fds(); sigset_t m0, m1; sigprocmask(SIG_SETMASK, nullptr, &m0);
  for (int si = 0; si < NST; si++) { const State &s = ST[si]; Abi a; setup(o, l, d); args(o, s, a); a.fn = (u64)fn; std::string in = where(o, l) + ", data " + std::to_string(d) + ", entered with " + s.name; x.about("%s", in.c_str());
    nalloc = 0; liven = 0; badfree = 0; afail.clear(); tracking = true; vp_abi(&a); tracking = false; x.eval(); x.distinct(1);
    for (int k = 0; k < 6; k++) if (a.after[k] != a.keep[k]) x.fail(std::string("register-") + KN[k] + "-" + o.name, in + ": " + KN[k] + " " + hex(&a.keep[k], 8) + " -> " + hex(&a.after[k], 8));
    if (a.rspoff) x.fail("stack-pointer-" + o.name, in); if (a.guard) x.fail("callers-frame-" + o.name, in + ": " + std::to_string(a.guard) + " words of the caller's frame changed"); if (a.aflags & 0x400) x.fail("direction-flag-" + o.name, in);
    if ((a.amxcsr & 0xffc0) != (s.mxcsr & 0xffc0)) x.fail("mxcsr-" + o.name, in); unsigned short cw, tw; memcpy(&cw, a.env, 2); memcpy(&tw, a.env + 8, 2); if ((cw & 0xf3f) != (s.fcw & 0xf3f)) x.fail("x87-control-" + o.name, in); if (tw != 0xffff) x.fail("x87-stack-" + o.name, in);
    void *p = o.ret == RP ? (void *)a.rax : nullptr; if (badfree) x.fail("bad-free-" + o.name, in); size_t want = p ? 1 : 0;
    if (liven != want) x.fail("leak-" + o.name, in + ": " + std::to_string(liven) + " blocks of memory are not released");
    if (o.ret == RP && !p) x.fail("no-memory-" + o.name, in);
    if (p) { memset(p, 0x77, 16); Abi r; args(o, s, r); r.reg[0] = (u64)p; r.fn = (u64)o.rel(l); tracking = true; vp_abi(&r); tracking = false; if (liven || badfree) x.fail("leak-" + o.name, in + ": its counterpart does not release it"); for (int k = 0; k < 6; k++) if (r.after[k] != r.keep[k]) x.fail(std::string("register-") + KN[k] + "-free", in); args(o, s, r); r.reg[0] = 0; r.fn = (u64)o.rel(l); tracking = true; vp_abi(&r); tracking = false; x.eval(2); if (badfree) x.fail("free-null-" + o.name, in); while (liven) __libc_free(livep[--liven]); }
    liven = 0; Out r = collect(o, a); if (!si) base = r; else if (!(r == base)) x.fail("result-depends-on-machine-state-" + o.name, in);
    if (fds() != f0) { x.fail("descriptor-" + o.name, in); f0 = fds(); } sigprocmask(SIG_SETMASK, nullptr, &m1); if (memcmp(&m0, &m1, 8)) x.fail("signal-mask-" + o.name, in); }
  if (x.want_sample()) x.sample(where(o, l) + ": " + std::to_string(NST) + " entry states");
}
static sigjmp_buf jb; static volatile bool guarded;
static void onsig(int s) { if (!guarded) { signal(s, SIG_DFL); raise(s); return; } siglongjmp(jb, 1); }
// every sequence of answers of the allocator
static void memory(Ctx &x, const Op &o, const Lib &l, int d, unsigned depth) {
  void *fn = o.fn(l); if (!fn || o.rnd) return; static u8 alt[1 << 16]; stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
  struct sigaction sa{}, o1, o2, o3; sa.sa_handler = onsig; sa.sa_flags = SA_ONSTACK | SA_NODEFER; sigaction(SIGSEGV, &sa, &o1); sigaction(SIGBUS, &sa, &o2); sigaction(SIGABRT, &sa, &o3);
  Out base; bool have = false; std::vector<std::vector<bool>> todo{{}};
  while (!todo.empty()) { std::vector<bool> p = todo.back(); todo.pop_back(); Abi a; setup(o, l, d); args(o, ST[0], a); a.fn = (u64)fn; std::string in = where(o, l) + ", allocations answered"; for (bool b : p) in += b ? " refused" : " granted"; x.about("%s", in.c_str());
    nalloc = 0; liven = 0; badfree = 0; afail = p; bool stopped = sigsetjmp(jb, 1); if (!stopped) { guarded = true; tracking = true; vp_abi(&a); } tracking = false; guarded = false; x.eval(); x.distinct(1); bool any = false; for (bool b : p) any |= b;
    if (stopped) { x.count("stopped-the-process"); if (!any) x.fail("crash-" + o.name, in); __asm__ volatile("cld"); fesetenv(FE_DFL_ENV); }
    else { if (badfree) x.fail("bad-free-" + o.name, in); void *q = o.ret == RP ? (void *)a.rax : nullptr; if (liven != (q ? 1u : 0u)) x.fail("leak-" + o.name, in + ": " + std::to_string(liven) + " blocks are not released");
      Out r = collect(o, a); if (!have) base = r, have = true; else if (o.ret != RP && !(r == base)) x.fail("wrong-result-without-memory-" + o.name, in); x.count(any ? "returned-although-refused" : "returned"); }
    while (liven) __libc_free(livep[--liven]);
    for (unsigned k = p.size(); k < nalloc && k < depth; k++) { std::vector<bool> q = p; q.resize(k, false); q.push_back(true); todo.push_back(q); } if (nalloc) x.count("allocations", nalloc); }
  afail.clear(); sigaction(SIGSEGV, &o1, nullptr); sigaction(SIGBUS, &o2, nullptr); sigaction(SIGABRT, &o3, nullptr);
}
static ssize_t sink(void *, const char *b, size_t n) { size_t k = std::min(n, sizeof outb - outn); memcpy(outb + outn, b, k); outn += k; return n; }
int main(int argc, char **argv) {
  vf::Check c; c.property = "C29"; c.level = "fault_enumeration"; bool T = vf::thorough();
  const char *root = getenv("VERIF_ROOT"); std::string BD = std::string(root ? root : "/verif") + "/build/C29"; FILE *f = fopen((BD + "/configs").c_str(), "r"); char n[100]; while (f && fscanf(f, "%99s", n) == 1) { Lib l; l.name = n; if (!l.load(BD + "/cfg/" + n + "/libfaz.so")) return 2; LIBS.push_back(l); } if (f) fclose(f); if (LIBS.empty()) return 2;
  cookie_io_functions_t io{}; io.write = sink; io.seek = [](void *, off64_t *o, int) { *o = 0; return 0; }; out = fopencookie(nullptr, "w", io); static char ob[1 << 16]; setvbuf(out, ob, _IOFBF, sizeof ob); fprintf(out, "%02x\n", 7); fflush(out);
  make_ops(); u64 no = OPS.size(), nl = LIBS.size(); int nd = T ? 8 : 4;
  c.rule = "A case is (build, operation with its arguments, data set, state of the machine at entry) or (build, operation, sequence of answers of the allocator). Distinct by construction; each executes the library. The entry states set every register, flag and control word that the calling convention leaves to the caller, also the upper halves of 32-bit arguments.";
  c.assumptions = {"the System V x86-64 calling convention", "stopping the process is an allowed answer to refused memory; returning a wrong result is not"};
  c.sections.push_back({"convention", std::to_string(nl) + " builds x " + std::to_string(no) + " calls x " + std::to_string(nd) + " data sets x " + std::to_string(NST) + " entry states: registers, stack, flags, floating-point control, memory, descriptors and signal mask after, results equal", no * nl * nd, [=](Ctx &x, u64 i) { Dec d(i); u64 l = d(nl), o = d(no), k = d(nd); conv(x, OPS[o], LIBS[l], k); }});
  c.sections.push_back({"memory", std::to_string(nl) + " builds x " + std::to_string(no) + " calls x every sequence of granted and refused allocations up to depth " + std::to_string(T ? 8 : 5), no * nl, [=](Ctx &x, u64 i) { memory(x, OPS[i % no], LIBS[i / no], 0, T ? 8 : 5); }});
  return vf::run(argc, argv, c);
}
