// C23: every operation on secrets, in builds of the library that report every
// basic block entered, every address accessed and every division operand.  For
// each operation and each public input the traces of all secrets of the
// alphabet must be the same.
#include <dlfcn.h>
#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>
#include "hash.h"
#define STR_(x) #x
#define STR(x) STR_(x)
using namespace faz::fp; using namespace faz::ecdh; using namespace faz::eddsa;
struct Lib { void *h = nullptr; u64 *log, *hash, *count; std::map<u64, std::string> fn; };
static Lib *lib(Ctx &x, const std::string &B, const std::string &cf) {
  static std::map<std::string, Lib> m; Lib &l = m[cf]; if (l.h) return &l;
  l.h = dlopen((B + "/ct/" + cf + "/libfaz.so").c_str(), RTLD_NOW | RTLD_LOCAL); if (!l.h) { x.fail("does-not-load", cf + ": " + dlerror()); return nullptr; }
  l.log = (u64 *)dlsym(l.h, "vf_log"); l.hash = (u64 *)dlsym(l.h, "vf_hash"); l.count = (u64 *)dlsym(l.h, "vf_count");
  if (FILE *f = fopen((B + "/ct/" + cf + "/names").c_str(), "r")) { u64 id; char n[300]; while (fscanf(f, "%lu %299s", &id, n) == 2) l.fn[id] = n; fclose(f); }
  return &l;
}
template <class F> static F sym(Lib *l, const char *n) { return (F)dlsym(l->h, n); }
// fixed memory for everything an operation can touch
static const size_t SS = 1 << 20;
static struct Arena { alignas(64) u8 stk[SS]; alignas(64) u8 a[4][2048], key[256], pk[256], sig[256], msg[8192], ctx[256], out[8192]; } *A;
static ucontext_t mainc, taskc; static std::function<void()> *body;
static void tramp() { (*body)(); }
static void go(std::function<void()> f) { memset(A->stk + SS - 65536, 0, 65536); body = &f; getcontext(&taskc); taskc.uc_stack.ss_sp = A->stk; taskc.uc_stack.ss_size = SS; taskc.uc_link = &mainc; makecontext(&taskc, tramp, 0); swapcontext(&mainc, &taskc); }
struct Tr { u64 h, n; bool operator==(const Tr &o) const { return h == o.h && n == o.n; } };
static Tr run(Lib *l, std::function<void()> f) { *l->hash = 1; *l->count = 0; *l->log = 0; go(f); return {*l->hash, *l->count}; }
static std::vector<u64> full(Lib *l, u64 n, std::function<void()> f) { size_t cap = (n + (1 << 16)) * 8 * 4; u64 *b = (u64 *)mmap(nullptr, cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); *l->log = (u64)b; *l->count = 0; go(f); std::vector<u64> v(b, b + *l->count); *l->log = 0; munmap(b, cap); return v; }
// one operation with its secrets: set(i) places secret i (and everything else)
// and says which public class the execution belongs to before (0 if any)
struct Op { std::string name; u64 ns; std::function<void(u64)> set; std::function<void(Lib *)> call; std::function<u64()> cls; std::function<std::string(u64)> show; };
static void judge(Ctx &x, Lib *l, const std::string &cf, const Op &o, u64 b, u64 e) {
  static std::map<std::string, std::map<u64, std::pair<Tr, u64>>> refs; auto &rf = refs[cf + o.name];
  auto one = [&](u64 i) -> bool { o.set(i); x.about("%s %s secret %lu", cf.c_str(), o.name.c_str(), i); auto f = [&] { o.call(l); }; Tr t = run(l, f); x.eval(); u64 k = o.cls ? o.cls() : 0; auto it = rf.find(k); if (it == rf.end()) { rf[k] = {t, i}; return true; } if (t == it->second.first) return true;
    u64 j = it->second.second; o.set(i); Tr t2 = run(l, f); o.set(j); Tr r2 = run(l, f); if (!(t2 == t) || !(r2 == it->second.first)) { x.count("not-reproducible"); x.fail("trace-not-reproducible-" + o.name, cf + " " + o.name + " secret " + o.show(i)); return false; }
    o.set(i); auto v = full(l, t.n, f); o.set(j); auto w = full(l, r2.n, f); size_t p = 0; while (p < v.size() && p < w.size() && v[p] == w[p]) p++; std::string at = "?"; for (size_t q = p; q-- > 0;) if (v[q] >> 48 == 0x7e57) { auto n = l->fn.find(v[q] & 0xffffffffffff); if (n != l->fn.end()) at = n->second; break; }
    bool ctl = p < v.size() && p < w.size() && (v[p] >> 48 == 0x7e57 || w[p] >> 48 == 0x7e57);
    x.fail((ctl ? "branch-" : "address-") + o.name, cf + " " + o.name + ": secret " + o.show(j) + " (trace of " + std::to_string(w.size()) + ") and secret " + o.show(i) + " (" + std::to_string(v.size()) + ") differ in " + (ctl ? "control flow" : "an address or operand") + " after " + std::to_string(p) + " events, in " + at); return false; };
  if (b == 0 || rf.empty()) { // this process has no reference yet: the first secrets of every public class
    for (u64 i = 0; i < std::min<u64>(o.ns, o.cls ? 12 : 1); i++) if (!one(i)) return; }
  for (u64 i = b; i < e && i < o.ns; i++) { if (!one(i)) return; x.distinct(1); }
  auto &r0 = rf.begin()->second; x.count("events", r0.first.n * (e - b)); if (x.want_sample()) x.sample(cf + " " + o.name + ": " + std::to_string(r0.first.n) + " events, same for secrets " + std::to_string(b) + ".." + std::to_string(e - 1));
}
static Bytes the_secret(u64 i, size_t n) {
  if (i == 0) return gen("c23", 0, n); if (i == 1) return Bytes(n, 0); if (i == 2) return Bytes(n, 255); if (i < 12) return gen("c23", i, n); i -= 12;
  if (i < 8 * n) { Bytes b(n, 0); b[i / 8] = 1 << i % 8; return b; } i -= 8 * n;
  if (i < 8 * n) { Bytes b(n, 255); b[i / 8] ^= 1 << i % 8; return b; } i -= 8 * n;
  if (i < 8 * n) { Bytes b = gen("c23", 0, n); b[i / 8] ^= 1 << i % 8; return b; } i -= 8 * n;
  if (i < 256) return Bytes(n, i); i -= 256;
  if (i < 8 * n) { Bytes b(n, 0); for (u64 k = 0; k <= i; k++) b[k / 8] |= 1 << k % 8; return b; } i -= 8 * n;
  if (i < 4 * n) { Bytes b = gen("c23z", i, n); for (u64 k = 0; k < n; k++) if (k / 4 == i / 16) b[k] = (const u8[]){0, 255, 0x80, 0x7f, 0x88, 0x77, 0x11, 0xf0, 0x0f, 1, 2, 4, 8, 0x10, 0xaa, 0x55}[i % 16]; return b; } i -= 4 * n;
  return gen("c23r", i, n);
}
// every byte value at every position (two bases), then all pairs of bits
static const bool BIG = vf::thorough();
static u64 n_wide(size_t n) { return 512 * n + (BIG ? 8 * n * (8 * n - 1) / 2 : 8 * n * 15); }
static Bytes wide(u64 i, size_t n) {
  if (i < 512 * n) { Bytes b = i & 1 ? Bytes(n, 0) : gen("c23", 0, n); i /= 2; b[i / 256] = i % 256; return b; } i -= 512 * n; Bytes b(n, 0); u64 p, q;
  if (BIG) { p = 1; while ((p + 1) * p / 2 <= i) p++; q = i - p * (p - 1) / 2; } else { p = i / 15; q = (p + 1 + i % 15) % (8 * n); }
  b[p / 8] |= 1 << p % 8; b[q / 8] |= 1 << q % 8; return b;
}
// field values: words of an element, patterns valid for every operation
static void fp_value(u64 i, u64 *w, bool is448, bool red, int lanes) {
  size_t nd = is448 ? (red ? 16 : 7) : (red ? 10 : 4); u64 mx = red ? (is448 ? (1u << 28) - 1 : (1u << 25) - 1) : ~0ull; size_t tot = red ? 128 : nd; 
  auto put = [&](size_t d, u64 v) { if (!red) { if (d < nd) w[d] = v; } else for (size_t k = d; k < tot; k += nd) w[k] = v; };
  memset(w, 0, 1024); (void)lanes; if (i == 0) { Bytes b = gen("c23f", 0, 1024); for (size_t k = 0; k < tot; k++) { memcpy(&w[k], &b[8 * k], 8); w[k] &= mx; } return; }
  if (i == 1) return; if (i == 2) { for (size_t k = 0; k < tot; k++) w[k] = mx; return; }
  if (i == 3) { put(0, 1); return; } if (i == 4) { for (size_t k = 0; k < tot; k++) w[k] = mx; put(0, red ? mx - 1 : is448 ? mx : ~18ull); if (!red && !is448) w[3] >>= 1; if (!red && is448) w[3] = 0xfffffffeffffffffull; return; } // about p
  if (i == 5) { fp_value(4, w, is448, red, lanes); w[0]--; return; } if (i == 6) { fp_value(4, w, is448, red, lanes); if (!red && !is448) w[0]++; return; } i -= 7;
  if (i < nd) { put(i, mx); return; } i -= nd; if (i < nd) { put(i, 1); return; } i -= nd; if (i < nd) { for (size_t k = 0; k < tot; k++) w[k] = mx; put(i, 0); return; } i -= nd;
  if (i < nd) { for (size_t k = i; k < nd; k++) put(k, mx); return; } i -= nd;
  Bytes b = gen("c23f", i + 1, 1024); for (size_t k = 0; k < tot; k++) { memcpy(&w[k], &b[8 * k], 8); w[k] &= mx; if (i & 1 && k % 3 == i % 3) w[k] &= 1; }
}
static u64 n_fp(bool is448, bool red) { return 7 + 4 * (is448 ? (red ? 16 : 7) : (red ? 10 : 4)); }
int main(int argc, char **argv) {
  vf::Check c; c.property = "C23"; c.level = "exploration"; bool T = vf::thorough();
  A = (Arena *)mmap(nullptr, sizeof(Arena), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  const char *root = getenv("VERIF_ROOT"); std::string R = root ? root : "/verif", B = R + "/build/C23";
  static std::vector<std::string> cfg; { char b[512]; FILE *h = fopen((B + "/configs").c_str(), "r"); while (h && fgets(b, 512, h)) { std::string s = b; while (!s.empty() && s.back() == '\n') s.pop_back(); if (!s.empty()) cfg.push_back(s); } if (h) fclose(h); }
  static std::vector<Op> ops;
  auto nstr = [](size_t n) -> u64 { return 12 + 8 * n * 4 + 256 + 4 * n; };
  auto dhsec = [=](u64 i, size_t n) { u64 m = nstr(n); return i < m ? the_secret(i, n) : wide(i - m, n); };
  auto shs = [](size_t n) { return [n](u64 i) { return hx(the_secret(i, n)); }; };
  auto dshs = [=](size_t n) { return [n, dhsec](u64 i) { return hx(dhsec(i, n)); }; };
  auto nsec = [=](size_t n) { return nstr(n) + (T ? 40000 : 6000); };
  static const struct { const char *n; bool is448; } V[] = {{"X25519", false}, {"X25519_x64", false}, {"X448", true}};
  for (auto &v : V) { size_t n = v.is448 ? 56 : 32; const char *vn = v.n; auto put = [n, dhsec](u64 i) { Bytes s = dhsec(i, n); memcpy(A->key, s.data(), n); memset(A->out, 0, 64); };
    ops.push_back({std::string(v.n) + "-keygen", nstr(n) + n_wide(n), put, [vn](Lib *l) { sym<const X_ECDH *>(l, vn)->keygen(A->out, A->key); }, nullptr, dshs(n)});
    for (int q = 0; q < 3; q++) ops.push_back({std::string(v.n) + "-shared-peer" + std::to_string(q), q ? nstr(n) : nstr(n) + n_wide(n), [=](u64 i) { put(i); Bytes p = gen("c23p", q, n); if (q == 1) { p.assign(n, 0); p[0] = 9; } if (q == 2) p.assign(n, 0); memcpy(A->pk, p.data(), n); }, [vn](Lib *l) { sym<const X_ECDH *>(l, vn)->shared(A->out, A->pk, A->key); }, nullptr, dshs(n)}); }
  for (int s = 0; s < 5; s++) { bool g = s > 2; size_t n = g ? 57 : 32; static const char *N[] = {"Ed25519", "Ed25519ctx", "Ed25519ph", "Ed448", "Ed448ph"};
    auto kg = [s, g](Lib *l) { if (g) { auto e = sym<const decltype(Ed448) *>(l, "Ed448"); return s == 3 ? e->PureContext.keygen(A->pk, A->key) : e->PreHash.keygen(A->pk, A->key); } auto e = sym<const decltype(Ed25519) *>(l, "Ed25519"); return s == 0 ? e->Pure.keygen(A->pk, A->key) : s == 1 ? e->Context.keygen(A->pk, A->key) : e->PreHash.keygen(A->pk, A->key); };
    ops.push_back({std::string(N[s]) + "-keygen", nsec(n), [n](u64 i) { Bytes b = the_secret(i, n); memcpy(A->key, b.data(), n); memset(A->pk, 0, 64); }, [kg](Lib *l) { kg(l); }, [n] { return (u64)(A->pk[n - 1] >> 7); }, shs(n)});
    static const u64 ML[] = {0, 1, 47, 200, 1000};
    for (int m = 0; m < (T ? 5 : 3); m++) { u64 ml = ML[T ? m : 2 * m]; ops.push_back({std::string(N[s]) + "-sign-" + std::to_string(ml), (T || m == 1) ? nsec(n) : nsec(n) / 4, [=](u64 i) { Bytes b = the_secret(i, n); memcpy(A->key, b.data(), n); Bytes p = gen("c23k", 0, n); memcpy(A->pk, p.data(), n); Bytes q = gen("c23m", 0, 8192); memcpy(A->msg, q.data(), 8192); memset(A->ctx, 7, 256); memset(A->sig, 0, 256); },
      [=](Lib *l) { u64 cl = s == 0 ? 0 : m * 20 + 1; if (g) { auto e = sym<const decltype(Ed448) *>(l, "Ed448"); s == 3 ? e->PureContext.sign(A->sig, A->msg, ml, A->ctx, cl, A->pk, A->key) : e->PreHash.sign(A->sig, A->msg, ml, A->ctx, cl, A->pk, A->key); } else { auto e = sym<const decltype(Ed25519) *>(l, "Ed25519"); s == 0 ? e->Pure.sign(A->sig, A->msg, ml, A->pk, A->key) : s == 1 ? e->Context.sign(A->sig, A->msg, ml, A->ctx, cl, A->pk, A->key) : e->PreHash.sign(A->sig, A->msg, ml, A->ctx, cl, A->pk, A->key); } }, [n] { return (u64)(A->sig[n - 1] >> 7); }, shs(n)}); } }
  // field operations: kind 1..4 = number of element arguments, all elements secret
  auto field = [&](bool f, const char *nm, int kind, bool red, std::function<void(const PrimeField *, u64 **)> call, std::function<bool(const PrimeField *)> has) { const char *pf = f ? "Fp448" : "Fp25519"; u64 nv = n_fp(f, red) + (T ? 200 : 20), first = kind == 1 ? nv : nv * nv;
    ops.push_back({std::string(pf) + "-" + nm, first, [=](u64 i) { for (int k = 0; k < 4; k++) fp_value(k < 2 ? 0 : k == 2 ? i % nv : kind == 1 ? i % nv : i / nv, (u64 *)A->a[k], f, red, 4); if (kind == 1) for (int k = 0; k < 2; k++) fp_value(i, (u64 *)A->a[k], f, red, 4); },
      [=](Lib *l) { auto p = sym<const PrimeField *>(l, pf); if (!has(p)) return; u64 *a[4] = {(u64 *)A->a[0], (u64 *)A->a[1], (u64 *)A->a[2], (u64 *)A->a[3]}; call(p, a); }, nullptr, [=](u64 i) { return "values " + std::to_string(i % nv) + "," + std::to_string(i / nv); }}); };
  typedef __m256i *M;
  for (int f = 0; f < 2; f++) {
#define U(tab, op, red, ty) field(f, #tab "-" #op, 1, red, [](const PrimeField *p, u64 **a) { p->tab.op((ty)a[0]); }, [](const PrimeField *p) { return !!p->tab.op; });
#define D2(tab, op, red, ty) field(f, #tab "-" #op, 1, red, [](const PrimeField *p, u64 **a) { p->tab.op((ty)a[0], (ty)a[1]); }, [](const PrimeField *p) { return !!p->tab.op; });
#define D3(tab, op, red, ty) field(f, #tab "-" #op, 2, red, [](const PrimeField *p, u64 **a) { p->tab.op((ty)a[0], (ty)a[2], (ty)a[3]); }, [](const PrimeField *p) { return !!p->tab.op; });
    D3(_1w_full, arith.add, 0, u64 *) D3(_1w_full, arith.sub, 0, u64 *) D3(_1w_full, arith.mul, 0, u64 *) U(_1w_full, arith.sqr, 0, u64 *) U(_1w_full, arith.neg, 0, u64 *) D2(_1w_full, arith.inv, 0, u64 *) U(_1w_full, arith.sgn, 0, u64 *) 
    D3(_1w_full, arithex.intmul, 0, u64 *) D2(_1w_full, arithex.intsqr, 0, u64 *) D2(_1w_full, arithex.mula24, 0, u64 *) D2(_1w_full, arithex.reduce, 0, u64 *) D2(_1w_full, arithex.reduce2, 0, u64 *) D3(_1w_full, arithex.intmul2, 0, u64 *) D2(_1w_full, arithex.intsqr2, 0, u64 *)
    field(f, "_1w_full-arith.cmv", 2, 0, [](const PrimeField *p, u64 **a) { p->_1w_full.arith.cmv(a[3][0] & 1, a[0], a[1], a[2]); }, [](const PrimeField *p) { return !!p->_1w_full.arith.cmv; });
    field(f, "_1w_full-misc.ser", 1, 0, [](const PrimeField *p, u64 **a) { p->_1w_full.arith.misc.ser((u8 *)a[0], a[1]); }, [](const PrimeField *p) { return !!p->_1w_full.arith.misc.ser; });
    field(f, "_1w_full-misc.unser", 1, 0, [](const PrimeField *p, u64 **a) { p->_1w_full.arith.misc.unser(a[0], (u8 *)a[1]); }, [](const PrimeField *p) { return !!p->_1w_full.arith.misc.unser; });
    D3(_1w_red, arith.add, 1, u64 *) D3(_1w_red, arith.sub, 1, u64 *) D3(_1w_red, arith.mul, 1, u64 *) U(_1w_red, arith.sqr, 1, u64 *) U(_1w_red, arith.neg, 1, u64 *) D2(_1w_red, arith.inv, 1, u64 *) U(_1w_red, arith.sgn, 1, u64 *)
    D3(_1w_red, arithex.intmul, 1, u64 *) D2(_1w_red, arithex.addsub, 1, u64 *) U(_1w_red, arithex.compress, 1, u64 *) U(_1w_red, arithex.compressfast, 1, u64 *)
    D3(_2w_red, arith.add, 1, M) D3(_2w_red, arith.sub, 1, M) D3(_2w_red, arith.mul, 1, M) U(_2w_red, arith.sqr, 1, M) U(_2w_red, arith.neg, 1, M) D2(_2w_red, arith.ngz, 1, M) U(_2w_red, arith.sgn, 1, M)
    D3(_2w_red, arithex.intmul, 1, M) U(_2w_red, arithex.intsqr, 1, M) D2(_2w_red, arithex.addsub, 1, M) U(_2w_red, arithex.compress, 1, M) U(_2w_red, arithex.compressfast, 1, M) D2(_2w_red, arithex.compress2, 1, M)
    D3(_4w_red, arith.add, 1, M) D3(_4w_red, arith.sub, 1, M) D3(_4w_red, arith.mul, 1, M) U(_4w_red, arith.sqr, 1, M) U(_4w_red, arith.neg, 1, M) D2(_4w_red, arith.ngz, 1, M) 
    D3(_4w_red, arithex.intmul, 1, M) U(_4w_red, arithex.intsqr, 1, M) D2(_4w_red, arithex.addsublar, 1, M) U(_4w_red, arithex.compress, 1, M) U(_4w_red, arithex.compressfast, 1, M) D2(_4w_red, arithex.compress2, 1, M)
  }
  for (auto &cf_ : cfg) for (u64 k = 0; k < ops.size(); k++) { std::string cf = cf_; if (cf.find("swap") != cf.npos && ops[k].name[0] != 'X') continue; u64 ch = ops[k].name[0] == 'F' ? 200 : 40, all = ops[k].ns; if (T && cf != "gcc-O3") all = std::min<u64>(all, all / 8 + 2500); /* the whole of it on the project's own build */ u64 n = (all + ch - 1) / ch;
    c.sections.push_back({cf + "-" + ops[k].name, "all secrets of the alphabet, operation " + ops[k].name + ", build " + cf, n, [=](Ctx &x, u64 i) { Lib *l = lib(x, B, cf); if (!l) return; judge(x, l, cf, ops[k], i * ch, std::min(all, (i + 1) * ch)); }}); }
  // hashing: secret contents, public lengths
  static const u64 HL[] = {0, 1, 55, 111, 112, 127, 128, 129, 135, 136, 137, 200, 1000};
  for (u64 ml : HL) for (int k = 0; k < 5; k++) { static const char *N[] = {"SHA-512", "SHAKE128", "SHAKE256", "SHA3-512", "SHA-512-2way"};
    ops.push_back({std::string(N[k]) + "-" + std::to_string(ml), T ? 4000u : 400u, [=](u64 i) { Bytes b = ml >= 8 ? the_secret(i, ml) : gen("c23h", i, 8); memcpy(A->msg, b.data(), ml); b = gen("c23h2", i, 8192); memcpy(A->out, b.data(), ml); }, [=](Lib *l) {
      if (k == 0) { struct { alignas(16) u8 b[1024]; } cx; auto hi = sym<void (*)(void *)>(l, STR(sph_sha512_init)); auto hu = sym<void (*)(void *, const void *, size_t)>(l, STR(sph_sha512)); auto hc = sym<void (*)(void *, void *)>(l, STR(sph_sha512_close)); if (!hi || !hu || !hc) return; hi(&cx); hu(&cx, A->msg, ml); hc(&cx, A->out + 4096); }
      else if (k < 3) { auto S = sym<HashReturn (*)(const BitSequence *, DataLength, BitSequence *, unsigned)>(l, k == 1 ? "SHAKE128" : "SHAKE256"); if (S) S(A->msg, 8 * ml, A->out + 4096, 300); }
      else if (k == 3) { auto H = sym<HashReturn (*)(int, const BitSequence *, DataLength, BitSequence *)>(l, "Hash"); if (H) H(512, A->msg, 8 * ml, A->out + 4096); }
      else { auto W = sym<void (*)(u8 **, size_t, u8 **)>(l, "sha512_2w_avx"); u8 *m[2] = {A->msg, A->out}, *o[2] = {A->out + 4096, A->out + 4160}; if (W) W(m, ml, o); } }, nullptr, [=](u64 i) { return "contents " + std::to_string(i); }}); }
  c.rule = "Every operation x public input (peers, messages, contexts, lengths) x secret of the alphabet (constant bytes, runs and single bits on three bases, every byte value at every position on two bases, pairs of bits, generic) is executed in builds of the library whose assembly has a probe at every basic block, memory access, string instruction and division; the traces (about 10^4..10^6 events each, all addresses absolute on fixed memory) must be identical for all secrets of one public input. Distinct by construction.";
  c.assumptions = {"executions are compared within one sign bit of the public point they output, so that code may depend on public outputs", "square roots and comparisons of field elements serve verification and may depend on their operands", "latencies of instructions other than divisions do not depend on operands", "C library memory functions are replaced by plain loops with probes"};
  if (cfg.empty()) { fprintf(stderr, "no configurations\n"); return 2; }
  return vf::run(argc, argv, c);
}
