// C24: dead memory after Diffie-Hellman operations.  Every build configuration
// x operation x secret: the operation runs on a stack of its own, filled with a
// known byte before; afterwards the stack and the library's static data are
// searched for the clamped secret, whole or 16 bytes of it in a row, as it is
// and divided by the cofactor.
#include <dlfcn.h>
#include <link.h>
#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>
#include "lib.h"
using namespace faz::ecdh;
static const size_t SS = 512 << 10;
static u8 *stk; static ucontext_t mainc, taskc;
struct Task { const X_ECDH *f; int op; u8 *s, *u, *o; int r; } task;
static void tramp() { task.r = task.op ? task.f->shared(task.o, task.u, task.s) : task.f->keygen(task.o, task.s); }
// writable memory of the loaded library
struct Seg { const u8 *p; size_t n; };
static std::vector<Seg> segs(void *sym) {
  struct A { void *s; std::vector<Seg> v; } a{sym, {}};
  dl_iterate_phdr([](dl_phdr_info *i, size_t, void *d) { A *a = (A *)d; bool mine = false; for (int k = 0; k < i->dlpi_phnum; k++) { auto &h = i->dlpi_phdr[k]; const u8 *b = (u8 *)i->dlpi_addr + h.p_vaddr; if (h.p_type == PT_LOAD && (u8 *)a->s >= b && (u8 *)a->s < b + h.p_memsz) mine = true; }
    if (mine) for (int k = 0; k < i->dlpi_phnum; k++) { auto &h = i->dlpi_phdr[k]; if (h.p_type == PT_LOAD && (h.p_flags & PF_W)) a->v.push_back({(u8 *)i->dlpi_addr + h.p_vaddr, h.p_memsz}); }
    return 0; }, &a);
  std::vector<Seg> v; for (auto &s : a.v) { uintptr_t b = (uintptr_t)s.p & ~4095ul, e = ((uintptr_t)s.p + s.n + 4095) & ~4095ul; (void)b; (void)e; v.push_back(s); } return v;
}
static Bytes shr(const Bytes &c, int k) { Bytes r(c.size()); for (size_t i = 0; i < c.size(); i++) r[i] = c[i] >> k | (i + 1 < c.size() ? c[i + 1] << (8 - k) : 0); return r; }
// longest run of the pattern in the memory (runs below 16 bytes, or of few distinct bytes, do not count)
static const size_t RUN = 16;
static bool telling(const u8 *p) { std::set<u8> s(p, p + RUN); return s.size() >= 8; }
static size_t search(const u8 *m, size_t n, const Bytes &pat) {
  size_t best = 0; static std::vector<u8> first(65536); std::vector<size_t> ws; for (size_t w = 0; w + RUN <= pat.size(); w++) if (telling(&pat[w])) ws.push_back(w);
  for (size_t w : ws) first[pat[w] | pat[w + 1] << 8] = 1;
  for (size_t b = 0; b + RUN <= n; b++) if (first[m[b] | m[b + 1] << 8]) for (size_t w : ws) if (!memcmp(m + b, &pat[w], RUN)) { size_t l = RUN; while (w + l < pat.size() && b + l < n && m[b + l] == pat[w + l]) l++; best = std::max(best, l); }
  for (size_t w : ws) first[pat[w] | pat[w + 1] << 8] = 0; return best;
}
static Bytes the_secret(u64 i, size_t n) {
  Bytes b = gen("c24", i, n); switch (i) {
    case 0: for (size_t k = 0; k < n; k++) b[k] = k * 11 + 1; break;
    case 1: for (size_t k = 0; k < n; k++) b[k] = 255 - 7 * k; break;
    case 2: for (size_t k = 0; k < n / 2; k++) b[k] = 0; break;
    case 3: for (size_t k = n / 2; k < n; k++) b[k] = 0; break;
    case 4: for (size_t k = n / 2; k < n; k++) b[k] = 255; break;
    case 5: b[0] &= 0xf8; b[n - 1] = (b[n - 1] & 0x7f) | (n == 32 ? 0x40 : 0x80); break;
    case 6: b[0] |= 7; b[n - 1] |= 0x80; break; }
  return b; }
int main(int argc, char **argv) {
  vf::Check c; c.property = "C24"; c.level = "exploration"; bool T = vf::thorough();
  const char *root = getenv("VERIF_ROOT"); std::string R = root ? root : "/verif", B = R + "/build/C24";
  static std::vector<std::string> cfg; { char b[512]; FILE *h = fopen((B + "/configs").c_str(), "r"); while (h && fgets(b, 512, h)) { std::string s = b; while (!s.empty() && s.back() == '\n') s.pop_back(); if (!s.empty()) cfg.push_back(s); } if (h) fclose(h); }
  u64 ns = T ? 400 : 24, np = T ? 3 : 2;
  static const struct { const char *n; bool is448; } V[] = {{"X25519", false}, {"X25519_x64", false}, {"X448", true}};
  c.rule = "Every build configuration x {key generation, shared secret} of every variant x " + std::to_string(ns) + " secrets x " + std::to_string(np) + " peers is executed on a private, painted stack; afterwards every byte offset of the used stack and of the library's writable data is compared with the clamped secret and the clamped secret divided by the cofactor; 16 matching bytes in a row (of at least 8 distinct values) are a copy. Distinct by construction.";
  c.assumptions = {"copies in registers, in other representations (recoded digits) and fragments below 16 bytes, such as single spilled words, are outside the property", "secrets whose 16-byte windows are all low-entropy cannot be told from other data and are not used"};
  for (u64 ci = 0; ci < cfg.size(); ci++) { std::string cf = cfg[ci]; c.sections.push_back({cf, "all operations x secrets x peers on the build " + cf, 6 * ns, [=](Ctx &x, u64 i) {
    Dec d(i); auto &v = V[d(3)]; int op = d(2); u64 k = d(ns); size_t n = v.is448 ? 56 : 32;
    void *h = dlopen((B + "/cfg/" + cf + "/libfaz.so").c_str(), RTLD_NOW | RTLD_LOCAL); if (!h) { x.fail("does-not-load", cf + ": " + dlerror()); return; }
    task.f = (const X_ECDH *)dlsym(h, v.n); if (!task.f) { x.fail("does-not-load", cf + " has no " + v.n); return; } task.op = op;
    if (!stk) { stk = (u8 *)mmap(nullptr, SS + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(stk, 4096, PROT_NONE); stk += 4096; }
    Bytes sk = the_secret(k, n), cl = sk; if (v.is448) { cl[0] &= 0xfc; cl[55] |= 0x80; } else { cl[0] &= 0xf8; cl[31] = (cl[31] & 0x7f) | 0x40; }
    Bytes dv = shr(cl, v.is448 ? 2 : 3); auto ws = segs(dlsym(h, v.n)); if (ws.empty()) ws = segs((void *)task.f->keygen);
    for (u64 q = 0; q < (op ? np : 1); q++) {
      Buf s, u, o; memcpy(s.b, sk.data(), n); Bytes p = gen("c24p", q, n); if (q == 1) { p.assign(n, 0); p[0] = 9; } memcpy(u.b, p.data(), n); task.s = s; task.u = u; task.o = o;
      x.about("%s %s %s secret %lu", cf.c_str(), v.n, op ? "shared" : "keygen", k); memset(stk, 0xA5, SS);
      getcontext(&taskc); taskc.uc_stack.ss_sp = stk; taskc.uc_stack.ss_size = SS; taskc.uc_link = &mainc; makecontext(&taskc, tramp, 0); swapcontext(&mainc, &taskc); x.eval(); x.distinct(1);
      size_t low = 0; while (low < SS && stk[low] == 0xA5) low++; std::string in = cf + " " + v.n + (op ? " shared" : " keygen") + " secret=" + hx(sk);
      if (low < 4096) x.fail("stack", in + " used all of the stack");
      for (int w = 0; w < 2; w++) { const Bytes &pt = w ? dv : cl; size_t b = search(stk + low, SS - low, pt); std::string key = std::string(v.n) + (op ? "-shared" : "-keygen"); if (b) x.fail((w ? "scaled-secret-" : "clamped-secret-") + key, in + ": " + std::to_string(b) + " bytes of it remain on the stack"); for (auto &sg : ws) { b = search(sg.p, sg.n, pt); if (b) x.fail((w ? "scaled-secret-static-" : "clamped-secret-static-") + key, in + ": " + std::to_string(b) + " bytes of it remain in static memory"); } }
      x.count("stack-bytes", SS - low); x.count("static-segments", ws.size()); if (x.want_sample()) x.sample(in + ": " + std::to_string(SS - low) + " bytes of stack searched"); } }}); }
  if (cfg.empty()) { fprintf(stderr, "no configurations\n"); return 2; }
  return vf::run(argc, argv, c);
}
