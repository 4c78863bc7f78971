// C25: the random source under every bounded sequence of system call outcomes.
// The generator's object file is relinked (objcopy) so that its own system
// calls land in the injector below; everything else is the code as built.
// Each call asks the explorer for an outcome; the explorer enumerates every
// sequence of outcomes up to a depth, after which calls either succeed or repeat
// the last outcome.
#include <errno.h>
#include <fcntl.h>
#include <setjmp.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/uio.h>
#include <unistd.h>
#include "lib.h"
#include "faz_hash_avx2.h"
#include "prng.h"
using prng::prgn_random_bytes;

enum End { RETURNED, STOPPED, FOREVER };
struct World {
  std::vector<int> pick, arity; size_t pos = 0, depth = 0; bool repeat = false, nofault = false;
  u64 seed = 0, flip = ~0ull, off = 0, calls = 0;          // the source stream and how much of it was handed out
  std::set<int> open; std::vector<std::pair<u8 *, std::pair<u64, u64>>> deliv;   // (address, (stream offset, length))
  std::string log, bad; bool badpath = false; jmp_buf jb; u8 *lo = nullptr, *hi = nullptr; bool tracing = true; int last = 0; std::vector<FILE *> files;
  int choose(int k) {
    if (nofault) return 0;
    if (pos < depth) { if (pos == pick.size()) { pick.push_back(0); } if (arity.size() <= pos) arity.push_back(k); arity[pos] = k; int c = pick[pos++]; return last = (c < k ? c : k - 1); }
    return repeat ? std::min(last, k - 1) : 0;
  }
  void say(const char *f, ...) { if (!tracing || log.size() > 600) return; char b[128]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); log += b; }
};
static World *W;
static inline u8 src(const World &w, u64 o) { u64 x = (o >> 3) * 0x9E3779B97F4A7C15ull + w.seed; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 32; u8 b = x >> (8 * (o & 7)); return o == w.flip ? b ^ 1 : b; }
static void tick() { if (++W->calls > 3000) longjmp(W->jb, 2 + FOREVER); }

static int do_open(const char *path) {
  tick();
  if (strcmp(path, "/dev/urandom") && strcmp(path, "/dev/random")) { W->badpath = true; }
  static const int errs[] = {0, 0, EINTR, EMFILE, ENOENT, EACCES};
  int c = W->choose(6); W->say(" open=%s", c == 0 ? "fd" : c == 1 ? "fd0" : strerror(errs[c]));
  if (c >= 2) { errno = errs[c]; return -1; }
  int fd; static int null = open("/dev/null", O_RDONLY);
  if (c == 1 && !W->open.count(0)) { dup2(null, 0); fd = 0; } else fd = open("/dev/null", O_RDONLY);
  W->open.insert(fd); return fd;
}
static ssize_t deliver(u8 *b, size_t n) {
  if (W->lo && b >= W->lo - 4096 && b < W->hi + 4096) { if (b < W->lo || b + n > W->hi) { W->bad = "asks the source to write outside the caller's buffer"; longjmp(W->jb, 2 + STOPPED); } }
  for (size_t i = 0; i < n; ) {   // eight bytes at a time where possible
    b[i] = src(*W, W->off + i); i++;
  }
  W->deliv.push_back({b, {W->off, n}}); W->off += n; return n;
}
static ssize_t do_read(int fd, void *b, size_t n, bool rnd = false) {
  tick();
  if (!rnd && !W->open.count(fd)) { W->say(" read(bad fd)"); errno = EBADF; return -1; }
  if (n > 0x7ffff000) n = 0x7ffff000;
  // 0 all, 1 one byte, 2 half, 3 all but one, 4 EINTR, 5 EIO, 6 EAGAIN, 7 end of file
  int c = W->choose(8);
  if (c == 7 && rnd) c = 5;
  static const char *nm[] = {"all", "1", "half", "all-1", "EINTR", "EIO", "EAGAIN", "eof"}; W->say(" read(%zu)=%s", n, nm[c]);
  switch (c) {
    case 1: return deliver((u8 *)b, n ? 1 : 0);
    case 2: return deliver((u8 *)b, n / 2 ? n / 2 : n);
    case 3: return deliver((u8 *)b, n > 1 ? n - 1 : n);
    case 4: errno = EINTR; return -1;
    case 5: errno = EIO; return -1;
    case 6: errno = EAGAIN; return -1;
    case 7: return 0;
  }
  return deliver((u8 *)b, n);
}
extern "C" {
int vf_open(const char *p, int, ...) { return do_open(p); }
int vf_open64(const char *p, int, ...) { return do_open(p); }
int vf___open_2(const char *p, int) { return do_open(p); }
int vf___open64_2(const char *p, int) { return do_open(p); }
int vf_openat(int, const char *p, int, ...) { return do_open(p); }
int vf_openat64(int, const char *p, int, ...) { return do_open(p); }
int vf___openat_2(int, const char *p, int) { return do_open(p); }
int vf___openat64_2(int, const char *p, int) { return do_open(p); }
ssize_t vf_read(int fd, void *b, size_t n) { return do_read(fd, b, n); }
ssize_t vf___read_chk(int fd, void *b, size_t n, size_t) { return do_read(fd, b, n); }
ssize_t vf_pread(int fd, void *b, size_t n, off_t) { return do_read(fd, b, n); }
ssize_t vf_pread64(int fd, void *b, size_t n, off_t) { return do_read(fd, b, n); }
ssize_t vf_readv(int fd, const struct iovec *v, int k) { ssize_t t = 0; for (int i = 0; i < k; i++) { ssize_t r = do_read(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; } return t; }
ssize_t vf_getrandom(void *b, size_t n, unsigned) { return do_read(-1, b, n, true); }
int vf_getentropy(void *b, size_t n) { if (n > 256) { errno = EIO; return -1; } tick(); int c = W->choose(3); if (c) { errno = c == 1 ? ENOSYS : EIO; return -1; } deliver((u8 *)b, n); return 0; }
long vf_syscall(long k, ...) { va_list a; va_start(a, k); void *b = va_arg(a, void *); size_t n = va_arg(a, size_t); va_end(a); if (k == 318) return do_read(-1, b, n, true); errno = ENOSYS; return -1; }
int vf_close(int fd) {
  tick();
  if (!W->open.count(fd)) { W->say(" close(bad fd)"); if (fd >= 0) W->bad = "closes a descriptor it does not own"; errno = EBADF; return -1; }
  int c = W->choose(3); W->say(" close=%s", c == 0 ? "ok" : c == 1 ? "EIO" : "EINTR");
  W->open.erase(fd); if (fd) close(fd);       // Linux releases the descriptor whatever close reports
  if (c) { errno = c == 1 ? EIO : EINTR; return -1; }
  return 0;
}
static ssize_t ck_read(void *k, char *b, size_t n) { return do_read((int)(long)k, b, n); }
static int ck_close(void *k) { return vf_close((int)(long)k); }
FILE *vf_fopen(const char *p, const char *) { int fd = do_open(p); if (fd < 0) return nullptr; cookie_io_functions_t io = {ck_read, nullptr, nullptr, ck_close}; return fopencookie((void *)(long)fd, "r", io); }
FILE *vf_fopen64(const char *p, const char *m) { return vf_fopen(p, m); }
int vf_printf(const char *, ...) { return 0; }
int vf___printf_chk(int, const char *, ...) { return 0; }
int vf_puts(const char *) { return 0; }
int vf_putchar(int c) { return c; }
int vf_fprintf(FILE *, const char *, ...) { return 0; }
int vf___fprintf_chk(FILE *, int, const char *, ...) { return 0; }
size_t vf_fwrite(const void *, size_t, size_t n, FILE *) { return n; }
int vf_fputs(const char *, FILE *) { return 0; }
void vf_perror(const char *) {}
void vf_abort(void) { longjmp(W->jb, 2 + STOPPED); }
void vf_exit(int) { longjmp(W->jb, 2 + STOPPED); }
void vf__exit(int) { longjmp(W->jb, 2 + STOPPED); }
void vf__Exit(int) { longjmp(W->jb, 2 + STOPPED); }
void vf_quick_exit(int) { longjmp(W->jb, 2 + STOPPED); }
void vf___assert_fail(const char *, const char *, unsigned, const char *) { longjmp(W->jb, 2 + STOPPED); }
}

// explore all outcome sequences: fn runs the code once under w and judges it
template <class F> static void explore(Ctx &x, size_t depth, const std::vector<int> &prefix, F fn) {
  for (int rep = 0; rep < 2; rep++) {
    std::vector<int> pick = prefix;
    for (;;) {
      World w; w.pick = pick; w.depth = depth; w.repeat = rep; W = &w;
      fn(w); x.eval(); x.distinct(1);
      for (int fd : w.open) if (fd > 2) close(fd);
      w.pick.resize(w.pos); bool more = false;
      for (size_t i = 0; i < prefix.size() && i < w.pos; i++) if (prefix[i] >= w.arity[i]) return;   // no such outcome here
      if (prefix.size() > w.pos) { for (size_t i = w.pos; i < prefix.size(); i++) if (prefix[i]) return; }   // sequence over before: counted under prefix 0
      for (size_t i = w.pos; i-- > prefix.size();) if (w.pick[i] + 1 < w.arity[i]) { w.pick[i]++; w.pick.resize(i + 1); pick = w.pick; more = true; break; }
      if (!more) break;
    }
  }
}
static std::string str(const World &w, const std::string &what) { return what + ":" + w.log + (w.repeat ? " (last outcome repeats)" : ""); }

// one request for n bytes judged against the stream that was handed out
static void judge(Ctx &x, World &w, End e, u8 *buf, size_t n, const u8 *canary, size_t guard, const std::string &what) {
  (void)canary; std::string in = str(w, what);
  x.count(e == RETURNED ? "returned" : e == STOPPED ? "stopped-the-process" : "never-returned");
  for (size_t i = 1; i <= guard; i++) if (buf[-(long)i] != 0xC3 || buf[n + i - 1] != 0xC3) { x.fail("writes-outside", in); break; }
  if (!w.bad.empty()) x.fail("descriptor", w.bad + " " + in);
  if (e != RETURNED) return;
  if (!w.open.empty()) x.fail("descriptor-leak", in);
  if (w.badpath && n) x.fail("wrong-source", in);
  // every byte of the buffer comes from the source: delivered in place...
  bool inplace = true; static std::vector<u8> cov; cov.assign(n, 0);
  for (auto &d : w.deliv) for (u64 k = 0; k < d.second.second; k++) { u8 *q = d.first + k; if (q >= buf && q < buf + n) cov[q - buf] = *q == src(w, d.second.first + k) ? 1 : 2; }
  for (size_t i = 0; i < n; i++) if (cov[i] != 1) { inplace = false; break; }
  if (inplace) return;
  // ...or copied as one run of the stream
  for (u64 s = 0; s + n <= w.off; s++) { size_t k = 0; while (k < n && buf[k] == src(w, s + k)) k++; if (k == n) return; if (n > 100000) break; }
  x.fail("unfilled", in + ": returned normally but " + std::to_string(w.off) + " of " + std::to_string(n) + " bytes were delivered by the source");
}
static End guarded(World &w, const std::function<void()> &f) { int r = setjmp(w.jb); if (!r) { f(); return RETURNED; } return (End)(r - 2); }

struct Target { std::string name; size_t n; std::function<void(u8 *)> f; bool raw; u64 min; };
// fill the stack below the caller
__attribute__((noinline)) static void paint(int v) { volatile u8 b[32768]; for (size_t i = 0; i < sizeof b; i++) b[i] = v; }
static std::vector<Target> targets() {
  using namespace faz; std::vector<Target> t;
  auto key = [&](const char *nm, size_t n, void (*f)(u8 *)) { t.push_back({nm, n, [f](u8 *b) { f(b); }, true, n}); };
  key("X25519.randKey", 32, faz::ecdh::X25519.randKey); key("X25519_x64.randKey", 32, faz::ecdh::X25519_x64.randKey); key("X448.randKey", 56, faz::ecdh::X448.randKey);
  key("Ed25519.Pure.randKey", 32, faz::eddsa::Ed25519.Pure.randKey); key("Ed25519.PreHash.randKey", 32, faz::eddsa::Ed25519.PreHash.randKey); key("Ed25519.Context.randKey", 32, faz::eddsa::Ed25519.Context.randKey);
  key("Ed448.PureContext.randKey", 57, faz::eddsa::Ed448.PureContext.randKey); key("Ed448.PreHash.randKey", 57, faz::eddsa::Ed448.PreHash.randKey);
  auto fpt = [&](const char *nm, size_t n, std::function<void(u8 *)> f) { const char *w = strchr(nm, '_') + 1; t.push_back({nm, n, f, false, u64(*w - '0') * (strstr(nm, "448") ? 56 : 32)}); };
  using faz::fp::Fp25519; using faz::fp::Fp448;
  fpt("Fp25519._1w_full.rand", sizeof(faz::fp::EltFp25519_1w_fullradix), [](u8 *b) { Fp25519._1w_full.arith.misc.rand((uint64_t *)b); });
  fpt("Fp25519._1w_red.rand", sizeof(faz::fp::EltFp25519_1w_redradix), [](u8 *b) { Fp25519._1w_red.arith.misc.rand((uint64_t *)b); });
  fpt("Fp25519._2w_red.rand", 160, [](u8 *b) { Fp25519._2w_red.arith.misc.rand((__m256i *)b); });
  fpt("Fp25519._4w_red.rand", 320, [](u8 *b) { Fp25519._4w_red.arith.misc.rand((__m256i *)b); });
  fpt("Fp448._1w_full.rand", 56, [](u8 *b) { Fp448._1w_full.arith.misc.rand((uint64_t *)b); });
  fpt("Fp448._1w_red.rand", 128, [](u8 *b) { Fp448._1w_red.arith.misc.rand((uint64_t *)b); });
  fpt("Fp448._2w_red.rand", 256, [](u8 *b) { Fp448._2w_red.arith.misc.rand((__m256i *)b); });
  fpt("Fp448._4w_red.rand", 512, [](u8 *b) { Fp448._4w_red.arith.misc.rand((__m256i *)b); });
  return t;
}
int main(int argc, char **argv) {
  vf::Check c; c.property = "C25"; c.level = "fault_enumeration"; bool T = vf::thorough();
  // the generator may report failures on either stream: keep the workers' noise away from the check's own output
  size_t D = T ? 7 : 5;
  c.rule = "Depth-first enumeration of every sequence of outcomes of the first " + std::to_string(D) + " system calls of one request (open: ok, ok with descriptor 0, EINTR, EMFILE, ENOENT, EACCES; read: everything, one byte, half, all but one, EINTR, EIO, EAGAIN, end of file; close: ok, EIO, EINTR), after which every call succeeds or the last outcome repeats for ever; for every listed request size and for every function of the library that asks for random bytes. Sequences are distinct by construction; each has at least one call.";
  c.assumptions = {"the source is reached through open/openat/fopen + read/readv/pread, getrandom, getentropy or syscall(getrandom); stopping the process or never returning counts as not reporting success", "close releases the descriptor even when it fails (Linux)"};
  static const std::vector<size_t> N = T ? std::vector<size_t>{0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 31, 32, 33, 56, 57, 64, 114, 127, 128, 255, 256, 257, 511, 512, 1000, 4095, 4096, 4097} : std::vector<size_t>{0, 1, 2, 3, 4, 5, 8, 32, 33, 56, 57, 128, 256, 257, 1000};
  auto request = [](Ctx &x, size_t n, size_t depth, std::vector<int> pre) {
    static std::vector<u8> mem; const size_t G = 64; explore(x, depth, pre, [&](World &w) {
      mem.assign(n + 2 * G, 0xC3); u8 *b = mem.data() + G; w.lo = b; w.hi = b + n; x.about("random bytes n=%zu", n);
      u8 probe = src(w, 0); memset(b, probe ^ 0xff, n);
      End e = guarded(w, [&] { prgn_random_bytes(b, n); }); judge(x, w, e, b, n, nullptr, G, "n=" + std::to_string(n)); if (x.want_sample()) x.sample(str(w, "n=" + std::to_string(n)) + (e == RETURNED ? " -> filled" : e == STOPPED ? " -> process stopped" : " -> never returned")); }); };
  c.sections.push_back({"requests", std::to_string(N.size()) + " request sizes x all outcome sequences of depth " + std::to_string(D), N.size() * 48, [=](Ctx &x, u64 i) { request(x, N[i / 48], D, {(int)(i % 6), (int)(i / 6 % 8)}); }});
  c.sections.push_back({"deep-short-reads", "request sizes 0..12: all outcome sequences of depth " + std::to_string(D + 2), 13 * 48, [=](Ctx &x, u64 i) { request(x, i / 48, D + 2, {(int)(i % 6), (int)(i / 6 % 8)}); }});
  c.sections.push_back({"every-size", "every request size 0.." + std::to_string(T ? 5000 : 1200) + " and sizes around powers of two up to 2^" + std::to_string(T ? 24 : 21) + ": all outcome sequences of depth 2", (T ? 5001u : 1201u) + 3 * 18, [=](Ctx &x, u64 i) { u64 lim = T ? 5001 : 1201; size_t n = i; if (i >= lim) { u64 k = (i - lim) / 3 + 7, d = (i - lim) % 3; if (k > (T ? 24u : 21u)) return; n = (1ull << k) + d - 1; } request(x, n, i < lim ? 2 : 1, {}); }});
  c.sections.push_back({"huge", "requests beyond 2^31 and 2^32 bytes (the source delivers at most 0x7ffff000 bytes per call)", 2, [=](Ctx &x, u64 i) {
    size_t n = i ? (1ull << 32) + 77 : (1ull << 31) + 5; if (i && !T) return; static std::vector<u8> z; u8 *m = (u8 *)mmap(nullptr, n + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (m == MAP_FAILED) return; u8 *b = m + 4096;
    World w; w.nofault = true; W = &w; w.lo = b; w.hi = b + n; memset(b - 64, 0xC3, 64); memset(b + n, 0xC3, 64); x.about("random bytes n=%zu", n); End e = guarded(w, [&] { prgn_random_bytes(b, n); }); x.eval(); x.distinct(1);
    u64 tot = 0; for (auto &d : w.deliv) tot += d.second.second; bool ok = e != RETURNED || tot >= n; if (ok && e == RETURNED) for (size_t k = 0; k < n; k += 1) if (b[k] != src(w, k)) { ok = false; break; }
    if (!ok) x.fail("unfilled", "n=" + std::to_string(n)); if (!w.open.empty() && e == RETURNED) x.fail("descriptor-leak", "n=" + std::to_string(n)); for (int q = 0; q < 64; q++) if (b[n + q] != 0xC3) x.fail("writes-outside", "n=" + std::to_string(n)); munmap(m, n + 8192); }});
  static std::vector<Target> tg = targets();
  c.sections.push_back({"library-keys", std::to_string(tg.size()) + " functions of the library that take random bytes x all outcome sequences of depth " + std::to_string(D - 1) + ": a normal return has used the source's bytes, all of them", tg.size(), [=](Ctx &x, u64 i) {
    Target &t = tg[i]; const size_t G = 64; static u8 *mem = (u8 *)aligned_alloc(64, 1024); u8 *b = mem + G;
    auto clean = [&](u64 flip, u64 *used, u64 seed = 0) { World w; w.nofault = true; w.flip = flip; w.seed = seed; W = &w; memset(mem, 0xC3, 1024); End e = guarded(w, [&] { t.f(b); }); (void)e; if (used) *used = w.off; return Bytes(b, b + t.n); };
    u64 used = 0; Bytes base = clean(~0ull, &used); x.eval(); if (used == 0) { x.fail("no-randomness", t.name); return; } if (used < t.min) x.fail("key-not-random", t.name + " asks for " + std::to_string(used) + " bytes"); x.count("source-bytes-of-one-call", used);
    for (int v : {0x00, 0x5a, 0xff}) { World w; w.nofault = true; w.flip = ~0ull; W = &w; memset(mem, 0xC3, 1024); paint(v); guarded(w, [&] { t.f(b); }); x.eval(); if (Bytes(b, b + t.n) != base) x.fail("unfilled", t.name + ": differs with what memory held before"); }
    for (u64 k = 0; k < used; k++) { Bytes f = clean(k, nullptr); x.eval(); x.distinct(1); if (f == base) x.fail("byte-unused", t.name + " ignores source byte " + std::to_string(k)); }
    if (t.raw) for (size_t k = 0; k < t.n; k++) { bool ch = false; for (u64 s = 1; s <= 4 && !ch; s++) ch = clean(~0ull, nullptr, s * 0x1234567)[k] != base[k]; if (!ch) x.fail("key-byte-fixed", t.name + " byte " + std::to_string(k)); }
    explore(x, D - 1, {}, [&](World &w) { memset(mem, 0xC3, 1024); x.about("%s", t.name.c_str()); End e = guarded(w, [&] { t.f(b); }); x.count(e == RETURNED ? "returned" : e == STOPPED ? "stopped-the-process" : "never-returned");
      bool out = false; for (size_t k = 0; k < G; k++) out |= mem[k] != 0xC3 || b[t.n + k] != 0xC3; if (out) x.fail("writes-outside", str(w, t.name)); if (!w.bad.empty()) x.fail("descriptor", str(w, t.name));
      if (e == RETURNED) { if (!w.open.empty()) x.fail("descriptor-leak", str(w, t.name)); if (Bytes(b, b + t.n) != base) x.fail("unfilled", str(w, t.name) + ": differs from what the source delivered"); } }); }});
  // library messages about failures are not part of the check's output
  c.hang_s = 120;
  return vf::run(argc, argv, c);
}
