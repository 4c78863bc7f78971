// C27: what the printing functions write is the value of the object.
#include <functional>
#include <sys/mman.h>
#include <unistd.h>
#include "field_vec.h"
#include "faz_hash_avx2.h"
using namespace faz::eddsa; using namespace faz::ecdh;

// one line "0x" + 2n lowercase hexadecimal digits: the little-endian bytes of it
static bool line(const std::string &s, size_t &at, size_t n, Bytes &out) {
  if (s.compare(at, 2, "0x")) return false;
  at += 2; out.assign(n, 0);
  for (size_t k = 0; k < 2 * n; k++, at++) {
    if (at >= s.size()) return false;
    char c = s[at]; int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; if (d < 0) return false;
    out[n - 1 - k / 2] |= k % 2 ? d : d << 4; }
  if (at >= s.size() || s[at] != '\n') return false;
  at++; return true;
}
static std::string printed(const std::function<void(FILE *)> &f) {
  static char mem[1 << 16]; FILE *o = fmemopen(mem, sizeof mem, "w"); f(o); long n = ftell(o); fclose(o); return std::string(mem, n < 0 ? 0 : n);
}
struct Bytesy { const char *name; size_t n; void (*f)(FILE *, uint8_t *); };
static std::vector<Bytesy> bytesy() {
  return {{"X25519.printKey", 32, X25519.printKey}, {"X25519_x64.printKey", 32, X25519_x64.printKey}, {"X448.printKey", 56, X448.printKey},
          {"Ed25519.Pure.printKey", 32, Ed25519.Pure.printKey}, {"Ed25519.PreHash.printKey", 32, Ed25519.PreHash.printKey}, {"Ed25519.Context.printKey", 32, Ed25519.Context.printKey},
          {"Ed448.PureContext.printKey", 57, Ed448.PureContext.printKey}, {"Ed448.PreHash.printKey", 57, Ed448.PreHash.printKey},
          {"Ed25519.Pure.printSignature", 64, Ed25519.Pure.printSignature}, {"Ed25519.PreHash.printSignature", 64, Ed25519.PreHash.printSignature}, {"Ed25519.Context.printSignature", 64, Ed25519.Context.printSignature},
          {"Ed448.PureContext.printSignature", 114, Ed448.PureContext.printSignature}, {"Ed448.PreHash.printSignature", 114, Ed448.PreHash.printSignature}};
}
static void one(Ctx &x, const Bytesy &b, const Bytes &v, unsigned off) {
  static u8 *mem = (u8 *)aligned_alloc(64, 512); u8 *p = mem + 64 + off; memset(mem, 0xC7, 512); memcpy(p, v.data(), b.n);
  x.about("%s(%s) at offset %u", b.name, hx(v).c_str(), off);
  std::string s = printed([&](FILE *o) { b.f(o, p); }); size_t at = 0; Bytes w; x.eval(); x.distinct(1);
  if (!line(s, at, b.n, w) || at != s.size() || w != v) x.fail("bytes", std::string(b.name) + "(" + hx(v) + ") offset " + std::to_string(off) + " printed " + s);
  for (unsigned i = 0; i < 512; i++) { u8 want = &mem[i] >= p && &mem[i] < p + b.n ? v[&mem[i] - p] : 0xC7; if (mem[i] != want) { x.fail("modifies", b.name + std::string("(") + hx(v) + ")"); break; } }
  if (x.want_sample()) x.sample(std::string(b.name) + " -> " + s.substr(0, s.size() - 1));
}
template <bool F448> struct Elems {
  VecCk<F448> *w[3]; std::vector<Dig> digs; typedef typename VecCk<F448>::E E; std::vector<E> full;
  static const int BY = VecCk<F448>::BY, N = VecCk<F448>::N;
  const char *fn = F448 ? "Fp448" : "Fp25519";
  const PrimeField &F() const { return F448 ? Fp448 : Fp25519; }
  Elems() {
    for (int i = 0; i < 3; i++) w[i] = new VecCk<F448>(1 << i);
    auto P = w[0]->patterns(false), V = w[0]->values(), H = w[0]->onehot(); digs = P; digs.insert(digs.end(), V.begin(), V.end()); digs.insert(digs.end(), H.begin(), H.end());
    std::set<E> s; const Curve &c = F448 ? c448() : c25519(); Z top = Z::pow2(8 * BY);
    auto put = [&](const Z &z) { if (z < Z(0) || z >= top) return; E e; e.fill(0); z.le_out((u8 *)e.data(), BY); s.insert(e); };
    for (int k = 0; k <= 2; k++) for (int i = -40; i <= 40; i++) put(c.p * Z(k) + Z(i));
    for (int i = 1; i < 40; i++) put(top - Z(i));
    for (int b = 0; b < BY; b++) for (int v = 0; v < 256; v++) { E e; e.fill(0); ((u8 *)e.data())[b] = v; s.insert(e); memset(e.data(), 0xff, BY); ((u8 *)e.data())[b] = v; s.insert(e); }
    for (u64 i = 0; i < 200; i++) { Bytes b = gen("print", i, BY); E e; memcpy(e.data(), b.data(), BY); s.insert(e); }
    full.assign(s.begin(), s.end()); }
  void one_full(Ctx &x, const E &e) const {
    alignas(64) u64 a[N + 8]; memset(a, 0xC7, sizeof a); memcpy(a, e.data(), BY); x.about("%s.full print %s", fn, hex(e.data(), BY).c_str());
    std::string s = printed([&](FILE *o) { F()._1w_full.arith.misc.print(o, a); }); size_t at = 0; Bytes b; x.eval(); x.distinct(1);
    E m = w[0]->mod(e.data(), N), g; bool ok = line(s, at, BY, b) && at == s.size(); if (ok) { memcpy(g.data(), b.data(), BY); ok = w[0]->mod(g.data(), N) == m; }
    if (!ok) x.fail(std::string("full-") + fn, hex(e.data(), BY) + " printed " + s);
    E after; memcpy(after.data(), a, BY); if (w[0]->mod(after.data(), N) != m) x.fail(std::string("modifies-full-") + fn, hex(e.data(), BY));
    if (x.want_sample()) x.sample(std::string(fn) + " " + s.substr(0, s.size() - 1)); }
  void one_vec(Ctx &x, int wi, const Dig *d, typename VecCk<F448>::Form f) const {
    const VecCk<F448> &c = *w[wi]; Vec v = c.form(c.load(d), f), before = v;
    x.about("%s.%s print form %d of %s", fn, c.name, (int)f, c.str(d[0]).c_str());
    std::string s = printed([&](FILE *o) { if (c.W == 1) F()._1w_red.arith.misc.print(o, v.s); else if (c.W == 2) F()._2w_red.arith.misc.print(o, (__m256i *)v.s); else F()._4w_red.arith.misc.print(o, (__m256i *)v.s); });
    size_t at = 0; Bytes b; x.eval(); x.distinct(1); bool ok = true;
    for (int l = 0; l < c.W && ok; l++) { ok = line(s, at, BY, b); if (ok) { E g; memcpy(g.data(), b.data(), BY); ok = c.mod(g.data(), N) == c.val(c.get(before, l)); } }
    if (!ok || at != s.size()) x.fail(std::string("vec-") + fn + "-" + c.name, "form " + std::to_string((int)f) + " of lanes " + c.str(d[0]) + " .. " + c.str(d[c.W - 1]) + " printed " + s);
    for (int l = 0; l < c.W; l++) if (c.val(c.get(v, l)) != c.val(c.get(before, l))) { x.fail(std::string("modifies-") + fn + "-" + c.name, c.str(d[l])); break; } }
};
// files, buffering, order; nothing on the standard streams
static void streams(Ctx &x, u64 i) {
  std::vector<Bytesy> B = bytesy(); const Bytesy &b = B[i % B.size()]; int mode = i / B.size();      // unbuffered, line, full, tiny buffer
  int fd = memfd_create("out", 0), so = memfd_create("so", 0), keep1 = dup(1), keep2 = dup(2); fflush(stdout); fflush(stderr); dup2(so, 1); dup2(so, 2);
  FILE *o = fdopen(fd, "w+"); static char buf[64]; setvbuf(o, mode == 3 ? buf : nullptr, mode == 0 ? _IONBF : mode == 1 ? _IOLBF : _IOFBF, mode == 3 ? 16 : 4096);
  std::vector<Bytes> v; fputs("before ", o); for (u64 k = 0; k < 40; k++) { v.push_back(gen("streams", k + 100 * i, b.n)); Bytes t = v.back(); b.f(o, t.data()); } fputs("after", o); fflush(o);
  fflush(stdout); fflush(stderr); dup2(keep1, 1); dup2(keep2, 2); close(keep1); close(keep2);
  std::string s(lseek(fd, 0, SEEK_END), 0); if (pread(fd, &s[0], s.size(), 0) < 0) s.clear(); off_t noise = lseek(so, 0, SEEK_END); close(so); bool closed = ferror(o) != 0; fclose(o);
  size_t at = 7; bool ok = !closed && s.compare(0, 7, "before ") == 0; Bytes w; for (auto &k : v) { ok = ok && line(s, at, b.n, w) && w == k; } ok = ok && s.substr(std::min(at, s.size())) == "after";
  x.eval(40); x.distinct(40); if (!ok) x.fail("stream", std::string(b.name) + " mode " + std::to_string(mode)); if (noise) x.fail("other-stream", std::string(b.name) + " writes to the standard streams");
}
int main(int argc, char **argv) {
  vf::Check c; c.property = "C27"; bool T = vf::thorough();
  c.rule = "Every printing function of the library over: for byte objects every byte position x every byte value x three backgrounds, every alignment, equal-byte and generic contents; for field elements the digit-pattern, single-digit, near-modulus and generic alphabets in every internal form and in every lane placement; for points all pairs of an alphabet of coordinates; streams in each buffering mode. The text is parsed back and compared with the object. Distinct by construction.";
  c.assumptions = {"field elements may be printed by any representative that fits the width; the byte objects by exactly their bytes"};
  static std::vector<Bytesy> B = bytesy();
  c.sections.push_back({"bytes", std::to_string(B.size()) + " key and signature printers x every byte position x 256 values x 3 backgrounds", B.size() * 114, [=](Ctx &x, u64 i) { const Bytesy &b = B[i / 114]; size_t k = i % 114; if (k >= b.n) return; for (int v = 0; v < 256; v++) for (int g = 0; g < 3; g++) { Bytes t = g == 2 ? gen("bg", 0, b.n) : Bytes(b.n, g ? 0xff : 0); t[k] = v; one(x, b, t, 0); } }});
  c.sections.push_back({"alignment", "every printer x 64 alignments x equal-byte contents (256) and 64 generic ones", B.size() * 64, [=](Ctx &x, u64 i) { const Bytesy &b = B[i / 64]; for (int v = 0; v < 256; v++) one(x, b, Bytes(b.n, v), i % 64); for (u64 g = 0; g < 64; g++) one(x, b, gen("al", g, b.n), i % 64); }});
  c.sections.push_back({"streams", "every printer x 4 buffering modes: 40 objects in a row between other text; the standard streams stay silent", B.size() * 4, streams});
  static Elems<false> A; static Elems<true> H;
  auto elems = [&](auto *e, std::string nm) {
    c.sections.push_back({"full" + nm, std::to_string(e->full.size()) + " words of the 64-bit representation", e->full.size(), [e](Ctx &x, u64 i) { e->one_full(x, e->full[i]); }});
    typedef typename std::remove_reference<decltype(*e->w[0])>::type VC;
    for (int wi = 0; wi < 3; wi++) c.sections.push_back({std::to_string(1 << wi) + "w" + nm, std::to_string(e->digs.size()) + " digit patterns x 5 internal forms, in each lane, the other lanes holding other patterns", e->digs.size(), [e, wi, T](Ctx &x, u64 i) {
      int W = 1 << wi; for (int f = 0; f < VC::NFORMS; f++) for (int r = 0; r < W; r++) for (u64 st = 1; st <= (T ? 40u : 6u); st++) { Dig d[4]; for (int l = 0; l < W; l++) d[(l + r) % W] = e->digs[(i + l * (97 * st + 1)) % e->digs.size()]; e->one_vec(x, wi, d, (typename VC::Form)f); if (W == 1) break; } }}); };
  elems(&A, "-25519"); elems(&H, "-448");
  c.sections.push_back({"points", "print_point over all pairs of an alphabet of coordinates", 200, [=](Ctx &x, u64 i) {
    for (u64 j = 0; j < 200; j++) { faz::hash::Point P; typedef Elems<false>::E E; E a = A.full[i * 79 % A.full.size()], b = A.full[j * 83 % A.full.size()]; memcpy(P.X, a.data(), 32); memcpy(P.Y, b.data(), 32);
      std::string s = printed([&](FILE *o) { faz::hash::print_point(o, &P); }); x.eval(); x.distinct(1); size_t at = 0; Bytes u, v; bool ok = s.compare(0, 3, "X: ") == 0; at = 3; ok = ok && line(s, at, 32, u) && s.compare(at, 3, "Y: ") == 0; at += 3; ok = ok && line(s, at, 32, v) && at == s.size();
      if (ok) { E g, h; memcpy(g.data(), u.data(), 32); memcpy(h.data(), v.data(), 32); ok = A.w[0]->mod(g.data(), 4) == A.w[0]->mod(a.data(), 4) && A.w[0]->mod(h.data(), 4) == A.w[0]->mod(b.data(), 4); }
      if (!ok) x.fail("point", "X=" + hex(a.data(), 32) + " Y=" + hex(b.data(), 32) + " printed " + s); } }});
  return vf::run(argc, argv, c);
}
