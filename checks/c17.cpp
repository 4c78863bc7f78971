// C17: the SHA-3/SHAKE sponge as a transition system (context image; absorb k
// bytes; finish with an output length) against the FIPS 202 model.
#include "hash.h"
struct Alg { const char *name; int init; unsigned rate; u8 suffix; unsigned dlen; };   // dlen 0: extendable
static const Alg ALG[] = {{"SHA3-224", 224, 144, 6, 28}, {"SHA3-256", 256, 136, 6, 32}, {"SHA3-384", 384, 104, 6, 48}, {"SHA3-512", 512, 72, 6, 64}, {"SHAKE128", 128, 168, 0x1f, 0}, {"SHAKE256", 256, 136, 0x1f, 0}};
static const u64 NA = 6, MAXN = 2600, MAXD = 800;
static std::vector<u8> W[6];   // expected outputs of the stream prefix, D bytes each
static u64 dl(const Alg &a) { return a.dlen ? a.dlen : 200; }
static void models(u64 n) { for (u64 q = 0; q < NA; q++) { W[q].resize((n + 1) * 200); for (u64 i = 0; i <= n; i++) ref::keccak(ALG[q].rate, ALG[q].suffix, stream().data(), i, &W[q][i * 200], dl(ALG[q])); } }
static bool fin(Ctx &x, const Alg &a, hashState s, u64 d, const u8 *want, const char *key, const std::string &in) {
  static u8 o[MAXD + 400]; memset(o, 0xEE, d + 200); int r = a.dlen ? Final(&s, o + 3) : Final2(&s, o + 3, d); x.eval(); std::string k = std::string(key) + "-" + a.name;
  for (u64 i = d + 3; i < d + 200; i++) if (o[i] != 0xEE) { x.fail(std::string("overwrites-") + a.name, in + " output length " + std::to_string(d) + " wrote at offset " + std::to_string(i - 3)); return false; }
  for (int i = 0; i < 3; i++) if (o[i] != 0xEE) { x.fail(std::string("overwrites-") + a.name, in); return false; }
  if (r != SUCCESS || memcmp(o + 3, want, d)) { x.fail(k, in + " output " + std::to_string(d) + " -> " + hex(o + 3, d > 64 ? 64 : d) + " expected " + hex(want, d > 64 ? 64 : d)); return false; } return true; }
static std::vector<u64> ops(const Alg &a) { std::vector<u64> v = {0, 1, 2, 3, 7, 8, 9, 15, 16, 31, 32, 57, 64, 114}; for (u64 b : {(u64)a.rate, 2 * (u64)a.rate, 3 * (u64)a.rate}) for (long e : {-9, -8, -7, -2, -1, 0, 1, 2, 7, 8, 9}) v.push_back(b + e); return v; }
struct Search { Ctx &x; const Alg &a; u64 ai; std::vector<u64> op; u64 maxlen; std::vector<std::map<u64, int>> vis; std::vector<u64> path;
  void go(const hashState &s, u64 n, int left) { u64 h = vf::hash_bytes(&s, sizeof s, ai); auto &v = vis[n]; auto it = v.find(h); if (it != v.end() && it->second >= left) return; if (it == v.end()) x.seen(h); v[h] = left;
    std::string in; for (u64 k : path) in += " " + std::to_string(k); x.about("%s: absorb%s", a.name, in.c_str()); if (!fin(x, a, s, dl(a), &W[ai][n * 200], "pieces", "pieces" + in)) return; x.count("traces"); if (!left) return;
    for (u64 k : op) if (n + k <= maxlen) { hashState t = s; Update(&t, stream().data() + n, k * 8); x.eval(); path.push_back(k); go(t, n + k, left - 1); path.pop_back(); } } };

int main(int argc, char **argv) {
  vf::Check c; c.property = "C17"; c.level = "model_checking"; c.states_mode = true; bool T = vf::thorough();
  c.rule = "States are context images reached by init and absorb operations on the compiled library; each reached state is finished on a copy and compared with the FIPS 202 model of the absorbed prefix (conformance on every trace). Distinct states are counted by context hash or by the (length, piece, output length) index where the space is a full product.";
  c.assumptions = {"byte-granular messages; bit-granular absorption is not claimed", "the reference permutation is validated against hashlib in setup_cmd"};
  u64 SL = T ? 1600 : 1100; models(SL > 1200 ? SL : 1200); int depth = T ? 5 : 4;
  static std::vector<u64> OP[6]; u64 nop = 0; for (u64 q = 0; q < NA; q++) { OP[q] = ops(ALG[q]); nop = OP[q].size(); }
  c.sections.push_back({"search", "explicit-state search: six functions, all sequences of <= " + std::to_string(depth) + " absorbs over " + std::to_string(nop) + " piece lengths around lane and rate boundaries, total <= " + std::to_string(SL), NA * nop * nop, [=](Ctx &x, u64 i) {
    Dec d(i); u64 q = d(NA); const Alg &a = ALG[q]; Search s{x, a, q, OP[q], SL, std::vector<std::map<u64, int>>(SL + 1), {}}; hashState h; memset(&h, 0, sizeof h); Init(&h, a.init); u64 n = 0;
    u64 k1 = OP[q][d(nop)], k2 = OP[q][d(nop)]; for (u64 k : {k1, k2}) { if (n + k > SL) return; Update(&h, stream().data() + n, k * 8); n += k; s.path.push_back(k); } s.go(h, n, depth - 2); if (x.want_sample()) x.sample(std::string(a.name) + " absorb " + std::to_string(k1) + ", " + std::to_string(k2) + ", then up to " + std::to_string(depth - 2) + " more"); }});
  c.sections.push_back({"two-pieces", "six functions x every first piece 0..2 rates x every second piece 0..3 rates, dirty context, rotating data alignment", NA * 340, [=](Ctx &x, u64 i) {
    u64 q = i % NA, n = i / NA; const Alg &a = ALG[q]; if (n > 2 * a.rate) return; static u8 data[4096]; for (u64 k = 0; k <= 3 * a.rate; k++) { u64 al = (n + k) % 9; memcpy(data + al, stream().data(), n + k); hashState h; memset(&h, 0xA7, sizeof h); Init(&h, a.init); x.about("%s %lu+%lu", a.name, n, k); Update(&h, data + al, n * 8); Update(&h, data + al + n, k * 8); fin(x, a, h, dl(a), &W[q][(n + k) * 200], "two-pieces", std::to_string(n) + "+" + std::to_string(k)); x.distinct(1); x.count("traces"); } }});
  c.sections.push_back({"three-pieces", "SHA3-512 and SHAKE256: all triples of piece lengths up to one rate", 2 * 137, [=](Ctx &x, u64 i) {
    u64 q = i % 2 ? 3 : 5, n = i / 2; const Alg &a = ALG[q]; if (n > a.rate) return; u64 st = T || a.rate < 100 ? 1 : 3; for (u64 k = (n % st); k <= a.rate; k += st) { hashState h; memset(&h, 0, sizeof h); Init(&h, a.init); Update(&h, stream().data(), n * 8); Update(&h, stream().data() + n, k * 8); x.about("%s %lu+%lu+...", a.name, n, k); for (u64 l = (k % st); l <= a.rate; l += st) { hashState t = h; Update(&t, stream().data() + n + k, l * 8); fin(x, a, t, dl(a), &W[q][(n + k + l) * 200], "three-pieces", std::to_string(n) + "+" + std::to_string(k) + "+" + std::to_string(l)); x.distinct(1); x.count("traces"); } } }});
  c.sections.push_back({"equal-pieces", "every total up to the bound absorbed in equal pieces of every size 1..200", NA * 200, [=](Ctx &x, u64 i) {
    u64 q = i % NA, st = i / NA + 1; const Alg &a = ALG[q]; hashState h; memset(&h, 1, sizeof h); Init(&h, a.init); for (u64 n = 0; n + st <= 1200; n += st) { Update(&h, stream().data() + n, st * 8); if (st % 7 == 0) Update(&h, stream().data(), 0); fin(x, a, h, dl(a), &W[q][(n + st) * 200], "equal-pieces", std::to_string(st) + " x " + std::to_string(n / st + 1)); x.distinct(1); } x.count("traces"); }});
  // one-shot interfaces
  c.sections.push_back({"one-shot", "Hash for every digest size, SHAKE128/SHAKE256 and the generic extendable one-shot: every message length 0..1100", 1101, [=](Ctx &x, u64 n) {
    u8 *o = (u8 *)malloc(1000); static u8 data[2048]; u64 al = n % 9; memcpy(data + al, stream().data(), n);
    for (u64 q = 0; q < NA; q++) { const Alg &a = ALG[q]; for (int way = 0; way < 2; way++) { if (a.dlen && way) continue; if (!a.dlen && !way && !Hash2) continue; memset(o, 0xEE, 600); x.about("one-shot %s length %lu", a.name, n); u64 d = dl(a);
      if (a.dlen) Hash(a.init, data + al, n * 8, o + 5); else if (!way) Hash2(a.init, data + al, n * 8, o + 5, d); else (a.init == 128 ? SHAKE128 : SHAKE256)(data + al, n * 8, o + 5, d);
      x.eval(); x.distinct(1); x.count("traces"); if (memcmp(o + 5, &W[q][n * 200], d)) x.fail(std::string("one-shot-") + a.name, "length " + std::to_string(n)); bool over = false; for (u64 k = d + 5; k < 600; k++) over |= o[k] != 0xEE; for (int k = 0; k < 5; k++) over |= o[k] != 0xEE; if (over) x.fail(std::string("one-shot-overwrites-") + a.name, "length " + std::to_string(n)); } } free(o); }});
  u64 D = T ? 800 : 520;
  c.sections.push_back({"output-lengths", "SHAKE128/256 one-shot and streaming: every message length 0..2 rates+8 x every output length 0.." + std::to_string(D), 2 * 345, [=](Ctx &x, u64 i) {
    const Alg &a = ALG[4 + i % 2]; u64 n = i / 2; if (n > 2 * a.rate + 8) return; u8 w[MAXD]; ref::keccak(a.rate, a.suffix, stream().data(), n, w, D); static u8 o[MAXD + 64]; hashState h; memset(&h, 0, sizeof h); Init(&h, a.init); Update(&h, stream().data(), n * 8);
    for (u64 d = 0; d <= D; d++) { x.about("%s length %lu output %lu", a.name, n, d); memset(o, 0xEE, sizeof o); (a.init == 128 ? SHAKE128 : SHAKE256)(stream().data(), n * 8, o, d); x.eval(); x.distinct(2); if (memcmp(o, w, d)) x.fail(std::string("output-length-") + a.name, "message " + std::to_string(n) + " output " + std::to_string(d)); for (u64 k = d; k < d + 64; k++) if (o[k] != 0xEE) { x.fail(std::string("overwrites-") + a.name, "message " + std::to_string(n) + " output " + std::to_string(d)); break; } fin(x, a, h, d, w, "output-length-stream", "message " + std::to_string(n)); x.count("traces", 2); } }});
  c.sections.push_back({"long-outputs", "SHAKE outputs of 2^k +-1 bytes up to " + std::string(T ? "2^24" : "2^20"), 2 * (T ? 24 : 20), [=](Ctx &x, u64 i) {
    const Alg &a = ALG[4 + i % 2]; for (long e = -1; e <= 1; e++) { u64 d = (2ull << (i / 2)) + e; Bytes w(d), o(d + 8, 0xEE); ref::keccak(a.rate, a.suffix, stream().data(), 77, w.data(), d); (a.init == 128 ? SHAKE128 : SHAKE256)(stream().data(), 77 * 8, o.data(), d); x.eval(); x.distinct(1); bool bad = memcmp(o.data(), w.data(), d); for (int k = 0; k < 8; k++) bad |= o[d + k] != 0xEE; if (bad) x.fail(std::string("long-output-") + a.name, std::to_string(d)); } }});
  c.sections.push_back({"contents", "six functions x lengths 0..2 rates x constant, patterned and generic contents", 300, [=](Ctx &x, u64 n) {
    for (u64 q = 0; q < NA; q++) for (u64 v = 0; v < NCONTENT + (T ? 40 : 3); v++) { const Alg &a = ALG[q]; if (n > 2 * a.rate) continue; Bytes m = content(v, n); u8 w[200]; ref::keccak(a.rate, a.suffix, m.data(), n, w, dl(a)); hashState h; memset(&h, 0, sizeof h); Init(&h, a.init); Update(&h, m.data(), n * 8); fin(x, a, h, dl(a), w, "contents", "length " + std::to_string(n) + " content " + std::to_string(v)); x.distinct(1); } }});
  c.sections.push_back({"single-bits", "messages of rate-1, rate and rate+1 bytes with one bit set or clear: every position", NA * 3 * 2, [=](Ctx &x, u64 i) {
    Dec d(i); u64 q = d(NA); const Alg &a = ALG[q]; u64 n = a.rate - 1 + d(3); bool inv = d(2); for (u64 b = 0; b < 8 * n; b++) { Bytes m(n, inv ? 255 : 0); m[b / 8] ^= 1 << b % 8; u8 w[200]; ref::keccak(a.rate, a.suffix, m.data(), n, w, dl(a)); hashState h; memset(&h, 0, sizeof h); Init(&h, a.init); Update(&h, m.data(), n * 8); fin(x, a, h, dl(a), w, "single-bits", std::to_string(n) + " bytes bit " + std::to_string(b)); x.distinct(1); } }});
  static const u64 HN[] = {(1ull << 29) + 77, (1ull << 32) + 131};
  c.sections.push_back({"huge", "messages of 2^29 bytes (more than 2^32 bits), streaming and one-shot" + std::string(T ? "; and of more than 2^32 bytes" : ""), T ? 8u : 4u, [=](Ctx &x, u64 i) {
    u64 n = HN[i / 4]; Huge h(n, 2); if (!h.p) { x.count("huge-skipped"); return; } const Alg &a = ALG[i % 4 == 0 ? 3 : i % 4 == 1 ? 4 : 5]; x.about("%s message of %lu bytes", a.name, n); u8 w[200], o[200]; ref::keccak(a.rate, a.suffix, h.p, n, w, dl(a)); if (i % 4 == 3) SHAKE256(h.p, n * 8, o, 200); else if (i % 4 == 1) SHAKE128(h.p, n * 8, o, 200); else { hashState s; Init(&s, a.init); Update(&s, h.p, 5 * 8); Update(&s, h.p + 5, (n - 5) * 8); a.dlen ? Final(&s, o) : Final2(&s, o, 200); } x.eval(); x.distinct(1); if (memcmp(o, w, dl(a))) x.fail(std::string("huge-") + a.name, std::to_string(n)); }});
  c.hang_s = 400;
  return vf::run(argc, argv, c);
}
