// C16: the streaming SHA-512 (and SHA-384) as a transition system.  A state is
// the context image; the operations are "absorb k bytes from alignment a" and
// "close".  Model: the pair (number of bytes absorbed); its output function is
// the reference digest of that prefix of one fixed byte stream.
#include "hash.h"
typedef sph_sha512_context C512;
static u8 REFD[1 << 13][64], REF3[1 << 13][64];
static void digests(u64 n) { const u8 *m = stream().data(); ref::Sha512 s, t(true); for (u64 i = 0; i <= n; i++) { ref::Sha512 a = s, b = t; a.fin(REFD[i]); b.fin(REF3[i]); s.add(m + i, 1); t.add(m + i, 1); } }
static bool closes(Ctx &x, C512 c, const u8 *want, const char *key, const std::string &in) {
  u8 d[80]; memset(d, 0xEE, sizeof d); sph_sha512_close(&c, d); x.eval();
  for (int i = 64; i < 80; i++) if (d[i] != 0xEE) { x.fail(std::string(key) + "-overwrites", in); return false; }
  if (memcmp(d, want, 64)) { x.fail(key, in + " -> " + hex(d, 64) + " expected " + hex(want, 64)); return false; } return true; }
static const u64 OPS[] = {0, 1, 2, 3, 5, 7, 8, 9, 13, 15, 16, 17, 24, 31, 32, 33, 47, 48, 63, 64, 65, 79, 95, 96, 100, 110, 111, 112, 113, 115, 118, 119, 120, 121, 126, 127, 128, 129, 130, 160, 192, 200, 239, 240, 241, 254, 255, 256, 257, 258, 300, 367, 368, 369, 383, 384, 385, 500, 512, 513, 640, 1024};
static const u64 NOPS = sizeof OPS / sizeof *OPS;

struct Search {   // explicit-state search below one first operation
  Ctx &x; u64 maxlen; std::vector<std::map<u64, int>> visited; std::vector<u64> path;
  void go(const C512 &c, u64 n, int left) {
    u64 h = vf::hash_bytes(&c, sizeof c);
    auto &v = visited[n]; auto it = v.find(h); if (it != v.end() && it->second >= left) return;
    if (it == v.end()) x.seen(h);
    v[h] = left;
    std::string in; for (u64 k : path) in += " " + std::to_string(k);
    x.about("init, absorb%s", in.c_str());
    if (!closes(x, c, REFD[n], "pieces", "pieces" + in)) return;
    x.count("traces");
    if (!left) return;
    for (u64 k : OPS) if (n + k <= maxlen) { C512 t = c; sph_sha512(&t, stream().data() + n, k); x.eval(); path.push_back(k); go(t, n + k, left - 1); path.pop_back(); }
  }
};

int main(int argc, char **argv) {
  vf::Check c; c.property = "C16"; c.level = "model_checking"; c.states_mode = true; bool T = vf::thorough();
  c.rule = "States are context images reached by init and update operations on the compiled library; every transition executes the library and the digest obtained by closing a copy of each state is compared with an independent FIPS 180-4 model of the prefix absorbed. Distinct states are counted by the hash of the context image, or by the (absorbed, piece, alignment) index where the space is a full product.";
  c.assumptions = {"lengths beyond what can be hashed directly are reached by setting the byte counter of a context, located by its behaviour", "the reference compression function is validated against hashlib and NIST vectors in setup_cmd"};
  u64 SL = T ? 3000 : 1300; digests(SL + 1100);
  int depth = T ? 4 : 3;
  c.sections.push_back({"search", "explicit-state search: all sequences of <= " + std::to_string(depth) + " updates with piece lengths from " + std::to_string(NOPS) + " values around block and padding boundaries, total <= " + std::to_string(SL) + ", every reached state closed", NOPS * NOPS, [=](Ctx &x, u64 i) {
    Search s{x, SL, std::vector<std::map<u64, int>>(SL + 1), {}}; C512 c; memset(&c, 0, sizeof c); sph_sha512_init(&c); u64 n = 0;
    for (u64 k : {OPS[i / NOPS], OPS[i % NOPS]}) { if (n + k > SL) return; sph_sha512(&c, stream().data() + n, k); n += k; s.path.push_back(k); }
    s.go(c, n, depth - 2); if (x.want_sample()) x.sample("init, update " + std::to_string(s.path[0]) + ", update " + std::to_string(s.path[1]) + ", then up to " + std::to_string(depth - 2) + " more pieces"); }});
  u64 A = T ? 400 : 272, B = T ? 1100 : 660;
  c.sections.push_back({"two-pieces", "every first piece of 0.." + std::to_string(A) + " bytes x every second piece of 0.." + std::to_string(B) + " bytes, context first filled with garbage, data and context at rotating alignments", A + 1, [=](Ctx &x, u64 n) {
    alignas(64) u8 mem[2048]; alignas(64) static u8 data[4096 + 64];
    for (u64 k = 0; k <= B; k++) { u64 al = (n * 3 + k) % 16; C512 c; memset(&c, 0xA7, sizeof c); sph_sha512_init(&c); (void)mem;
      memcpy(data + al, stream().data(), n + k); x.about("init, update %lu, update %lu, alignment %lu", n, k, al);
      sph_sha512(&c, data + al, n); sph_sha512(&c, data + al + n, k); closes(x, c, REFD[n + k], "two-pieces", std::to_string(n) + "+" + std::to_string(k) + " alignment " + std::to_string(al)); x.distinct(1); x.count("traces"); } }});
  u64 E = T ? 300 : 140;
  c.sections.push_back({"three-pieces", "all triples of piece lengths 0.." + std::to_string(E), E + 1, [=](Ctx &x, u64 n) {
    for (u64 k = 0; k <= E; k++) { C512 a; sph_sha512_init(&a); sph_sha512(&a, stream().data(), n); sph_sha512(&a, stream().data() + n, k); x.about("pieces %lu %lu 0..%lu", n, k, E);
      for (u64 l = 0; l <= E; l++) { C512 t = a; sph_sha512(&t, stream().data() + n + k, l); closes(x, t, REFD[n + k + l], "three-pieces", std::to_string(n) + "+" + std::to_string(k) + "+" + std::to_string(l)); x.distinct(1); x.count("traces"); } } }});
  c.sections.push_back({"byte-wise", "every message length 0.." + std::to_string(SL) + " absorbed one byte at a time, with empty pieces in between, and in equal pieces of every size 1..64", 65, [=](Ctx &x, u64 k) {
    C512 c; sph_sha512_init(&c); u64 n = 0, st = k ? k : 1; for (; n + st <= SL; n += st) { x.about("equal pieces of %lu", st); sph_sha512(&c, stream().data() + n, st); if (!k) sph_sha512(&c, stream().data(), 0); closes(x, c, REFD[n + st], "equal-pieces", std::to_string(st) + " x " + std::to_string(n / st + 1)); x.distinct(1); } x.count("traces"); }});
  c.sections.push_back({"contents", "every length 0..384 x constant, patterned and generic contents", 385, [=](Ctx &x, u64 n) {
    for (u64 v = 0; v < NCONTENT + (T ? 60 : 6); v++) { Bytes m = content(v, n); u8 w[64]; ref::sha512(m.data(), n, w); C512 c; sph_sha512_init(&c); sph_sha512(&c, m.data(), n); closes(x, c, w, "contents", "length " + std::to_string(n) + " content " + std::to_string(v)); x.distinct(1); x.count("traces"); } }});
  c.sections.push_back({"single-bits", "messages of 0..129 and 256 bytes with exactly one bit set or exactly one bit clear: every position", 131, [=](Ctx &x, u64 q) {
    u64 n = q == 130 ? 256 : q; for (u64 b = 0; b < 8 * n; b++) for (int inv = 0; inv < 2; inv++) { Bytes m(n, inv ? 255 : 0); m[b / 8] ^= 1 << b % 8; u8 w[64]; ref::sha512(m.data(), n, w); C512 c; sph_sha512_init(&c); sph_sha512(&c, m.data(), n); closes(x, c, w, "single-bits", "length " + std::to_string(n) + " bit " + std::to_string(b)); x.distinct(1); } }});
  // values injected into the chaining through special blocks: each 64-bit word of the block takes boundary values
  c.sections.push_back({"block-words", "one block with every pair of words taking values from {0,1,2^63,2^64-1,2^32,2^32-1}", 16 * 16, [=](Ctx &x, u64 i) {
    static const u64 V[] = {0, 1, 1ull << 63, ~0ull, 1ull << 32, 0xffffffff}; for (u64 a : V) for (u64 b : V) { Bytes m(128, 0x36); for (int j = 0; j < 8; j++) { m[8 * (i / 16) + j] = a >> (56 - 8 * j); m[8 * (i % 16) + j] = b >> (56 - 8 * j); } u8 w[64]; ref::sha512(m.data(), 128, w); C512 c; sph_sha512_init(&c); sph_sha512(&c, m.data(), 128); closes(x, c, w, "block-words", hx(m)); x.distinct(1); } }});
  c.sections.push_back({"reuse", "a context closed after n bytes is ready for a new message of k bytes: all n 0..260 x k from the operation list; re-initialised half-way likewise", 261, [=](Ctx &x, u64 n) {
    for (u64 k : OPS) for (int how = 0; how < 2; how++) { C512 c; memset(&c, 0x5c, sizeof c); sph_sha512_init(&c); sph_sha512(&c, stream().data(), n); u8 d[64]; x.about("reuse after %lu: %lu", n, k); if (how) sph_sha512_init(&c); else sph_sha512_close(&c, d); sph_sha512(&c, stream().data(), k); closes(x, c, REFD[k], "reuse", std::to_string(n) + " then " + std::to_string(k)); x.distinct(1); x.count("traces"); } }});
  c.sections.push_back({"trailing-bits", "messages of 8n+b bits, n 0..260, b 0..7, all values of the b bits", 261, [=](Ctx &x, u64 n) {
    for (unsigned b = 0; b < 8; b++) for (unsigned v = 0; v < 1u << b; v++) for (int junk = 0; junk < 2; junk++) { unsigned ub = v << (8 - b); if (junk) ub |= (0xff >> b); ub &= 0xff; u8 w[64], d[64]; ref::Sha512 r; r.add(stream().data(), n); r.fin(w, ub, b); C512 c; sph_sha512_init(&c); sph_sha512(&c, stream().data(), n); sph_sha512_addbits_and_close(&c, ub, b, d); x.eval(); x.distinct(1);
      if (memcmp(d, w, 64)) x.fail("trailing-bits", std::to_string(n) + " bytes and " + std::to_string(b) + " bits of " + std::to_string(ub)); } }});
  c.sections.push_back({"sha384", "SHA-384: every first piece 0..140 x second piece 0..300", 141, [=](Ctx &x, u64 n) {
    for (u64 k = 0; k <= 300; k++) { sph_sha384_context c; sph_sha384_init(&c); sph_sha384(&c, stream().data(), n); sph_sha384(&c, stream().data() + n, k); u8 d[64]; memset(d, 0xEE, 64); sph_sha384_close(&c, d); x.eval(); x.distinct(1); bool over = false; for (int i = 48; i < 64; i++) over |= d[i] != 0xEE;
      if (over || memcmp(d, REF3[n + k], 48)) x.fail("sha384", std::to_string(n) + "+" + std::to_string(k)); } }});
  // the byte counter, located by its behaviour
  C512 pr[6]; u64 at[6] = {0, 1, 127, 128, 1000, 1024}; int slot = -1, nslot = 0;
  for (int i = 0; i < 6; i++) { memset(&pr[i], 0, sizeof(C512)); sph_sha512_init(&pr[i]); sph_sha512(&pr[i], stream().data(), at[i]); }
  for (size_t o = 0; o + 8 <= sizeof(C512); o += 8) { bool ok = true; for (int i = 0; i < 6; i++) { u64 v; memcpy(&v, (u8 *)&pr[i] + o, 8); ok &= v == at[i]; } if (ok) { slot = o; nslot++; } }
  if (nslot == 1) c.sections.push_back({"long-counter", "histories of 2^e+r bytes for every e 7..63 and r -130..130 (state reached by setting the byte counter), then a further piece of 0..260 bytes: padding encodes the 128-bit bit length", 57 * 9, [=](Ctx &x, u64 i) {
    static const u64 K[] = {0, 1, 111, 112, 127, 128, 129, 200, 260}; u64 e = 7 + i / 9, k = K[i % 9];
    for (long r = -130; r <= 130; r++) { u64 n = (1ull << e) + r, rem = n % 128; if (e == 63 && r > 0 && k) {} C512 c; sph_sha512_init(&c); sph_sha512(&c, stream().data(), rem); memcpy((u8 *)&c + slot, &n, 8); ref::Sha512 w; w.add(stream().data(), rem); w.total = n; sph_sha512(&c, stream().data() + rem, k); w.add(stream().data() + rem, k); u8 d[64]; w.fin(d); closes(x, c, d, "long-counter", "2^" + std::to_string(e) + "+" + std::to_string(r) + " then " + std::to_string(k)); x.distinct(1); } }});
  static const u64 HN[] = {(1ull << 29) - 1, (1ull << 29) + 77, (1ull << 32) + 5, (1ull << 32) + 131};
  c.sections.push_back({"huge", "messages of 2^29 bytes (2^32 bits) and of more than 2^32 bytes in one update, in two updates cut after 100 bytes", T ? 8u : 4u, [=](Ctx &x, u64 i) {
    static const u8 PK[] = {0, 3, 2, 5, 1, 4, 6, 7}; u64 q = PK[i]; u64 n = HN[q % 4]; bool cut = q / 4; Huge h(n, 1); if (!h.p) { x.count("huge-skipped"); return; } x.about("message of %lu bytes", n); u8 w[64]; ref::Sha512 r; r.add(h.p, n); r.fin(w); C512 c; sph_sha512_init(&c);
    if (cut) { sph_sha512(&c, h.p, 100); sph_sha512(&c, h.p + 100, n - 100); } else sph_sha512(&c, h.p, n); closes(x, c, w, "huge", std::to_string(n) + (cut ? " in two pieces" : " in one piece")); x.distinct(1); x.count("traces"); }});
  c.hang_s = 300;
  return vf::run(argc, argv, c);
}
