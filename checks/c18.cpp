// C18: two-lane SHA-512 against the one-lane model, every length, lane contents crossed.
#include "hash.h"
static void two(Ctx &x, const u8 *a, const u8 *b, u64 n, const u8 *wa, const u8 *wb, const std::string &in, u64 al = 0) {
  u8 d[2][96]; memset(d, 0xEE, sizeof d); u8 *m[2] = {(u8 *)a, (u8 *)b}, *o[2] = {d[0] + al, d[1] + (al + 5) % 16}; u8 *m0[2] = {m[0], m[1]}, *o0[2] = {o[0], o[1]}; x.about("%s", in.c_str()); sha512_2w_avx(m, n, o); x.eval();
  for (int l = 0; l < 2; l++) { if (m[l] != m0[l] || o[l] != o0[l]) x.fail("pointers-changed", in); const u8 *w = l ? wb : wa; if (memcmp(o0[l], w, 64)) x.fail(l ? "lane1" : "lane0", in + " -> " + hex(o0[l], 64) + " expected " + hex(w, 64)); for (u8 *p = d[l]; p < d[l] + 96; p++) if ((p < o0[l] || p >= o0[l] + 64) && *p != 0xEE) { x.fail("overwrites", in); break; } } }
int main(int argc, char **argv) {
  vf::Check c; c.property = "C18"; c.level = "exploration"; bool T = vf::thorough();
  c.rule = "Every (length, contents of lane 0, contents of lane 1) of the listed products is hashed by the compiled two-lane function and both digests are compared with the FIPS 180-4 model. Distinct by construction of the index.";
  c.assumptions = {"reference validated against hashlib and NIST vectors in setup_cmd"};
  u64 L = T ? 2600 : 1040, K = NCONTENT + 2;
  c.sections.push_back({"lengths", "every length 0.." + std::to_string(L) + " x " + std::to_string(K) + " contents of lane 0 x as many of lane 1", L + 1, [=](Ctx &x, u64 n) {
    std::vector<Bytes> m, w; for (u64 v = 0; v < K; v++) { m.push_back(content(v, n)); Bytes d(64); ref::sha512(m[v].data(), n, d.data()); w.push_back(d); }
    for (u64 a = 0; a < K; a++) for (u64 b = 0; b < K; b++) { two(x, m[a].data(), m[b].data(), n, w[a].data(), w[b].data(), "length " + std::to_string(n) + " contents " + std::to_string(a) + "," + std::to_string(b)); x.distinct(1); } if (x.want_sample()) x.sample("length " + std::to_string(n) + ": 49 content pairs"); }});
  c.sections.push_back({"alignments", "lengths 0..400 x 16 alignments of each message and of each digest, same buffer in both lanes included", 401, [=](Ctx &x, u64 n) {
    static u8 A[1024], B[1024]; Bytes ma = content(0, n), mb = content(5, n); u8 wa[64], wb[64]; ref::sha512(ma.data(), n, wa); ref::sha512(mb.data(), n, wb);
    for (u64 p = 0; p < 16; p++) for (u64 q = 0; q < 16; q++) { memcpy(A + p, ma.data(), n); memcpy(B + q, mb.data(), n); two(x, A + p, B + q, n, wa, wb, "length " + std::to_string(n) + " alignments " + std::to_string(p) + "," + std::to_string(q), (p * 7 + q) % 16); x.distinct(1); } two(x, A, A, n, [&] { static u8 t[64]; ref::sha512(A, n, t); return t; }(), [&] { static u8 t[64]; ref::sha512(A, n, t); return t; }(), "same buffer"); }});
  c.sections.push_back({"single-bits", "one bit set (or clear) in one lane, the other lane constant: lengths 1,32,111,112,127,128,129,239,240,256, every position", 10 * 2 * 2, [=](Ctx &x, u64 i) {
    static const u64 N[] = {1, 32, 111, 112, 127, 128, 129, 239, 240, 256}; Dec d(i); u64 n = N[d(10)]; bool lane = d(2), inv = d(2); Bytes o(n, inv ? 255 : 0); u8 wo[64]; ref::sha512(o.data(), n, wo);
    for (u64 b = 0; b < 8 * n; b++) { Bytes m = o; m[b / 8] ^= 1 << b % 8; u8 w[64]; ref::sha512(m.data(), n, w); two(x, lane ? o.data() : m.data(), lane ? m.data() : o.data(), n, lane ? wo : w, lane ? w : wo, "length " + std::to_string(n) + " bit " + std::to_string(b)); x.distinct(1); } }});
  c.sections.push_back({"block-words", "one block, every pair of words over {0,1,2^63,2^64-1,2^32,2^32-1} in lane 0, complement in lane 1", 256, [=](Ctx &x, u64 i) {
    static const u64 V[] = {0, 1, 1ull << 63, ~0ull, 1ull << 32, 0xffffffff}; for (u64 a : V) for (u64 b : V) { Bytes m(128, 0x36); for (int j = 0; j < 8; j++) { m[8 * (i / 16) + j] = a >> (56 - 8 * j); m[8 * (i % 16) + j] = b >> (56 - 8 * j); } Bytes q = m; for (auto &t : q) t = ~t; u8 w[64], v[64]; ref::sha512(m.data(), 128, w); ref::sha512(q.data(), 128, v); two(x, m.data(), q.data(), 128, w, v, "block " + hx(m)); x.distinct(1); } }});
  c.sections.push_back({"32-byte", "the fixed 32-byte variant: single-bit, constant and generic messages in both lanes, messages at the end of a mapping", 256 + 8, [=](Ctx &x, u64 i) {
    if (!sha512_2w_avx_256b) { x.count("no-256b"); return; } static u8 *pg = nullptr; if (!pg) { pg = (u8 *)mmap(0, 3 * 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(pg + 4096, 4096, PROT_NONE); } Bytes a = i < 256 ? Bytes(32, 0) : content(i - 256, 32), b = gen("b", i, 32); if (i < 256) a[i / 8] ^= 1 << i % 8;
    u8 w[2][64]; ref::sha512(a.data(), 32, w[0]); ref::sha512(b.data(), 32, w[1]); for (int sw = 0; sw < 2; sw++) { u8 *p = pg + 4096 - 32, q[32]; memcpy(p, sw ? b.data() : a.data(), 32); memcpy(q, sw ? a.data() : b.data(), 32); static u8 far[256]; memcpy(far, q, 32); u8 d[2][64]; u8 *m[2] = {sw ? far : p, sw ? p : far}, *o[2] = {d[0], d[1]}; x.about("256b message %lu", i); sha512_2w_avx_256b(m, o); x.eval(); x.distinct(1); if (memcmp(d[0], w[0], 64) || memcmp(d[1], w[1], 64)) x.fail("fixed-32", hx(a) + " / " + hx(b)); } }});
  static const u64 HN[] = {(1ull << 29) + 3, (1ull << 29) + 115, (1ull << 32) - 1, (1ull << 32) + 9};
  c.sections.push_back({"huge", "lengths 2^29 (bit length above 2^32), 2^32-1 and beyond 2^32", 4, [=](Ctx &x, u64 i) {
    u64 n = HN[i]; if (!T && i == 2) return; Huge a(n, 3), b(n, 4); if (!a.p || !b.p) { x.count("huge-skipped"); return; } u8 w[2][64]; { ref::Sha512 s; s.add(a.p, n); s.fin(w[0]); } { ref::Sha512 s; s.add(b.p, n); s.fin(w[1]); } two(x, a.p, b.p, n, w[0], w[1], "length " + std::to_string(n)); x.distinct(1); }});
  c.hang_s = 400;
  return vf::run(argc, argv, c);
}
