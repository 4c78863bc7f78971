// Shared by the harnesses: the library's public headers, named scheme tables
// and input alphabets.
#pragma once
#include <map>
#include <set>
#include <tuple>
#include "ref.h"
#include "vf.h"
#include "faz_fp_avx2.h"
#undef Oper0Retr
#undef Oper1Void
#undef Oper1File
#include "faz_ecdh_avx2.h"
#undef Oper0Retr
#undef Oper1Void
#undef Oper1File
#include "faz_eddsa_avx2.h"

using ref::Curve; using ref::Mode; using ref::Z; using ref::Pt; using ref::c25519; using ref::c448;
using vf::Ctx; using vf::Dec; using vf::hex; using vf::Section; using vf::u64; using vf::u8;
typedef std::vector<u8> Bytes;

// pseudo-random but fixed alphabet elements
inline Bytes gen(const std::string &label, size_t n) { Bytes b(n); ref::shake256((const u8 *)label.data(), label.size(), b.data(), n); return b; }
inline Bytes gen(const char *l, u64 i, size_t n) { return gen(std::string(l) + ":" + std::to_string(i), n); }
inline Bytes le(const Z &z, size_t n) { Bytes b(n); z.le_out(b.data(), n); return b; }
inline std::string hx(const Bytes &b) { return hex(b.data(), b.size()); }

struct Scheme {
  const char *name;
  bool is448;
  Mode m;
  const Curve &c() const { return is448 ? c448() : c25519(); }
  unsigned kb() const { return is448 ? 57 : 32; }
  bool hasctx() const { return is448 || m != ref::PURE; }
  int keygen(u8 *pk, const u8 *sk) const {
    using namespace faz::eddsa;
    if (is448) return m == ref::PH ? Ed448.PreHash.keygen(pk, (u8 *)sk) : Ed448.PureContext.keygen(pk, (u8 *)sk);
    return m == ref::PURE ? Ed25519.Pure.keygen(pk, (u8 *)sk) : m == ref::PH ? Ed25519.PreHash.keygen(pk, (u8 *)sk) : Ed25519.Context.keygen(pk, (u8 *)sk);
  }
  int sign(u8 *sig, const u8 *msg, u64 ml, const u8 *ctx, u64 cl, const u8 *pk, const u8 *sk) const {
    using namespace faz::eddsa;
    u8 *p = (u8 *)pk, *s = (u8 *)sk;
    if (is448) return m == ref::PH ? Ed448.PreHash.sign(sig, msg, ml, ctx, cl, p, s) : Ed448.PureContext.sign(sig, msg, ml, ctx, cl, p, s);
    if (m == ref::PURE) return Ed25519.Pure.sign(sig, msg, ml, p, s);
    return m == ref::PH ? Ed25519.PreHash.sign(sig, msg, ml, ctx, cl, p, s) : Ed25519.Context.sign(sig, msg, ml, ctx, cl, p, s);
  }
  int verify(const u8 *msg, u64 ml, const u8 *ctx, u64 cl, const u8 *pk, const u8 *sig) const {
    using namespace faz::eddsa;
    u8 *p = (u8 *)pk, *s = (u8 *)sig;
    if (is448) return m == ref::PH ? Ed448.PreHash.verify(msg, ml, ctx, cl, p, s) : Ed448.PureContext.verify(msg, ml, ctx, cl, p, s);
    if (m == ref::PURE) return Ed25519.Pure.verify(msg, ml, p, s);
    return m == ref::PH ? Ed25519.PreHash.verify(msg, ml, ctx, cl, p, s) : Ed25519.Context.verify(msg, ml, ctx, cl, p, s);
  }
};
static const Scheme SCHEMES[] = {
  {"Ed25519", false, ref::PURE}, {"Ed25519ctx", false, ref::CTX}, {"Ed25519ph", false, ref::PH},
  {"Ed448", true, ref::CTX}, {"Ed448ph", true, ref::PH},
};

// scratch buffers with the alignment the library's own types have
struct Buf { alignas(64) u8 b[256]; Buf() { memset(b, 0xA5, sizeof b); } operator u8 *() { return b; } };

// special secrets: constant patterns, single bits, generic
inline Bytes secret(u64 i, size_t n) {
  if (i == 0) return Bytes(n, 0);
  if (i == 1) return Bytes(n, 0xff);
  if (i == 2) { Bytes b(n, 0); b[0] = 1; return b; }
  if (i == 3) { Bytes b(n, 0); b[n - 1] = 0x80; return b; }
  return gen("secret", i, n);
}
