/* every public operation once, with local operands, read back and called again
   after one operand changed: what a caller sees when everything is inlined */
#define FIELD(P, F, WF, WR, N8, EF, EB, E1, E2, E4) \
OP3(P##_full_add, EF, WF, F._1w_full.arith.add) OP3(P##_full_sub, EF, WF, F._1w_full.arith.sub) OP3(P##_full_mul, EF, WF, F._1w_full.arith.mul) \
OP1(P##_full_neg, EF, WF, F._1w_full.arith.neg) OP1(P##_full_sqr, EF, WF, F._1w_full.arith.sqr) OP2(P##_full_inv, EF, EF, WF, WF, F._1w_full.arith.inv) \
OPC(P##_full_cmp, EF, WF, F._1w_full.arith.cmp) OPM(P##_full_cmv, EF, WF, F._1w_full.arith.cmv) OPI(P##_full_sgn, EF, WF, F._1w_full.arith.sgn) \
OP1(P##_full_prime, EF, WF, F._1w_full.arith.prime) OP2(P##_full_copy, EF, EF, WF, WF, F._1w_full.arith.misc.copy) OP1(P##_full_zero, EF, WF, F._1w_full.arith.misc.zero) \
OPS(P##_full_ser, EF, WF, F._1w_full.arith.misc.ser, N8) OPU(P##_full_unser, EF, WF, F._1w_full.arith.misc.unser, N8) \
OPB(P##_full_intmul, EB, EF, 2 * WF, WF, F._1w_full.arithex.intmul) OP2(P##_full_intsqr, EB, EF, 2 * WF, WF, F._1w_full.arithex.intsqr) \
OP2(P##_full_mula24, EF, EF, WF, WF, F._1w_full.arithex.mula24) OP2(P##_full_reduce, EF, EB, WF, 2 * WF, F._1w_full.arithex.reduce) \
OP3(P##_red_add, E1, WR, F._1w_red.arith.add) OP3(P##_red_sub, E1, WR, F._1w_red.arith.sub) OP3(P##_red_mul, E1, WR, F._1w_red.arith.mul) \
OP1(P##_red_neg, E1, WR, F._1w_red.arith.neg) OP1(P##_red_sqr, E1, WR, F._1w_red.arith.sqr) OP2(P##_red_inv, E1, E1, WR, WR, F._1w_red.arith.inv) OP2(P##_red_srt, E1, E1, WR, WR, F._1w_red.arith.srt) \
OPC(P##_red_cmp, E1, WR, F._1w_red.arith.cmp) OPM(P##_red_cmv, E1, WR, F._1w_red.arith.cmv) OPI(P##_red_sgn, E1, WR, F._1w_red.arith.sgn) \
OP1(P##_red_prime, E1, WR, F._1w_red.arith.prime) OP2(P##_red_copy, E1, E1, WR, WR, F._1w_red.arith.misc.copy) OP1(P##_red_zero, E1, WR, F._1w_red.arith.misc.zero) \
OPS(P##_red_ser, E1, WR, F._1w_red.arith.misc.ser, N8) OPU(P##_red_unser, E1, WR, F._1w_red.arith.misc.unser, N8) \
OP3(P##_red_intmul, E1, WR, F._1w_red.arithex.intmul) OP1(P##_red_compress, E1, WR, F._1w_red.arithex.compress) OP1(P##_red_compressfast, E1, WR, F._1w_red.arithex.compressfast) OPP(P##_red_addsub, E1, WR, F._1w_red.arithex.addsub) \
OP3(P##_2w_add, E2, sizeof(E2) / 8, F._2w_red.arith.add) OP3(P##_2w_sub, E2, sizeof(E2) / 8, F._2w_red.arith.sub) OP3(P##_2w_mul, E2, sizeof(E2) / 8, F._2w_red.arith.mul) \
OP1(P##_2w_neg, E2, sizeof(E2) / 8, F._2w_red.arith.neg) OP1(P##_2w_sqr, E2, sizeof(E2) / 8, F._2w_red.arith.sqr) OP2(P##_2w_ngz, E2, E2, sizeof(E2) / 8, sizeof(E2) / 8, F._2w_red.arith.ngz) \
OPV(P##_2w_cmp, E2, sizeof(E2) / 8, F._2w_red.arith.cmp) OP2(P##_2w_copy, E2, E2, sizeof(E2) / 8, sizeof(E2) / 8, F._2w_red.arith.misc.copy) OP1(P##_2w_zero, E2, sizeof(E2) / 8, F._2w_red.arith.misc.zero) \
OPS(P##_2w_ser, E2, sizeof(E2) / 8, F._2w_red.arith.misc.ser, 2 * N8) OPU(P##_2w_unser, E2, sizeof(E2) / 8, F._2w_red.arith.misc.unser, 2 * N8) \
OP3(P##_2w_intmul, E2, sizeof(E2) / 8, F._2w_red.arithex.intmul) OP1(P##_2w_intsqr, E2, sizeof(E2) / 8, F._2w_red.arithex.intsqr) OP1(P##_2w_compress, E2, sizeof(E2) / 8, F._2w_red.arithex.compress) \
OP1(P##_2w_compressfast, E2, sizeof(E2) / 8, F._2w_red.arithex.compressfast) OPP(P##_2w_compress2, E2, sizeof(E2) / 8, F._2w_red.arithex.compress2) OPP(P##_2w_addsub, E2, sizeof(E2) / 8, F._2w_red.arithex.addsub) \
OPT(P##_2w_inter, E2, E1, WR, F._2w_red.arithex.inter, F._2w_red.arithex.deinter) \
OP3(P##_4w_add, E4, sizeof(E4) / 8, F._4w_red.arith.add) OP3(P##_4w_sub, E4, sizeof(E4) / 8, F._4w_red.arith.sub) OP3(P##_4w_mul, E4, sizeof(E4) / 8, F._4w_red.arith.mul) \
OP1(P##_4w_neg, E4, sizeof(E4) / 8, F._4w_red.arith.neg) OP1(P##_4w_sqr, E4, sizeof(E4) / 8, F._4w_red.arith.sqr) OP2(P##_4w_ngz, E4, E4, sizeof(E4) / 8, sizeof(E4) / 8, F._4w_red.arith.ngz) OP2(P##_4w_srt, E4, E4, sizeof(E4) / 8, sizeof(E4) / 8, F._4w_red.arith.srt) \
OPV(P##_4w_cmp, E4, sizeof(E4) / 8, F._4w_red.arith.cmp) OP2(P##_4w_copy, E4, E4, sizeof(E4) / 8, sizeof(E4) / 8, F._4w_red.arith.misc.copy) OP1(P##_4w_zero, E4, sizeof(E4) / 8, F._4w_red.arith.misc.zero) \
OPS(P##_4w_ser, E4, sizeof(E4) / 8, F._4w_red.arith.misc.ser, 4 * N8) OPU(P##_4w_unser, E4, sizeof(E4) / 8, F._4w_red.arith.misc.unser, 4 * N8) \
OP3(P##_4w_intmul, E4, sizeof(E4) / 8, F._4w_red.arithex.intmul) OP1(P##_4w_intsqr, E4, sizeof(E4) / 8, F._4w_red.arithex.intsqr) OP1(P##_4w_compress, E4, sizeof(E4) / 8, F._4w_red.arithex.compress) \
OP1(P##_4w_compressfast, E4, sizeof(E4) / 8, F._4w_red.arithex.compressfast) OPP(P##_4w_compress2, E4, sizeof(E4) / 8, F._4w_red.arithex.compress2) OPP(P##_4w_addsublar, E4, sizeof(E4) / 8, F._4w_red.arithex.addsublar) OPQ(P##_4w_addsub, E4, sizeof(E4) / 8, F._4w_red.arithex.addsub)

FIELD(f25519, F25, 4, 12, 32, EltFp25519_1w_fullradix, EltFp25519_1w_fullradix_buffer, E25, EltFp25519_2w_redradix, EltFp25519_4w_redradix)
FIELD(f448, F448, 7, 16, 56, EltFp448_1w_fullradix, EltFp448_1w_fullradix_buffer, EltFp448_1w_redradix, EltFp448_2w_redradix, EltFp448_4w_redradix)
#undef FIELD
FREE(x25519, { uint8_t k[32], q[32], p[32], s[32]; ldb(k, x, 32); ldb(q, y, 32); A25.keygen(p, k); stb(o, p, 32); A25.shared(s, q, k); stb(o + 4, s, 32); k[0] ^= 8; A25.keygen(p, k); stb(o + 8, p, 32); A25.shared(s, q, k); stb(o + 12, s, 32); q[3] ^= 1; A25.shared(q, q, k); stb(o + 16, q, 32); })
FREE(x25519_x64, { uint8_t k[32], q[32], p[32], s[32]; ldb(k, x, 32); ldb(q, y, 32); X64.keygen(p, k); stb(o, p, 32); X64.shared(s, q, k); stb(o + 4, s, 32); k[0] ^= 8; X64.keygen(p, k); stb(o + 8, p, 32); X64.shared(s, q, k); stb(o + 12, s, 32); q[3] ^= 1; X64.shared(q, q, k); stb(o + 16, q, 32); })
FREE(x448, { uint8_t k[56], q[56], p[56], s[56]; ldb(k, x, 56); ldb(q, y, 56); A448.keygen(p, k); stb(o, p, 56); A448.shared(s, q, k); stb(o + 7, s, 56); k[0] ^= 8; A448.keygen(p, k); stb(o + 14, p, 56); A448.shared(s, q, k); stb(o + 21, s, 56); q[3] ^= 1; A448.shared(q, q, k); stb(o + 28, q, 56); })
FREE(ed25519, { uint8_t k[32], p[32], s[64], m[32]; ldb(k, x, 32); ldb(m, y, 32); for (int r = 0; r < 2; r++) { S25.Pure.keygen(p, k); stb(o, p, 32); S25.Pure.sign(s, m, 32, p, k); stb(o + 4, s, 64); o[12] = S25.Pure.verify(m, 32, p, s); s[40] ^= 1; o[13] = S25.Pure.verify(m, 32, p, s);
  S25.PreHash.sign(s, m, 32, m, 5, p, k); stb(o + 14, s, 64); o[22] = S25.PreHash.verify(m, 32, m, 5, p, s); S25.Context.sign(s, m, 32, m, 6, p, k); stb(o + 23, s, 64); o[31] = S25.Context.verify(m, 32, m, 6, p, s); m[0] ^= 1; o[32] = S25.Context.verify(m, 32, m, 6, p, s); k[1] ^= 4; o += 33; } })
FREE(ed448, { uint8_t k[57], p[57], s[114], m[32]; ldb(k, x, 57); ldb(m, y, 32); for (int r = 0; r < 2; r++) { S448.PureContext.keygen(p, k); stb(o, p, 57); S448.PureContext.sign(s, m, 32, m, 3, p, k); stb(o + 8, s, 114); o[23] = S448.PureContext.verify(m, 32, m, 3, p, s); s[60] ^= 1; o[24] = S448.PureContext.verify(m, 32, m, 3, p, s);
  S448.PreHash.sign(s, m, 32, m, 5, p, k); stb(o + 25, s, 114); o[40] = S448.PreHash.verify(m, 32, m, 5, p, s); m[0] ^= 1; o[41] = S448.PreHash.verify(m, 32, m, 5, p, s); k[1] ^= 4; o += 42; } })
FREE(h2c, { uint8_t m[32]; ldb(m, x, 32); Point P, Q; for (int r = 0; r < 2; r++) { H(h2c25519_x64)(&P, m, 32 - r); H(h2c25519_avx2)(&Q, m, 32 - r); st(o, P.X, 4); st(o + 4, P.Y, 4); st(o + 8, Q.X, 4); st(o + 12, Q.Y, 4); o[16] = H(areEqual)(&P, &Q); o[17] = H(isOnCurve)(&P); P.X[0] ^= 2; o[18] = H(areEqual)(&P, &Q); o[19] = H(isOnCurve)(&P); m[3] ^= 1; o += 20; } })
FREE(sha2, { uint8_t m[300], d[64], e[2][64]; ldb(m, x, 256); ldb(m + 256, y, 44); sph_sha512_context c; for (int r = 0; r < 4; r++) { H(sph_sha512_init)(&c); H(sph_sha512)(&c, m, 100 + 40 * r); m[5] ^= 1; H(sph_sha512)(&c, m, 60 * r); H(sph_sha512_close)(&c, d); stb(o, d, 64); uint8_t *mm[2] = {m, m + 1}, *dd[2] = {e[0], e[1]}; if (sha512_2w_avx) H(sha512_2w_avx)(mm, 90 + 50 * r, dd); stb(o + 8, e[0], 64); stb(o + 16, e[1], 64); if (sha512_2w_avx_256b) H(sha512_2w_avx_256b)(mm, dd); stb(o + 24, e[0], 64); o += 32; } })
FREE(sha3, { uint8_t m[300], d[200]; ldb(m, x, 256); ldb(m + 256, y, 44); for (int r = 0; r < 4; r++) { hashState h; H(Init)(&h, r == 0 ? 256 : r == 1 ? 512 : r == 2 ? 128 : 384); H(Update)(&h, m, 8 * (100 + 40 * r)); m[5] ^= 1; H(Update)(&h, m, 8 * 60 * r); memset(d, 0, 200); if (r == 2) H(Final2)(&h, d, 200); else H(Final)(&h, d); stb(o, d, 200); H(SHAKE256)(m, 8 * (130 + r), d, 190); stb(o + 25, d, 190); H(SHAKE128)(m, 8 * (167 + r), d, 170); stb(o + 50, d, 170); o += 75; } })
