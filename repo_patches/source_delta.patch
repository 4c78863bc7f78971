From 2ff35cc50d337e6a4e7097784b6db5217da7e379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:41 +0000
Subject: [PATCH 01/26] fix: let the Keccak lanes alias the byte state

KeccakF2 works on uint64_t lanes of a uint8_t array, which breaks the strict
aliasing rules: gcc -O2 and above reorders the accesses of Init, Update and
Final2, and every Ed448 signature differs from RFC 8032.
---
 third_party/sha3.c | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/third_party/sha3.c b/third_party/sha3.c
index 74ce6bc..8ed81aa 100644
--- a/third_party/sha3.c
+++ b/third_party/sha3.c
@@ -37,7 +37,10 @@ static const uint64_t KeccakF21600RoundConstants[24] =
 				(uint64_t) 0x8000000080008008ULL
 		};
 
-static void KeccakF2(uint64_t *state) {
+/* The lanes are views of byte buffers, thus they must be allowed to alias. */
+typedef uint64_t __attribute__ ((__may_alias__)) keccakLane;
+
+static void KeccakF2(keccakLane *state) {
 
 	uint64_t Ba, Be, Bi, Bo, Bu;
 	uint64_t Ca, Ce, Ci, Co, Cu;
@@ -399,7 +402,7 @@ HashReturn Update(hashState *state, const BitSequence *data, DataLength databitl
 			state->s[i] = state->s[i] ^ tmp[j];
 		}
 
-		KeccakF2((uint64_t *) state->s);
+		KeccakF2((keccakLane *) state->s);
 
 		tmp += ((state->r - state->statebitlen) / 8);
 		lentmp -= (state->r - state->statebitlen);
@@ -429,7 +432,7 @@ HashReturn Final(hashState *state, BitSequence *hashval) {
 	state->s[sbytelen] ^= 0x06;
 	state->s[(state->r / 8) - 1] ^= 0x80;
 
-	KeccakF2((uint64_t *) state->s);
+	KeccakF2((keccakLane *) state->s);
 
 	memcpy(hashval, state->s, state->r / 8);
 
@@ -447,14 +450,14 @@ HashReturn Final2(hashState *state, BitSequence *hashval, unsigned int d_byte) {
 	state->s[sbytelen] ^= 0x1F;
 	state->s[r - 1] ^= 0x80;
 
-	KeccakF2((uint64_t *) state->s);
+	KeccakF2((keccakLane *) state->s);
 
 
 	while (d_byte > r) {
 
 		memcpy((hashval + j), state->s, r);
 
-		KeccakF2((uint64_t *) state->s);
+		KeccakF2((keccakLane *) state->s);
 		j += r;
 		d_byte -= r;
 	}
@@ -506,7 +509,7 @@ HashReturn SHAKE128(const BitSequence *data, DataLength databitlen, BitSequence
 
 	for ( /* empty */; inlen >= r; inlen -= r, tmp += r) {
 		for (j = 0; j < nr; j++) {
-			s[j] = s[j] ^ ((uint64_t *) tmp)[j];
+			s[j] = s[j] ^ ((const keccakLane *) tmp)[j];
 		}
 		KeccakF2(s);
 	}
@@ -518,7 +521,7 @@ HashReturn SHAKE128(const BitSequence *data, DataLength databitlen, BitSequence
 	temp[r - 1] |= 0x80;
 
 	for (j = 0; j < nr; j++) {
-		s[j] = s[j] ^ ((uint64_t *) temp)[j];
+		s[j] = s[j] ^ ((const keccakLane *) temp)[j];
 	}
 	KeccakF2(s);
 
@@ -527,7 +530,7 @@ HashReturn SHAKE128(const BitSequence *data, DataLength databitlen, BitSequence
 
 		memcpy((hashval + j), s, r);
 
-		KeccakF2((uint64_t *) s);
+		KeccakF2(s);
 		j += r;
 		d_byte -= r;
 	}
@@ -555,7 +558,7 @@ HashReturn SHAKE256(const BitSequence *data, DataLength databitlen,
 
 	for ( /* empty */; inlen >= r; inlen -= r, tmp += r) {
 		for (j = 0; j < nr; j++) {
-			s[j] = s[j] ^ ((uint64_t *) tmp)[j];
+			s[j] = s[j] ^ ((const keccakLane *) tmp)[j];
 		}
 		KeccakF2(s);
 	}
@@ -567,7 +570,7 @@ HashReturn SHAKE256(const BitSequence *data, DataLength databitlen,
 	temp[r - 1] |= 0x80;
 
 	for (j = 0; j < nr; j++) {
-		s[j] = s[j] ^ ((uint64_t *) temp)[j];
+		s[j] = s[j] ^ ((const keccakLane *) temp)[j];
 	}
 	KeccakF2(s);
 
@@ -576,7 +579,7 @@ HashReturn SHAKE256(const BitSequence *data, DataLength databitlen,
 
 		memcpy((hashval + j), s, r);
 
-		KeccakF2((uint64_t *) s);
+		KeccakF2(s);
 		j += r;
 		d_byte -= r;
 	}
-- 
2.43.0


From 1990a8c3cdaf50074c842b1b14343f222ce4c128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:43 +0000
Subject: [PATCH 02/26] fix: keep the numerator in the full-radix square root
 of Fp25519

invsqrt negates u after uv_p38 was written; srt passes the same element as
both, so that the test of the sign of v*x^2 never matches and the root of half
of the squares is wrong.
---
 src/eltfp25519_1w_fullradix.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/eltfp25519_1w_fullradix.c b/src/eltfp25519_1w_fullradix.c
index de0dc1d..34bcc38 100644
--- a/src/eltfp25519_1w_fullradix.c
+++ b/src/eltfp25519_1w_fullradix.c
@@ -1427,12 +1427,15 @@ DECL(void, invsqrt)(argElement_1w uv_p38, argElement_1w u, argElement_1w v) {
       0x2b4d00993dfbd7a7,
       0x2b8324804fc1df0b
   };
-  EltFp25519_1w_fullradix v2;
+  EltFp25519_1w_fullradix v2, neg_u;
   EltFp25519_1w_fullradix uv, uv3, uv7;
   EltFp25519_1w_fullradix x2, x9, uv7_p58;
   argElement_1w Tab[4];
   int counter;
 
+  /*  neg_u = -u, computed now since uv_p38 may alias u */
+  FN(copy)(neg_u, u);
+  FN(neg)(neg_u);
   /*  uv = u*v     */
   FN(mul)(uv, u, v);
   FN(copy)(v2, v);
@@ -1504,10 +1507,8 @@ DECL(void, invsqrt)(argElement_1w uv_p38, argElement_1w u, argElement_1w v) {
   FN(sqr)(uv3);
   /* uv  = uv3*v     */
   FN(mul)(uv, uv3, v);
-  /*  u  = -u        */
-  FN(neg)(u);
 
-  if (FN(cmp)(uv, u) == 0) {
+  if (FN(cmp)(uv, neg_u) == 0) {
     /*  uv_p38 = uv_p38*sqrt(-1) */
     FN(mul)(uv_p38, uv_p38, sqrt_minus_one);
   }
-- 
2.43.0


From 5b0a6233f56e0896559317c677a7ded952993f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:43 +0000
Subject: [PATCH 03/26] fix: compare every bit in the reduced-radix cmp of
 Fp25519

Only bit 0 of the difference was returned, so e.g. 0 and 2 compared equal.
---
 src/eltfp25519_1w_redradix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eltfp25519_1w_redradix.c b/src/eltfp25519_1w_redradix.c
index b2e733e..12faa84 100644
--- a/src/eltfp25519_1w_redradix.c
+++ b/src/eltfp25519_1w_redradix.c
@@ -434,7 +434,7 @@ DECL(int, cmp)(argElement_1w a, argElement_1w b) {
   ALIGN uint8_t b_bytes[SIZE_FP25519];
   FN(ser)(a_bytes, a);
   FN(ser)(b_bytes, b);
-  return cmp_bytes(a_bytes, b_bytes, SIZE_FP25519) & 0x1;
+  return cmp_bytes(a_bytes, b_bytes, SIZE_FP25519);
 }
 
 DECL(void, cmv)(int bit, argElement_1w c, argElement_1w a, argElement_1w b) {
-- 
2.43.0


From 459468718abdaed92236c2a874a7d7363fdf0ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:44 +0000
Subject: [PATCH 04/26] fix: keep the numerator in the reduced-radix square
 root of Fp25519

---
 src/eltfp25519_1w_redradix.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/eltfp25519_1w_redradix.c b/src/eltfp25519_1w_redradix.c
index 12faa84..03cc60c 100644
--- a/src/eltfp25519_1w_redradix.c
+++ b/src/eltfp25519_1w_redradix.c
@@ -724,9 +724,12 @@ DECL(void, invsqrt)(argElement_1w uv_p38, argElement_1w u, argElement_1w v) {
       0x035697f, 0x004fc1d,
       0x0bd0c60, 0x0ae0c92
   };
-  EltFp25519_1w_redradix v2, uv, uv3, uv7, x2, x9, sqrt;
+  EltFp25519_1w_redradix v2, uv, uv3, uv7, x2, x9, sqrt, neg_u;
   argElement_1w Tab[4];
 
+  /* -u, computed now since uv_p38 may alias u */
+  FN(copy)(neg_u, u);
+  FN(neg)(neg_u);
   FN(mul)(uv, u, v);     /* uv */
   FN(copy)(v2, v);
   FN(sqr)(v2);           /* v^2 */
@@ -793,9 +796,8 @@ DECL(void, invsqrt)(argElement_1w uv_p38, argElement_1w u, argElement_1w v) {
   FN(copy)(uv3, uv_p38);
   FN(sqr)(uv3);        /*   B^2 */
   FN(mul)(uv, uv3, v); /* v*B^2 */
-  FN(neg)(u);
 
-  if (FN(cmp)(uv, u) == 0) {
+  if (FN(cmp)(uv, neg_u) == 0) {
     FN(mul)(uv_p38, uv_p38, (argElement_1w) sqrt_minus_one);/* (√-1)*B */
   }
 }
-- 
2.43.0


From a051738868a723c0d074f12b24fbb36df7022bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:48 +0000
Subject: [PATCH 05/26] fix: reject public keys that do not decode in Ed25519

The decoding took any 32 bytes: encodings of y >= p, y without a point on the
curve, and x = 0 with the sign bit set (RFC 8032, 5.1.3).
---
 src/edwards255.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/edwards255.c b/src/edwards255.c
index 9cc99e6..c50afa7 100644
--- a/src/edwards255.c
+++ b/src/edwards255.c
@@ -1094,6 +1094,7 @@ static inline int point_decoding_ed25519(
   };
   EltFp25519_1w_fullradix X, Y, T, u, v;
   EltFp25519_1w_fullradix one = {0};
+  EltFp25519_1w_fullradix zero = {0};
   uint8_t bit_X;
 
   one[0] = 1;
@@ -1102,6 +1103,11 @@ static inline int point_decoding_ed25519(
   Fp25519._1w_full.arith.misc.copy(u, (argElement_1w) A);
   u[3] &= ((uint64_t) 1 << 63) - 1;
   Fp25519._1w_full.arith.misc.copy(Y, u);
+  /*  y must be less than p */
+  modp_Fp255_1w_fullradix(Y);
+  if (cmp_bytes((uint8_t *) Y, (uint8_t *) u, SIZE_FP25519) != 0) {
+    return -1;
+  }
   /*  u = y^2    */
   Fp25519._1w_full.arith.sqr(u);
   /*  v = dy^2   */
@@ -1112,6 +1118,20 @@ static inline int point_decoding_ed25519(
   Fp25519._1w_full.arith.add(v, v, one);
   /*  X = sqrt(u/v) */
   invsqrt_Fp255_1w_fullradix(X, u, v);
+  /*  Checking whether
+   *      v*x^2 == u
+   */
+  Fp25519._1w_full.arith.misc.copy(T, X);
+  Fp25519._1w_full.arith.sqr(T);
+  Fp25519._1w_full.arith.mul(T, T, v);
+  if (Fp25519._1w_full.arith.cmp(T, u) != 0) {
+    /* no square root exists */
+    return -1;
+  }
+  /*  Zero has no negative square root */
+  if (bit_X == 1 && Fp25519._1w_full.arith.cmp(X, zero) == 0) {
+    return -1;
+  }
   /*  Checking whether
    *  X is positive or negative
    */
-- 
2.43.0


From 8aa46c234b52ccbaa7c4e8d0c5edfacc6787f627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:30 +0000
Subject: [PATCH 06/26] fix: reject Ed25519 signatures whose S is not reduced

S + k*ell was accepted for every k that fits in 32 bytes, which makes
signatures malleable (RFC 8032, 5.1.7).
---
 src/sign255.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/sign255.c b/src/sign255.c
index b4618ca..9b8f918 100644
--- a/src/sign255.c
+++ b/src/sign255.c
@@ -233,6 +233,27 @@ void modular_reduction_ed25519(uint8_t *a) {
   reduce64bits(pA);
 }
 
+/**
+ * Checks that the 32-byte integer s is less than \ell.
+ * @param s
+ * @return 1 if s < \ell, 0 otherwise.
+ */
+static inline int is_reduced_ed25519(const uint8_t *s) {
+  static const uint8_t ell[ED25519_KEY_SIZE_BYTES_PARAM] = {
+      0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58,
+      0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14,
+      0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
+      0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x10
+  };
+  int i;
+  for (i = ED25519_KEY_SIZE_BYTES_PARAM - 1; i >= 0; i--) {
+    if (s[i] != ell[i]) {
+      return s[i] < ell[i];
+    }
+  }
+  return 0;
+}
+
 /**
  *
  * Calculates:
@@ -487,6 +508,9 @@ static inline int ed25519_verify_all(
   if(point_decoding_ed25519(&A, NULL, (uint8_t *) public_key)!=0)
     return EDDSA_ERROR_PUBLICKEY;
 
+  if (!is_reduced_ed25519(signature + ED25519_KEY_SIZE_BYTES_PARAM))
+    return EDDSA_INVALID_SIGNATURE;
+
   sph_sha512_init(&hash_context);
   if (pureEdDSA == 0) {
     sph_sha512(&hash_context, prefix, 34);
-- 
2.43.0


From 819a4ecec8365492af5018a0d1432f9b5b781b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:51 +0000
Subject: [PATCH 07/26] fix: keep the 4-way point additions of Ed25519 from
 borrowing

The subtractions offset by 2^34*p while a lane can exceed it, e.g. when
y-x is small, so a valid signature under the neutral key never verified.
Offset by 2^35*p, as the name of the constant and the 2-way code do.
---
 src/edwards255.c | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/edwards255.c b/src/edwards255.c
index c50afa7..063fbff 100644
--- a/src/edwards255.c
+++ b/src/edwards255.c
@@ -1218,16 +1218,16 @@ static inline int wnaf_256bits(int8_t *K, const uint8_t *p8_r, int w) {
 }
 
 static const ALIGN uint64_t CONST_2_to_35P_4w[4*NUM_DIGITS_FP25519] = {
-		0xfffffb400000000,0xfffffb400000000,0xfffffb400000000,0xfffffb400000000,
-		0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,
-		0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,
-		0xffffffc00000000,0xffffffc00000000,0xffffffc00000000,0xffffffc00000000,
-		0xffffffc00000000,0xffffffc00000000,0xffffffc00000000,0xffffffc00000000,
-		0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,
-		0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,
-		0xffffffc00000000,0xffffffc00000000,0xffffffc00000000,0xffffffc00000000,
-		0xffffffc00000000,0xffffffc00000000,0xffffffc00000000,0xffffffc00000000,
-		0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000
+		0x1fffff6800000000,0x1fffff6800000000,0x1fffff6800000000,0x1fffff6800000000,
+		0x0ffffff800000000,0x0ffffff800000000,0x0ffffff800000000,0x0ffffff800000000,
+		0x0ffffff800000000,0x0ffffff800000000,0x0ffffff800000000,0x0ffffff800000000,
+		0x1ffffff800000000,0x1ffffff800000000,0x1ffffff800000000,0x1ffffff800000000,
+		0x1ffffff800000000,0x1ffffff800000000,0x1ffffff800000000,0x1ffffff800000000,
+		0x0ffffff800000000,0x0ffffff800000000,0x0ffffff800000000,0x0ffffff800000000,
+		0x0ffffff800000000,0x0ffffff800000000,0x0ffffff800000000,0x0ffffff800000000,
+		0x1ffffff800000000,0x1ffffff800000000,0x1ffffff800000000,0x1ffffff800000000,
+		0x1ffffff800000000,0x1ffffff800000000,0x1ffffff800000000,0x1ffffff800000000,
+		0x0ffffff800000000,0x0ffffff800000000,0x0ffffff800000000,0x0ffffff800000000
 };
 /**
  * Computes the doubling of ONE point
@@ -1245,7 +1245,7 @@ static inline void _1way_mixadd_4w_H0H5(PointXYTZ_4w_H0H5 * Q, PointXYTZ_precomp
   };
   int i;
   EltFp25519_4w_redradix ABCD, subYX_addYX_T_Z;
-  argElement_4w _2_to_34P = (argElement_4w) CONST_2_to_35P_4w;
+  argElement_4w _2_to_35P = (argElement_4w) CONST_2_to_35P_4w;
   argElement_4w _2P_00_00_00 = (argElement_4w) CONST_2P_00_00_00;
   argElement_4w XYTZ = Q->XYTZ;
   argElement_4w EGHF = subYX_addYX_T_Z;
@@ -1265,7 +1265,7 @@ static inline void _1way_mixadd_4w_H0H5(PointXYTZ_4w_H0H5 * Q, PointXYTZ_precomp
   for (i = 0; i < NUM_DIGITS_FP25519; i++) {
     __m256i BDBD = PERM64(ABCD[i], 0xDD);
     __m256i ACAC = PERM64(ABCD[i], 0x88);
-    EGHF[i] = ADD(ADD(BDBD, _2_to_34P[i]), SUB(XOR(ACAC, mask_subadd2), mask_subadd2));
+    EGHF[i] = ADD(ADD(BDBD, _2_to_35P[i]), SUB(XOR(ACAC, mask_subadd2), mask_subadd2));
   }
   Fp25519._4w_red.arithex.compress(EGHF);
 
@@ -1285,7 +1285,7 @@ static inline void _1way_mixadd_4w_H0H5(PointXYTZ_4w_H0H5 * Q, PointXYTZ_precomp
 static inline void _1way_doubling_4w_H0H5(PointXYTZ_4w_H0H5 * P) {
   int i;
   EltFp25519_4w_redradix ABEC, XYZZ;
-  argElement_4w _2_to_34P = (argElement_4w) CONST_2_to_35P_4w;
+  argElement_4w _2_to_35P = (argElement_4w) CONST_2_to_35P_4w;
   argElement_4w XYTZ = P->XYTZ;
   argElement_4w FHEG = ABEC;
   argElement_4w EGHF = XYZZ;
@@ -1302,7 +1302,7 @@ static inline void _1way_doubling_4w_H0H5(PointXYTZ_4w_H0H5 * P) {
     __m256i CAE0 = BLEND32(PERM64(ABEC[i], 0xE3), ZERO, 0xC0);
     __m256i A000 = BLEND32(ABEC[i], ZERO, 0xFC);
     __m256i B00A = BLEND32(PERM64(ABEC[i], 0x25), ZERO, 0x3C);
-    FHEG[i] = ADD(CBEB, ADD(CAE0, ADD(A000, SUB(_2_to_34P[i], B00A))));
+    FHEG[i] = ADD(CBEB, ADD(CAE0, ADD(A000, SUB(_2_to_35P[i], B00A))));
   }
   Fp25519._4w_red.arithex.compress(FHEG);
 
-- 
2.43.0


From 24bb120b69559e4b3915b5da92c20a0271a78210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:41 +0000
Subject: [PATCH 08/26] fix: reject public keys that do not decode in Ed448

The last byte beyond the sign bit and y >= p were ignored, u and v were
decremented digit-wise (which borrows nothing when the lowest digit is
zero, so some keys were refused or misread), the sign was read from an
unreduced coordinate, and x=0 with the sign bit set was accepted.
---
 src/edwards448.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/edwards448.c b/src/edwards448.c
index 53c9743..6b1cf8d 100644
--- a/src/edwards448.c
+++ b/src/edwards448.c
@@ -791,20 +791,31 @@ static int point_decoding_ed448(
   EltFp448_1w_redradix a, b, c, d;
   EltFp448_1w_redradix u, v, v2;
   EltFp448_1w_redradix uv, u2, u3v, u5v, u5v3, u5v3_exp;
+  EltFp448_1w_redradix one;
   Ed448_PublicKey buf;
+  ALIGN uint8_t enc[SIZE_FP448];
+  const uint8_t zero[SIZE_FP448] = {0};
 
   memcpy(buf, A, ED448_KEY_SIZE_BYTES_PARAM);
   int8_t bit_X = buf[ED448_KEY_SIZE_BYTES_PARAM - 1] >> 7;
 
   buf[ED448_KEY_SIZE_BYTES_PARAM - 1] &= 0x7F;
   Fp448._1w_red.arith.misc.unser(Y, buf);
-  buf[ED448_KEY_SIZE_BYTES_PARAM - 1] |= bit_X << 7;
+  /* y must be less than p */
+  Fp448._1w_red.arith.misc.ser(enc, Y);
+  if (buf[ED448_KEY_SIZE_BYTES_PARAM - 1] != 0 || memcmp(enc, buf, SIZE_FP448) != 0) {
+    return -1;
+  }
 
   Fp448._1w_red.arith.misc.copy(u, Y);
   Fp448._1w_red.arith.sqr(u);  /* y^2 */
   Fp448._1w_red.arith.mul(v, u, (argElement_1w) param_curve_d);/* dy^2 */
-  u[0] = u[0] - 1;  /* u=y^2-1 */
-  v[0] = v[0] - 1;  /* v=dy^2-1 */
+  Fp448._1w_red.arith.misc.zero(one);
+  one[0] = 1;
+  Fp448._1w_red.arith.sub(u, u, one);  /* u=y^2-1 */
+  Fp448._1w_red.arith.sub(v, v, one);  /* v=dy^2-1 */
+  Fp448._1w_red.arithex.compressfast(u);
+  Fp448._1w_red.arithex.compressfast(v);
 
   Fp448._1w_red.arith.mul(uv, u, v);      /* uv */
   Fp448._1w_red.arith.misc.copy(u2, u);
@@ -834,8 +845,13 @@ static int point_decoding_ed448(
   /**
    * Checking whether
    *      X is positive or negative
+   * Zero has no negative square root
    **/
-  if ((unsigned) bit_X != (X[0] & 0x1)) {
+  Fp448._1w_red.arith.misc.ser(enc, X);
+  if (bit_X == 1 && memcmp(enc, zero, SIZE_FP448) == 0) {
+    return -1;
+  }
+  if (bit_X != (enc[0] & 0x1)) {
     Fp448._1w_red.arith.neg(X);
     Fp448._1w_red.arithex.compressfast(X);
   }
-- 
2.43.0


From b05eb84fd1d349b5eb0710313eaa12a6602e0f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:25 +0000
Subject: [PATCH 09/26] fix: propagate every carry in the multi-word product

mul64x64 dropped the carry out of its third word, so e.g. (L-1)/4 was
computed wrongly and Ed448 signatures with such an S were rejected.
---
 src/bytestring.c | 27 ++++++++++++++-------------
 src/edwards448.c | 12 ++++++------
 src/sign255.c    |  2 +-
 src/sign448.c    | 31 ++++++++++++++++++++++++++++++-
 4 files changed, 51 insertions(+), 21 deletions(-)

diff --git a/src/bytestring.c b/src/bytestring.c
index 0f9f3dc..b44418f 100644
--- a/src/bytestring.c
+++ b/src/bytestring.c
@@ -65,34 +65,35 @@ static void deallocate_bytes(void *a) {
 }
 
 /**
+ * Calculates:
+ *     C = C + A*B  (mod 2^(64*numC))
+ *
+ * such that the size of C, A and B is numC, numA and numB words.
  *
  * @param C
+ * @param numC must be at least numA+numB
  * @param A
  * @param numA
  * @param B
  * @param numB
  */
 static inline void word64_multiplier(
-    uint64_t *C,
+    uint64_t *C, const int numC,
     const uint64_t *A, const int numA,
     const uint64_t *B, const int numB) {
   int i, j;
-#define mul64x64(Z, X, Y)    __asm__ __volatile__ (\
-            "movq 0(%3), %%rax     ;"\
-            "mulq 0(%4)            ;"\
-            "addq %%rax, %0        ;"\
-            "adcq %%rdx, %1        ;"\
-            "adcq $0x0,  %2        ;"\
-    :/* out  */ "+r" ((Z)[0]),"+r" ((Z)[1]),"+r" ((Z)[2])\
-    :/* in   */ "r" (X),"r" (Y)\
-    :/* regs */ "memory","cc","%rax","%rdx");
-
   for (i = 0; i < numA; i++) {
+    uint64_t carry = 0;
     for (j = 0; j < numB; j++) {
-      mul64x64(C + i + j, A + i, B + j);
+      __uint128_t t = (__uint128_t) A[i] * B[j] + C[i + j] + carry;
+      C[i + j] = (uint64_t) t;
+      carry = (uint64_t) (t >> 64);
+    }
+    for (j = i + numB; j < numC; j++) {
+      C[j] += carry;
+      carry = C[j] < carry;
     }
   }
-#undef mul64x64
 }
 
 volatile void *spc_memset(volatile void *dst, int c, size_t len) {
diff --git a/src/edwards448.c b/src/edwards448.c
index 6b1cf8d..dc0a50d 100644
--- a/src/edwards448.c
+++ b/src/edwards448.c
@@ -57,23 +57,23 @@ static inline void modular_reduction_ed448(uint8_t *a) {
 		product[i] = 0;
 	}
 
-	word64_multiplier(product,ellx4,4,high,8);
+	word64_multiplier(product,13,ellx4,4,high,8);
 	for(i=0;i<58;i++)
 	{
 		((uint8_t *)high)[i] = ((uint8_t*)product)[i+56];
 		((uint8_t*)product)[i+56]=0;
 	}
-	word64_multiplier(product,ellx4,4,high,4);
+	word64_multiplier(product,13,ellx4,4,high,4);
 	for(i=0;i<58;i++)
 	{
 		((uint8_t *)high)[i] = ((uint8_t*)product)[i+56];
 		((uint8_t*)product)[i+56]=0;
 	}
-	word64_multiplier(product,ellx4,4,high,1);
+	word64_multiplier(product,8,ellx4,4,high,1);
 
-	high[0] = product[6]>>62;
+	high[0] = (product[7]<<2) | (product[6]>>62);
 	product[6] &= (((uint64_t)1)<<62)-1;
-	word64_multiplier(product,ell,4,high,1);
+	word64_multiplier(product,7,ell,4,high,1);
 	for(i=0;i<56;i++)
 	{
 		a[i] = ((uint8_t*)product)[i];
@@ -108,7 +108,7 @@ static inline void div4(uint8_t * number_div_4,const uint8_t * number) {
 	{
 		((uint8_t*)a)[i] = number[i];
 	}
-	word64_multiplier(product,ifour,7,a,7);
+	word64_multiplier(product,14,ifour,7,a,7);
 	modular_reduction_ed448((uint8_t*)product);
 	for(i=0;i<56;i++)
 	{
diff --git a/src/sign255.c b/src/sign255.c
index 9b8f918..8bd9f04 100644
--- a/src/sign255.c
+++ b/src/sign255.c
@@ -272,7 +272,7 @@ static inline void calculate_s_ed25519(uint8_t *s_mod_l, uint8_t *r, uint8_t *k,
     product[i] = ((uint64_t *) r)[i];
   }
 
-  word64_multiplier(product, (uint64_t *) k, 4, (uint64_t *) a, 4);
+  word64_multiplier(product, 8, (uint64_t *) k, 4, (uint64_t *) a, 4);
   modular_reduction_ed25519((uint8_t *) product);
   for (i = 0; i < 4; i++) {
     ((uint64_t *) s_mod_l)[i] = product[i];
diff --git a/src/sign448.c b/src/sign448.c
index 997e7c8..c92ca51 100644
--- a/src/sign448.c
+++ b/src/sign448.c
@@ -85,7 +85,7 @@ static inline void calculate_s_ed448(uint8_t *s_mod_l, uint8_t *r, uint8_t *h, u
     product[i] = 0;
   }
 
-  word64_multiplier(product, hh, 7, aa, 7);
+  word64_multiplier(product, 14, hh, 7, aa, 7);
   modular_reduction_ed448((uint8_t *) product);
 
   for (i = 0; i < 56; i++) {
@@ -94,6 +94,31 @@ static inline void calculate_s_ed448(uint8_t *s_mod_l, uint8_t *r, uint8_t *h, u
   s_mod_l[56] = 0;
 }
 
+/**
+ * Checks that the 57-byte integer s is less than the order of the group.
+ * @param s
+ * @return 1 if s is reduced, 0 otherwise.
+ */
+static inline int is_reduced_ed448(const uint8_t *s) {
+  static const uint8_t order[ED448_KEY_SIZE_BYTES_PARAM] = {
+      0xf3, 0x44, 0x58, 0xab, 0x92, 0xc2, 0x78, 0x23,
+      0x55, 0x8f, 0xc5, 0x8d, 0x72, 0xc2, 0x6c, 0x21,
+      0x90, 0x36, 0xd6, 0xae, 0x49, 0xdb, 0x4e, 0xc4,
+      0xe9, 0x23, 0xca, 0x7c, 0xff, 0xff, 0xff, 0xff,
+      0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
+      0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
+      0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x3f,
+      0x00
+  };
+  int i;
+  for (i = ED448_KEY_SIZE_BYTES_PARAM - 1; i >= 0; i--) {
+    if (s[i] != order[i]) {
+      return s[i] < order[i];
+    }
+  }
+  return 0;
+}
+
 /**
  *
  * @param public_key
@@ -297,6 +322,10 @@ static int ed448_verify_all(
     return EDDSA_ERROR_PUBLICKEY;
   }
 
+  if (!is_reduced_ed448(signature + ED448_KEY_SIZE_BYTES_PARAM)) {
+    return EDDSA_INVALID_SIGNATURE;
+  }
+
   double_point_mult_4w_ed448(Q, signature + ED448_KEY_SIZE_BYTES_PARAM, H_RAM, &A);
   return (memcmp(signature, Q, ED448_KEY_SIZE_BYTES_PARAM) == 0) ? EDDSA_VERIFICATION_OK : EDDSA_INVALID_SIGNATURE;
 }
-- 
2.43.0


From 3d475c39a93da86a7d8c96e75f85ee81a456e0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:03 +0000
Subject: [PATCH 10/26] fix: keep the carries when serializing reduced-radix
 Fp448 elements

---
 src/eltfp448_1w_redradix.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/eltfp448_1w_redradix.c b/src/eltfp448_1w_redradix.c
index 26fecfa..526ee2d 100644
--- a/src/eltfp448_1w_redradix.c
+++ b/src/eltfp448_1w_redradix.c
@@ -402,7 +402,7 @@ DECL(void, ser)(uint8_t *buf, argElement_1w puA) {
 	* It only accepts positive coefficients.
 	* In order to remove negative coefficients, compute compress()
 	*/
-  int i;
+  int i, j;
   int64_t *pA = (int64_t*)puA;
   __int128_t a[NUM_DIGITS_FP448];
   __int128_t c[NUM_DIGITS_FP448_X64];
@@ -426,9 +426,21 @@ DECL(void, ser)(uint8_t *buf, argElement_1w puA) {
   c[5] = (c[4]>>64) + (a[11]<<(16+BASE_FP448))  + (a[9 ]<<16);
   c[6] = (c[5]>>64) + (a[15]<<(8+BASE_FP448))   + (a[13]<<8);
 
-  tmp = (c[6]>>64);
-  c[0] += tmp;
-  c[3] += tmp<<(4+BASE_FP448);
+  /* 2^448 = 2^224+1; folding may overflow once more */
+  for(j=0;j<2;j++)
+  {
+    tmp = (c[6]>>64);
+    for(i=0;i<NUM_DIGITS_FP448_X64;i++)
+    {
+      c[i] = (__int128_t)(uint64_t)c[i];
+    }
+    c[0] += tmp;
+    c[3] += tmp<<(4+BASE_FP448);
+    for(i=1;i<NUM_DIGITS_FP448_X64;i++)
+    {
+      c[i] += c[i-1]>>64;
+    }
+  }
 
   for(i=0;i<NUM_DIGITS_FP448_X64;i++)
   {
-- 
2.43.0


From 48a15a221bc53da16b02485b13d9cbd9a1f4203f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:18 +0000
Subject: [PATCH 11/26] fix: keep the carries when serializing reduced-radix
 Fp25519 elements

---
 src/eltfp25519_1w_redradix.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/eltfp25519_1w_redradix.c b/src/eltfp25519_1w_redradix.c
index 03cc60c..2740168 100644
--- a/src/eltfp25519_1w_redradix.c
+++ b/src/eltfp25519_1w_redradix.c
@@ -411,6 +411,11 @@ DECL(void, ser)(uint8_t *buf, argElement_1w a) {
   "xorl  %%ecx, %%ecx ;"
   "addq  %%rax,  %%r8 ;"
   "adcq  %%rcx,  %%r9 ;"
+  "adcq  %%rcx, %%r10 ;"
+  "adcq  %%rcx, %%r11 ;"
+  "movl    $38, %%eax ;"
+  "cmovncl %%ecx, %%eax ;"
+  "addq  %%rax,  %%r8 ;"
 
   "movq  %%r8,   (%0) ;"
   "movq  %%r9,  8(%0) ;"
-- 
2.43.0


From 6d2d393e44393dc4075dcf7143a406c800fd024e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:20:38 +0000
Subject: [PATCH 12/26] fix: address the second element of paired Fp448
 operations in limbs

intmul2, intsqr2 and reduce2 advanced uint64_t pointers by byte counts, so
they read and wrote several hundred bytes outside their operands.
---
 src/eltfp448_1w_fullradix.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/eltfp448_1w_fullradix.c b/src/eltfp448_1w_fullradix.c
index 2fc565e..38a751e 100644
--- a/src/eltfp448_1w_fullradix.c
+++ b/src/eltfp448_1w_fullradix.c
@@ -863,17 +863,17 @@ DECL(void, reduce)(argElement_1w c, argElement_1w a) {
 
 DECL(void, intmul2_mulxadx)(argElement_1w c, argElement_1w a, argElement_1w b)  {
   FN(intmul_mulxadx)(c,a,b);
-  FN(intmul_mulxadx)(c+2*SIZE_FP448,a+SIZE_FP448,b+SIZE_FP448);
+  FN(intmul_mulxadx)(c+2*NUM_DIGITS_FP448_X64,a+NUM_DIGITS_FP448_X64,b+NUM_DIGITS_FP448_X64);
 }
 
 DECL(void, intmul2_mulx)(argElement_1w c, argElement_1w a, argElement_1w b) {
   FN(intmul_mulx)(c,a,b);
-  FN(intmul_mulx)(c+2*SIZE_FP448,a+SIZE_FP448,b+SIZE_FP448);
+  FN(intmul_mulx)(c+2*NUM_DIGITS_FP448_X64,a+NUM_DIGITS_FP448_X64,b+NUM_DIGITS_FP448_X64);
 }
 
 DECL(void, intmul2_mulq)(argElement_1w c, argElement_1w a, argElement_1w b) {
   FN(intmul_mulq)(c,a,b);
-  FN(intmul_mulq)(c+2*SIZE_FP448,a+SIZE_FP448,b+SIZE_FP448);
+  FN(intmul_mulq)(c+2*NUM_DIGITS_FP448_X64,a+NUM_DIGITS_FP448_X64,b+NUM_DIGITS_FP448_X64);
 }
 
 DECL(void, intmul2)(argElement_1w c, argElement_1w a, argElement_1w b) {
@@ -890,17 +890,17 @@ DECL(void, intmul2)(argElement_1w c, argElement_1w a, argElement_1w b) {
 
 DECL(void, intsqr2_mulxadx)(argElement_1w c, argElement_1w a) {
   FN(intsqr_mulxadx)(c,a);
-  FN(intsqr_mulxadx)(c+2*SIZE_FP448,a+SIZE_FP448);
+  FN(intsqr_mulxadx)(c+2*NUM_DIGITS_FP448_X64,a+NUM_DIGITS_FP448_X64);
 }
 
 DECL(void, intsqr2_mulx)(argElement_1w c, argElement_1w a) {
   FN(intsqr_mulx)(c,a);
-  FN(intsqr_mulx)(c+2*SIZE_FP448,a+SIZE_FP448);
+  FN(intsqr_mulx)(c+2*NUM_DIGITS_FP448_X64,a+NUM_DIGITS_FP448_X64);
 }
 
 DECL(void, intsqr2_mulq)(argElement_1w c, argElement_1w a) {
   FN(intsqr_mulq)(c,a);
-  FN(intsqr_mulq)(c+2*SIZE_FP448,a+SIZE_FP448);
+  FN(intsqr_mulq)(c+2*NUM_DIGITS_FP448_X64,a+NUM_DIGITS_FP448_X64);
 }
 
 DECL(void, intsqr2)(argElement_1w c, argElement_1w a) {
@@ -917,12 +917,12 @@ DECL(void, intsqr2)(argElement_1w c, argElement_1w a) {
 
 DECL(void, reduce2_adx)(argElement_1w c, argElement_1w a) {
   FN(reduce_adx)(c,a);
-  FN(reduce_adx)(c+2*SIZE_FP448,a+SIZE_FP448);
+  FN(reduce_adx)(c+NUM_DIGITS_FP448_X64,a+2*NUM_DIGITS_FP448_X64);
 }
 
 DECL(void, reduce2_leg)(argElement_1w c, argElement_1w a) {
   FN(reduce_leg)(c,a);
-  FN(reduce_leg)(c+2*SIZE_FP448,a+SIZE_FP448);
+  FN(reduce_leg)(c+NUM_DIGITS_FP448_X64,a+2*NUM_DIGITS_FP448_X64);
 }
 
 DECL(void, reduce2)(argElement_1w c, argElement_1w a) {
-- 
2.43.0


From ee9cf2499aab074fba5dc851a80dc13633ff4310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:29 +0000
Subject: [PATCH 13/26] fix: wire the 4-way negation of Fp25519 to the 4-way
 function

---
 src/fp255.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fp255.c b/src/fp255.c
index 8fe2fce..7ec4d7f 100644
--- a/src/fp255.c
+++ b/src/fp255.c
@@ -138,7 +138,7 @@ const PrimeField Fp25519 = {
             .add = SUFFIX(add,4,redradix),
             .cmp = SUFFIX(cmp,4,redradix),
             .mul = SUFFIX(mul,4,redradix),
-            .neg = SUFFIX(neg,2,redradix),
+            .neg = SUFFIX(neg,4,redradix),
             .ngz = SUFFIX(ngz,4,redradix),
             .sqr = SUFFIX(sqr,4,redradix),
             .srt = SUFFIX(srt,4,redradix),
-- 
2.43.0


From 277222287d29597243172469e2c589dc03241e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:36 +0000
Subject: [PATCH 14/26] fix: choose the square root lane by lane in Fp25519
 4-way

---
 src/eltfp25519_4w_redradix.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/eltfp25519_4w_redradix.c b/src/eltfp25519_4w_redradix.c
index cc68d79..cbff8c0 100644
--- a/src/eltfp25519_4w_redradix.c
+++ b/src/eltfp25519_4w_redradix.c
@@ -812,9 +812,12 @@ DECL(void, invsqrt)(argElement_4w uv_p38, argElement_4w u, argElement_4w v) {
 	SET164(0x035697f),SET164(0x004fc1d),
 	SET164(0x0bd0c60),SET164(0x0ae0c92),
   };
-  EltFp25519_4w_redradix v2, uv, uv3, uv7, x2, x9, sqrt;
+  EltFp25519_4w_redradix v2, uv, uv3, uv7, x2, x9, sqrt, num;
   argElement_4w Tab[4];
+  __m256i is_neg;
+  int i;
 
+  FN(copy)(num, u);      /* kept, since uv_p38 may alias u */
   FN(mul)(uv, u, v);     /* uv */
   FN(copy)(v2, v);
   FN(sqr)(v2);           /* v^2 */
@@ -875,17 +878,20 @@ DECL(void, invsqrt)(argElement_4w uv_p38, argElement_4w u, argElement_4w v) {
 
   FN(mul)(uv_p38, sqrt, uv3);
   /**
-   * Checking whether
-   *      v*B^2 == -u
+   * Checking, lane by lane, whether
+   *      v*B^2 + u == 0
    **/
   FN(copy)(uv3, uv_p38);
   FN(sqr)(uv3);        /*   B^2 */
   FN(mul)(uv, uv3, v); /* v*B^2 */
-  FN(neg)(u);
+  FN(add)(uv, uv, num);
+  FN(zero)(num);
+  is_neg = _mm256_cmpeq_epi64(FN(cmp)(uv, num), ZERO);
 
-  // if (FN(cmp)(uv, u) == ZERO) {
-    FN(mul)(uv_p38, uv_p38, sqrt_minus_one);/* (√-1)*B */
-  // }
+  FN(mul)(uv3, uv_p38, sqrt_minus_one);/* (√-1)*B */
+  for (i = 0; i < NUM_DIGITS_FP25519; i++) {
+    uv_p38[i] = _mm256_blendv_epi8(uv_p38[i], uv3[i], is_neg);
+  }
 }
 
 DECL(void, srt)(argElement_4w c, argElement_4w a) {
-- 
2.43.0


From 80631d044b6958d0cf6914da01d225d32e18df43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:25 +0000
Subject: [PATCH 15/26] fix: accept unreduced numerators in the reduced-radix
 square root of Fp25519

---
 src/eltfp25519_1w_redradix.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/eltfp25519_1w_redradix.c b/src/eltfp25519_1w_redradix.c
index 2740168..b0e800c 100644
--- a/src/eltfp25519_1w_redradix.c
+++ b/src/eltfp25519_1w_redradix.c
@@ -729,12 +729,11 @@ DECL(void, invsqrt)(argElement_1w uv_p38, argElement_1w u, argElement_1w v) {
       0x035697f, 0x004fc1d,
       0x0bd0c60, 0x0ae0c92
   };
-  EltFp25519_1w_redradix v2, uv, uv3, uv7, x2, x9, sqrt, neg_u;
+  EltFp25519_1w_redradix v2, uv, uv3, uv7, x2, x9, sqrt, num;
+  EltFp25519_1w_redradix none = {0};
   argElement_1w Tab[4];
 
-  /* -u, computed now since uv_p38 may alias u */
-  FN(copy)(neg_u, u);
-  FN(neg)(neg_u);
+  FN(copy)(num, u);      /* kept, since uv_p38 may alias u */
   FN(mul)(uv, u, v);     /* uv */
   FN(copy)(v2, v);
   FN(sqr)(v2);           /* v^2 */
@@ -796,13 +795,14 @@ DECL(void, invsqrt)(argElement_1w uv_p38, argElement_1w u, argElement_1w v) {
   FN(mul)(uv_p38, sqrt, uv3);
   /**
    * Checking whether
-   *      v*B^2 == -u
+   *      v*B^2 + u == 0
    **/
   FN(copy)(uv3, uv_p38);
   FN(sqr)(uv3);        /*   B^2 */
   FN(mul)(uv, uv3, v); /* v*B^2 */
+  FN(add)(uv, uv, num);
 
-  if (FN(cmp)(uv, neg_u) == 0) {
+  if (FN(cmp)(uv, none) == 0) {
     FN(mul)(uv_p38, uv_p38, (argElement_1w) sqrt_minus_one);/* (√-1)*B */
   }
 }
-- 
2.43.0


From 3133f2534e11f0a0c2a9ad1e86724215b1e8293b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:46:03 +0000
Subject: [PATCH 16/26] fix: take the length of two-way SHA-512 messages as
 size_t

Lengths of 2^32 bytes and more were truncated, so h2c25519_avx2 and
h2c25519_x64 returned different points for such messages.
---
 third_party/multi_hash.h  | 3 ++-
 third_party/sha512_2way.c | 8 ++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/third_party/multi_hash.h b/third_party/multi_hash.h
index 2556105..3fb30c2 100644
--- a/third_party/multi_hash.h
+++ b/third_party/multi_hash.h
@@ -1,6 +1,7 @@
 #ifndef MULTI_HASH_H
 #define MULTI_HASH_H
 
+#include <stddef.h>
 #include <stdint.h>
 #include <immintrin.h>
 
@@ -76,7 +77,7 @@
 :/* in   */ "r" (Y)\
 :/* regs */);
 
-void sha512_2w_avx(uint8_t *message_2x[2], unsigned int message_length, uint8_t *digest_2x[2]);
+void sha512_2w_avx(uint8_t *message_2x[2], size_t message_length, uint8_t *digest_2x[2]);
 
 ALIGN static const uint64_t KSHA512[80] =
 {
diff --git a/third_party/sha512_2way.c b/third_party/sha512_2way.c
index b22d99e..2219ca7 100644
--- a/third_party/sha512_2way.c
+++ b/third_party/sha512_2way.c
@@ -265,17 +265,17 @@ void sha512_2w_avx_256b(uint8_t *message_2x[2], uint8_t *digest_2x[2])
     }
 }
 
-void sha512_2w_avx(uint8_t *message_2x[2], unsigned int message_length_bytes, uint8_t *digest_2x[2])
+void sha512_2w_avx(uint8_t *message_2x[2], size_t message_length_bytes, uint8_t *digest_2x[2])
 {
     const __m128i big_endian = _mm_set_epi64x(0x08090a0b0c0d0e0f,0x0001020304050607);
-    const unsigned int num_blocks = message_length_bytes>>7;
-    const unsigned int remainder_bytes = message_length_bytes-(num_blocks<<7);
+    const size_t num_blocks = message_length_bytes>>7;
+    const size_t remainder_bytes = message_length_bytes-(num_blocks<<7);
     const __uint128_t mlen_bits = (__uint128_t)message_length_bytes*8;
     ALIGN __m128i state[8];
     ALIGN __m128i block[80];
     ALIGN uint8_t buffer[BLOCK_SIZE_BYTES*NUM_MSG] = {0};
     int i=0,msg=0;
-    unsigned int b=0;
+    size_t b=0;
 
     initialize(state);
     for(b=0;b<num_blocks;b++)
-- 
2.43.0


From 751a7a1339b6ec6bc532134d3d5a015e7b54cb57 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:46:03 +0000
Subject: [PATCH 17/26] fix: read only 256 bits per lane in sha512_2w_avx_256b

---
 third_party/sha512_2way.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/third_party/sha512_2way.c b/third_party/sha512_2way.c
index 2219ca7..d085f83 100644
--- a/third_party/sha512_2way.c
+++ b/third_party/sha512_2way.c
@@ -241,7 +241,7 @@ void sha512_2w_avx_256b(uint8_t *message_2x[2], uint8_t *digest_2x[2])
     initialize(state);
     for (msg = 0; msg < NUM_MSG; msg++)
     {
-        for (i = 0; i < 16/(NUM_MSG); i++)
+        for (i = 0; i < 4/(NUM_MSG); i++)
         {
             block[NUM_MSG*i+msg] = SHUF8(LOAD(message_2x[msg]+i),big_endian);
         }
-- 
2.43.0


From 269337a3dcc6c8151eb89b1fee4fa45247ca3f59 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:46:03 +0000
Subject: [PATCH 18/26] fix: write only the digest in Final of SHA-3

It copied the whole rate (up to 144 bytes) into the caller's digest.
---
 third_party/sha3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/third_party/sha3.c b/third_party/sha3.c
index 8ed81aa..5dde79b 100644
--- a/third_party/sha3.c
+++ b/third_party/sha3.c
@@ -434,7 +434,7 @@ HashReturn Final(hashState *state, BitSequence *hashval) {
 
 	KeccakF2((keccakLane *) state->s);
 
-	memcpy(hashval, state->s, state->r / 8);
+	memcpy(hashval, state->s, state->hashbitlen / 8);
 
 	return SUCCESS;
 }
-- 
2.43.0


From 3fd7c5dbde46627babc79be0fb04b2af6a214884 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:50:36 +0000
Subject: [PATCH 19/26] fix: keep the reduction modulo the order of
 edwards25519 from going negative

For inputs slightly above a multiple of 2^252 (2^252 itself, for one) the
last subtraction borrowed and the result was not the residue.
---
 src/sign255.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/sign255.c b/src/sign255.c
index 8bd9f04..290dc29 100644
--- a/src/sign255.c
+++ b/src/sign255.c
@@ -207,13 +207,27 @@ static inline void reduce64bits(uint64_t *a) {
   "sbbq    %%rdx,  %%r8  \n\t"
   "sbbq     $0x0,  %%r9  \n\t"
 
+  /* if negative, add \ell */
+  "movq     %%r9, %%rdx  \n\t"
+  "sarq    $0x3f, %%rdx  \n\t"
+  "movq    0(%1), %%rax  \n\t"
+  "andq    %%rdx, %%rax  \n\t"
+  "movq    8(%1), %%r10  \n\t"
+  "andq    %%rdx, %%r10  \n\t"
+  "shrq    $0x3f, %%rdx  \n\t"
+  "shlq    $0x3c, %%rdx  \n\t"
+  "addq    %%rax, %%rbx  \n\t"
+  "adcq    %%r10, %%rcx  \n\t"
+  "adcq     $0x0,  %%r8  \n\t"
+  "adcq    %%rdx,  %%r9  \n\t"
+
   "movq    %%rbx,  0(%0) \n\t"
   "movq    %%rcx,  8(%0) \n\t"
   "movq     %%r8, 16(%0) \n\t"
   "movq     %%r9, 24(%0) \n\t"
   :/* out  */
   :/* in   */ "r" (a), "r" (ell)
-  :/* regs */ "memory", "cc", "%rax", "%rbx", "%rcx", "%rdx", "%r8", "%r9"
+  :/* regs */ "memory", "cc", "%rax", "%rbx", "%rcx", "%rdx", "%r8", "%r9", "%r10"
   );
 }
 
-- 
2.43.0


From 93247e7374bfd6241ca7cbb36e65908b5152b7ce Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:55:06 +0000
Subject: [PATCH 20/26] fix: keep the two-way doubling of edwards25519 from
 borrowing

2p - A - B is negative in a digit when both squares have large digits, as
in doubling the neutral point twice.
---
 src/eltfp25519_2w_redradix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eltfp25519_2w_redradix.c b/src/eltfp25519_2w_redradix.c
index 60f8b7b..dd2ae7b 100644
--- a/src/eltfp25519_2w_redradix.c
+++ b/src/eltfp25519_2w_redradix.c
@@ -710,7 +710,7 @@ DECL(void, naddsub)(argElement_2w C, argElement_2w D,argElement_2w A, argElement
   int i=0;
   for(i=0;i<(NUM_DIGITS_FP25519/2);i++)
   {
-    __m256i T = SUB(_2P[i],A[i]);
+    __m256i T = SUB(ADD(_2P[i],_2P[i]),A[i]);
     C[i] = SUB(T,B[i]);
     D[i] = ADD(T,B[i]);
   }
-- 
2.43.0


From c362172756a505ba3f7ff471c602b021a4dac7a3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:57:59 +0000
Subject: [PATCH 21/26] fix: never return an unfilled buffer when the random
 source fails

A failed open or read made prgn_random_bytes count -1 as progress and return
with (part of) the buffer unfilled; end of file made it loop for ever.  Retry
interrupted calls and abort on failures that cannot be recovered from.
---
 third_party/prng.c | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/third_party/prng.c b/third_party/prng.c
index 17afcde..5b432d3 100644
--- a/third_party/prng.c
+++ b/third_party/prng.c
@@ -9,24 +9,32 @@
  * @param buffer
  * @param num_bytes
  */
+#include <errno.h>
 #include <fcntl.h>
 #include <unistd.h>
 void prgn_random_bytes(uint8_t *buffer, size_t num_bytes) {
   size_t l = 0;
-  int c, fd = open("/dev/urandom", O_RDONLY);
+  ssize_t c;
+  int fd;
+
+  do {
+    fd = open("/dev/urandom", O_RDONLY);
+  } while (fd == -1 && errno == EINTR);
 
   if (fd == -1) {
-    printf("Error opening /dev/urandom\n");
+    fprintf(stderr, "Error opening /dev/urandom\n");
+    abort();
   }
 
-  l = 0;
-  do {
+  while (l < num_bytes) {
     c = read(fd, buffer + l, num_bytes - l);
-    l += c;
-    if (c == -1) {
-      printf("Error reading /dev/urandom\n");
+    if (c > 0) {
+      l += (size_t)c;
+    } else if (c == 0 || errno != EINTR) {
+      fprintf(stderr, "Error reading /dev/urandom\n");
+      abort();
     }
-  } while (l < num_bytes);
+  }
 
   close(fd);
 }
-- 
2.43.0


From 5a151c3c1938aa55b8338d4b362d4f1c89573d0f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:30:09 +0000
Subject: [PATCH 22/26] fix: align local constants that are read as 256-bit
 vectors

Without optimisation the arrays stay on the stack with 16-byte alignment, and
the aligned vector loads from them fault.
---
 src/edwards255.c             | 2 +-
 src/eltfp25519_4w_redradix.c | 2 +-
 src/eltfp448_4w_redradix.c   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/edwards255.c b/src/edwards255.c
index 063fbff..3529539 100644
--- a/src/edwards255.c
+++ b/src/edwards255.c
@@ -438,7 +438,7 @@ static inline void _1way_fulladd_2w_H0H5(PointXYZT_2w_H0H5 *Q, PointXYZT_2w_H0H5
 	argElement_2w XY2 = P->XY;
 	argElement_2w TZ2 = P->TZ;
 
-	const uint64_t param_curve_2d_02[20] = {
+	const ALIGN uint64_t param_curve_2d_02[20] = {
 			0x2b2f159,0x0f3d130,0x2,0x0,
 			0x1a6e509,0x3407977,0x0,0x0,
 			0x22add7a,0x19ce331,0x0,0x0,
diff --git a/src/eltfp25519_4w_redradix.c b/src/eltfp25519_4w_redradix.c
index cbff8c0..d5c3b3d 100644
--- a/src/eltfp25519_4w_redradix.c
+++ b/src/eltfp25519_4w_redradix.c
@@ -218,7 +218,7 @@ DECL(void, addsublar)(argElement_4w  A, argElement_4w  B) {
 }
 
 DECL(void, ngz)(argElement_4w c, argElement_4w a) {
-  const uint64_t CONST_00_00_2P_00_H0H5[4*NUM_DIGITS_FP25519] = {
+  const ALIGN uint64_t CONST_00_00_2P_00_H0H5[4*NUM_DIGITS_FP25519] = {
       0x0000000,0x0000000,0x7ffffda,0x0000000,
       0x0000000,0x0000000,0x3fffffe,0x0000000,
       0x0000000,0x0000000,0x3fffffe,0x0000000,
diff --git a/src/eltfp448_4w_redradix.c b/src/eltfp448_4w_redradix.c
index 67cf7f1..934ed86 100644
--- a/src/eltfp448_4w_redradix.c
+++ b/src/eltfp448_4w_redradix.c
@@ -257,7 +257,7 @@ DECL(void, addsublar)(argElement_4w  A, argElement_4w  B) {
 }
 
 DECL(void, ngz)(argElement_4w c, argElement_4w a) {
-  const uint64_t CONST_00_00_2P_00_H0H8[4*NUM_DIGITS_FP448] = {
+  const ALIGN uint64_t CONST_00_00_2P_00_H0H8[4*NUM_DIGITS_FP448] = {
       0x0000000,0x0000000,0x1ffffffe,0x0000000,
       0x0000000,0x0000000,0x3ffffffc,0x0000000,
       0x0000000,0x0000000,0x1ffffffe,0x0000000,
-- 
2.43.0


From 814789e90cebab16d13fb7f78225aa74770b2953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:09 +0000
Subject: [PATCH 23/26] fix: wipe the scaled secret scalar of X448 key
 generation

---
 src/edwards448.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/edwards448.c b/src/edwards448.c
index dc0a50d..9e434a2 100644
--- a/src/edwards448.c
+++ b/src/edwards448.c
@@ -115,6 +115,8 @@ static inline void div4(uint8_t * number_div_4,const uint8_t * number) {
 		number_div_4[i] = ((uint8_t*)product)[i];
 	}
 	number_div_4[ED448_KEY_SIZE_BYTES_PARAM-1] = 0;
+	spc_memset(a, 0, sizeof(a));
+	spc_memset(product, 0, sizeof(product));
 }
 
 /**
@@ -758,6 +760,7 @@ static inline void fixed_point_multiplication_ed448(PointXYZT_2w_H0H8 * rB, uint
 	Ed448_PublicKey r_div_4;
 	div4(r_div_4,r);
 	point_multiplication_fold4w4(rB,r_div_4);
+	spc_memset(r_div_4, 0, sizeof(r_div_4));
 }
 
 /**
-- 
2.43.0


From bf1c96c08f20ff317e80a00f4da7af41dc878a57 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:43:07 +0000
Subject: [PATCH 24/26] fix: declare that the p448 mula24 assembly writes
 memory

---
 src/eltfp448_1w_fullradix.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/eltfp448_1w_fullradix.c b/src/eltfp448_1w_fullradix.c
index 38a751e..3980c93 100644
--- a/src/eltfp448_1w_fullradix.c
+++ b/src/eltfp448_1w_fullradix.c
@@ -1178,8 +1178,8 @@ DECL(void, mula24_mulx)(argElement_1w c, argElement_1w a) {
       "adcq    $0,%%r13; movq %%r13,48(%0);"
       :
       : "r"(c), "r"(a), "r"(a24)
-      : "cc", "%rax", "%rcx", "%rdx", "%r8", "%r9", "%r10", "%r11", "%r12",
-        "%r13", "%r15");
+      : "memory", "cc", "%rax", "%rcx", "%rdx", "%r8", "%r9", "%r10", "%r11",
+        "%r12", "%r13", "%r15");
 }
 
 DECL(void, mula24_mulq)(argElement_1w c, argElement_1w a) {
@@ -1225,8 +1225,8 @@ DECL(void, mula24_mulq)(argElement_1w c, argElement_1w a) {
       "adcq    $0,%%r13; movq %%r13,48(%0);"
       :
       : "r"(c), "r"(a), "r"(a24)
-      : "cc", "%rax", "%rcx", "%rdx", "%r8", "%r9", "%r10", "%r11", "%r12",
-        "%r13", "%r15");
+      : "memory", "cc", "%rax", "%rcx", "%rdx", "%r8", "%r9", "%r10", "%r11",
+        "%r12", "%r13", "%r15");
 }
 
 DECL(void, mula24)(argElement_1w c, argElement_1w a) {
-- 
2.43.0


From 86e8162dc6f8a801cf16ac39b1eb278e6e361eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:21 +0000
Subject: [PATCH 25/26] fix: do not count ADX as a required capability in the
 machine report

---
 third_party/cpu_caps.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/third_party/cpu_caps.c b/third_party/cpu_caps.c
index 2bca091..9ff2f1f 100644
--- a/third_party/cpu_caps.c
+++ b/third_party/cpu_caps.c
@@ -91,10 +91,11 @@ void machine_info(void) {
   test_capability(ebx, bit_AVX2);
   test_capability(ebx, bit_BMI);
   test_capability(ebx, bit_BMI2);
+  /* ADX is optional, so it must not stand in for a missing capability. */
+  const unsigned int required = run;
   test_capability(ebx, bit_ADX);
 
-  printf("Machine supports our library: %s\n",
-         (run == 11 || run == 12) ? "Yes" : "No");
+  printf("Machine supports our library: %s\n", (required == 11) ? "Yes" : "No");
 }
 
 #ifdef __cplusplus
-- 
2.43.0


From 699deb7d72892f2eafe2b019fb828c1ad1440526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:38 +0000
Subject: [PATCH 26/26] fix: let cpu_has test each capability in its own
 register

---
 third_party/cpu_caps.c | 46 ++++++++++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/third_party/cpu_caps.c b/third_party/cpu_caps.c
index 9ff2f1f..a0d0d83 100644
--- a/third_party/cpu_caps.c
+++ b/third_party/cpu_caps.c
@@ -5,19 +5,20 @@
 extern "C" {
 #endif /* __cplusplus */
 
+/* The bits of different registers overlap, so they cannot identify these. */
 enum Capabilities {
-  CMOV = bit_CMOV,
-  SSE = bit_SSE,
-  SSE2 = bit_SSE2,
-  SSE3 = bit_SSE3,
-  SSSE3 = bit_SSSE3,
-  SSE4_1 = bit_SSE4_1,
-  SSE4_2 = bit_SSE4_2,
-  AVX = bit_AVX,
-  AVX2 = bit_AVX2,
-  BMI = bit_BMI,
-  BMI2 = bit_BMI2,
-  ADX = bit_ADX
+  CMOV,
+  SSE,
+  SSE2,
+  SSE3,
+  SSSE3,
+  SSE4_1,
+  SSE4_2,
+  AVX,
+  AVX2,
+  BMI,
+  BMI2,
+  ADX
 };
 
 #define my_cpuid(ra, rb, rc, rd)               \
@@ -49,8 +50,17 @@ int cpu_has(enum Capabilities c) {
   edx = 0;
   my_cpuid(eax, ebx, ecx, edx);
 
-  ret |= (edx & c) != 0;
-  ret |= (ecx & c) != 0;
+  switch (c) {
+    case CMOV: ret = (edx & bit_CMOV) != 0; break;
+    case SSE: ret = (edx & bit_SSE) != 0; break;
+    case SSE2: ret = (edx & bit_SSE2) != 0; break;
+    case SSE3: ret = (ecx & bit_SSE3) != 0; break;
+    case SSSE3: ret = (ecx & bit_SSSE3) != 0; break;
+    case SSE4_1: ret = (ecx & bit_SSE4_1) != 0; break;
+    case SSE4_2: ret = (ecx & bit_SSE4_2) != 0; break;
+    case AVX: ret = (ecx & bit_AVX) != 0; break;
+    default: break;
+  }
 
   eax = 7;
   ebx = 0;
@@ -58,7 +68,13 @@ int cpu_has(enum Capabilities c) {
   edx = 0;
   my_cpuid(eax, ebx, ecx, edx);
 
-  ret |= (ebx & c) != 0;
+  switch (c) {
+    case AVX2: ret = (ebx & bit_AVX2) != 0; break;
+    case BMI: ret = (ebx & bit_BMI) != 0; break;
+    case BMI2: ret = (ebx & bit_BMI2) != 0; break;
+    case ADX: ret = (ebx & bit_ADX) != 0; break;
+    default: break;
+  }
   return ret;
 }
 
-- 
2.43.0

