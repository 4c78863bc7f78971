#!/usr/bin/env python3
# Writes properties.jsonl and MANIFEST.json from the table below.  A property is
# claimed when checks/<id>.cpp exists; otherwise it is listed under not_applicable.
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
P = []
def prop(id, title, statement, over, qtext, why, files, mech, level, tech, note, na=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  level=level, tech=tech, note=note, na=na, observe=observe))

ENUM = "bounded-exhaustive explicit enumeration of the real code against a mathematical reference model"
REFN = ("Every case of the stated finite space is executed on the code built from the working tree and compared with a GMP/standards reference model "
        "(itself checked against published vectors in setup). Nothing is claimed for inputs outside the space.")

prop("C01", "Scalar 64-bit field arithmetic modulo 2^255-19 is exact",
 "Addition, subtraction, negation, multiplication, squaring, multiplication by the Montgomery constant, the unreduced integer products and squares and the modular reductions of the 64-bit representation return a value congruent modulo 2^255-19 to (for the integer products and squares: equal to) the mathematical result. This holds for every operand that fits the representation, including unreduced ones up to 2^256-1, and whichever documented aliasing of result and operands the caller uses.",
 ["inputs"], "all pairs of 256-bit operands, all 512-bit reduction inputs, aliasings of result and operands",
 "The tests compare a few thousand uniformly random operands; wrong carries show up on operand patterns of probability 2^-50 or less.",
 ["src/eltfp25519_1w_fullradix.c", "src/fp255.c", "include/faz_fp_avx2.h"],
 [("carry chains of add/sub/mul/sqr/reduce", "src/eltfp25519_1w_fullradix.c"), ("operation table", "src/fp255.c")],
 "exploration", ENUM + " (limb corner alphabets, targeted products and reductions, aliasings, ISA variants)", REFN)

prop("C02", "Vectorised field arithmetic modulo 2^255-19 is exact in every lane",
 "For the one-, two- and four-lane vector representations, every arithmetic operation returns in each lane a value congruent modulo 2^255-19 to the mathematical result for that lane, independently of the contents of the other lanes. This holds along any sequence of operations that respects the documented compression points, whatever the values.",
 ["inputs", "programs"], "all operand digit patterns per lane, all short operation sequences with their compression points",
 "Tests draw random reduced operands for single operations; overflow of a digit needs extreme digits, particular lanes and particular operation sequences.",
 ["src/eltfp25519_1w_redradix.c", "src/eltfp25519_2w_redradix.c", "src/eltfp25519_4w_redradix.c", "src/fp255.c"],
 [("digit multiplication and carry compression", "src/eltfp25519_4w_redradix.c"), ("lane (de)interleaving", "src/eltfp25519_2w_redradix.c")],
 "exploration", ENUM + " (digit corner alphabets, lane placements and breadth-first operation sequences)", REFN)

prop("C03", "Scalar 64-bit field arithmetic modulo 2^448-2^224-1 is exact",
 "Addition, subtraction, negation, multiplication, squaring, the integer products and squares, multiplication by the Montgomery constant and modular reduction of the 64-bit representation return a value congruent modulo 2^448-2^224-1 to (for the integer products and squares: equal to) the mathematical result. This holds for every operand that fits the representation, including unreduced ones up to 2^448-1, and whichever aliasing of result and operands the caller uses.",
 ["inputs"], "all pairs of 448-bit operands, all 896-bit reduction inputs, aliasings",
 "The tests compare uniformly random operands; carry defects need operand patterns of negligible probability.",
 ["src/eltfp448_1w_fullradix.c", "src/fp448.c"],
 [("carry chains of add/sub/mul/sqr/reduce", "src/eltfp448_1w_fullradix.c")],
 "exploration", ENUM + " (limb corner alphabets, targeted products and reductions, aliasings, ISA variants)", REFN)

prop("C04", "Vectorised field arithmetic modulo 2^448-2^224-1 is exact in every lane",
 "For the one-, two- and four-lane vector representations, every arithmetic operation returns in each lane a value congruent modulo 2^448-2^224-1 to the mathematical result for that lane, independently of the contents of the other lanes. This holds along any sequence of operations that respects the documented compression points.",
 ["inputs", "programs"], "all operand digit patterns per lane, all short operation sequences with their compression points",
 "No test exercises the multi-lane code of this field directly; digit overflow needs extreme digits.",
 ["src/eltfp448_1w_redradix.c", "src/eltfp448_2w_redradix.c", "src/eltfp448_4w_redradix.c", "src/fp448.c"],
 [("digit multiplication and carry compression", "src/eltfp448_4w_redradix.c")],
 "exploration", ENUM + " (digit corner alphabets, lane placements and breadth-first operation sequences)", REFN)

prop("C05", "Field encoding, comparison, sign and conditional move are canonical",
 "In both fields and in every representation that offers them, serialization writes the unique little-endian encoding of the residue below the modulus, deserialization followed by serialization returns the residue of the bytes, comparison distinguishes exactly different residues, the sign is the parity of the canonical residue, and the conditional move copies the whole element when the bit is 1 and nothing when it is 0. This holds for every internal form of a residue, including unreduced ones.",
 ["inputs"], "all byte strings and all internal forms of a residue",
 "Non-canonical forms (values in [p, 2^n), single differing high bits) have negligible probability under the random tests.",
 ["src/eltfp25519_1w_fullradix.c", "src/eltfp25519_1w_redradix.c", "src/eltfp25519_2w_redradix.c", "src/eltfp25519_4w_redradix.c", "src/eltfp448_1w_fullradix.c", "src/eltfp448_1w_redradix.c", "src/eltfp448_2w_redradix.c", "src/eltfp448_4w_redradix.c"],
 [("final reduction before output", "src/eltfp25519_1w_fullradix.c"), ("digit packing", "src/eltfp448_1w_redradix.c")],
 "exploration", ENUM + " (values around multiples of p, every single-bit difference, every bit and digit position)", REFN)

prop("C06", "Field inversion and square root satisfy their defining equations",
 "In both fields, inversion returns the multiplicative inverse of every non-zero residue and zero for zero. Where a quotient square root is offered, the result r satisfies d*r^2 = n whenever n/d is a square; where an inverse square root is offered, the result r satisfies d*r^2 = 1 whenever d is a non-zero square. All hold in every representation that offers them, lane by lane, and for unreduced operands.",
 ["inputs"], "all residues and internal forms of them",
 "The tests invert random residues and hardly exercise the square root, which was wrong for most numerators.",
 ["src/eltfp25519_1w_fullradix.c", "src/eltfp25519_1w_redradix.c", "src/eltfp25519_4w_redradix.c", "src/eltfp448_1w_fullradix.c", "src/eltfp448_1w_redradix.c", "src/fp255.c", "src/fp448.c"],
 [("addition chains for p-2 and the root exponent", "src/eltfp25519_1w_fullradix.c")],
 "exploration", ENUM + " (all small and near-modulus residues, powers of two, quotient pairs of every quadratic character)", REFN)

prop("C07", "X25519 shared secrets equal RFC 7748 for every secret and peer value",
 "For every 32-byte secret and every 32-byte peer value - non-canonical, with the top bit set, of low order, or on the twist - both X25519 variants compute exactly the RFC 7748 X25519 function and return the all-zero output where that function does. The result may be written over either input.",
 ["inputs"], "all pairs of 32-byte secret and 32-byte u-coordinate",
 "Tests use the RFC vectors and random pairs; low-order, non-canonical and carry-extreme inputs are not reached.",
 ["src/dh255.c", "src/ladder255.c", "src/eltfp25519_1w_fullradix.c", "src/eltfp25519_2w_redradix.c"],
 [("Montgomery ladder (two variants)", "src/ladder255.c"), ("clamping and masking", "src/dh255.c")],
 "exploration", ENUM + " (special u alphabet x scalar alphabet, both variants)", REFN)

prop("C08", "X25519 public keys equal RFC 7748 scalar multiplication of the base point",
 "For every 32-byte secret, key generation of both X25519 variants outputs X25519(secret, 9) as RFC 7748 defines it, and it agrees with the shared-secret function applied to the base point. The secret is not modified unless the public key is written over it, which works as well.",
 ["inputs"], "all 32-byte secrets",
 "Random secrets cannot reach every entry of the precomputed tables at every digit position with every carry.",
 ["src/dh255.c", "src/ladder255.c"],
 [("fixed-base ladder with a table of multiples", "src/ladder255.c")],
 "exploration", ENUM + " (every single bit, every byte position x byte value, runs, clamping)", REFN)

prop("C09", "X448 key generation and shared secrets equal RFC 7748",
 "For every 56-byte secret and every 56-byte peer value - non-canonical, of low order, or on the twist - X448 computes exactly the RFC 7748 X448 function, and key generation equals that function at u = 5. The result may be written over an input.",
 ["inputs"], "all pairs of 56-byte secret and 56-byte u-coordinate",
 "Tests use RFC vectors; no test explores peers around the modulus or extreme scalars.",
 ["src/dh448.c", "src/ladder448.c", "src/eltfp448_1w_fullradix.c", "src/eltfp448_2w_redradix.c"],
 [("Montgomery ladder", "src/ladder448.c"), ("clamping", "src/dh448.c")],
 "exploration", ENUM + " (special u alphabet x scalar alphabet)", REFN)

prop("C10", "Diffie-Hellman agreement between every pair of parties and variants",
 "For all secrets a and b, the secret computed from a and the public key of b equals the one computed from b and the public key of a, for X25519 in either variant on either side and for X448. Outputs depend only on the two inputs, not on earlier calls, the contents of the output buffer, or the bits that clamping ignores.",
 ["inputs", "histories"], "all pairs of secrets, all pairs of variants, all histories of earlier calls",
 "Tests agree on random pairs within one variant and in fixed order.",
 ["src/dh255.c", "src/dh448.c", "src/ladder255.c", "src/ladder448.c"],
 [("scalar multiplication in both variants", "src/ladder255.c")],
 "exploration", "bounded-exhaustive enumeration of protocol runs (all secret pairs x variant pairs x call orders) on the real code", REFN)

prop("C11", "Ed25519 key generation and signing equal RFC 8032 in all three modes",
 "For every secret, message and context, Ed25519 key generation and the pure, context and pre-hash signing operations output exactly the bytes RFC 8032 prescribes and report success. Message and context may have any length the mode admits, including zero.",
 ["inputs"], "all secrets, messages of every length, contexts of every length up to 255",
 "Tests run RFC vectors: few nonces, so table entries, digit carries and message/context block boundaries are sampled, not covered.",
 ["src/sign255.c", "src/ed255.c", "src/edwards255.c", "third_party/sha512.c"],
 [("fixed-base multiplication with two tables", "src/edwards255.c"), ("scalar reduction and product modulo L", "src/sign255.c")],
 "exploration", ENUM + " (every digit of every position of the fixed-base recoding, all message/context lengths over block boundaries)", REFN)

prop("C12", "Ed25519 verification accepts exactly what RFC 8032 accepts",
 "Ed25519 verification in all three modes accepts a signature when key and R decode, S is below the group order and the RFC 8032 equation holds, and rejects when S is not below the group order, the key does not decode, R is not the encoding of a curve point, or the equation fails even after multiplication by the cofactor. Where only the cofactored equation holds either answer is allowed, as RFC 8032 does. An undecodable key is reported as a public-key error and any other rejection as an invalid signature.",
 ["inputs"], "all keys, signatures, messages and contexts",
 "Tests verify valid signatures and a few random corruptions; undecodable or small-order keys, S >= L and non-canonical encodings are not reached.",
 ["src/sign255.c", "src/ed255.c", "src/edwards255.c"],
 [("point decoding", "src/edwards255.c"), ("double-scalar multiplication and comparison", "src/edwards255.c"), ("range check of S", "src/sign255.c")],
 "exploration", ENUM + " (every single-bit corruption, special keys and R, S around multiples of L, constructed scalars)", REFN)

prop("C13", "Ed448 key generation and signing equal RFC 8032 in both modes",
 "For every secret, message and context, Ed448 key generation and the pure and pre-hash signing operations output exactly the bytes RFC 8032 prescribes and report success. Message and context may have any length the mode admits, including zero.",
 ["inputs"], "all secrets, messages of every length, contexts of every length up to 255",
 "Tests run RFC vectors only.",
 ["src/sign448.c", "src/ed448.c", "src/edwards448.c", "third_party/sha3.c"],
 [("fixed-base multiplication through the isogenous curve", "src/edwards448.c"), ("scalar arithmetic modulo L", "src/sign448.c")],
 "exploration", ENUM + " (every digit of every position of the fixed-base recoding, all message/context lengths over block boundaries)", REFN)

prop("C14", "Ed448 verification accepts exactly what RFC 8032 accepts",
 "Ed448 verification in both modes accepts a signature when key and R decode, S is below the group order and the RFC 8032 equation holds, and rejects when S is not below the group order, the key does not decode, R is not the encoding of a curve point, or the equation fails even after multiplication by the cofactor. Where only the cofactored equation holds either answer is allowed, as RFC 8032 does. An undecodable key is reported as a public-key error and any other rejection as an invalid signature.",
 ["inputs"], "all keys, signatures, messages and contexts",
 "Tests verify RFC vectors; undecodable keys, S >= L, and non-canonical encodings are not reached.",
 ["src/sign448.c", "src/ed448.c", "src/edwards448.c"],
 [("point decoding", "src/edwards448.c"), ("double-scalar multiplication and comparison", "src/edwards448.c"), ("range check of S", "src/sign448.c")],
 "exploration", ENUM + " (every single-bit corruption, special keys and R, S around multiples of L, constructed scalars)", REFN)

prop("C15", "Signature modes and contexts are separated and over-long contexts refused",
 "A signature produced under one signature scheme, mode and context string verifies under that scheme, mode and context and under no other one, except where RFC 8032 makes the signed bytes identical. A context longer than 255 octets is refused with the context error by signing and by verification in every mode that takes one, and no signature is produced.",
 ["inputs", "configurations"], "all pairs of (mode, context) for signing and verifying, context lengths beyond 255",
 "Tests use one context per vector and never cross-verify or exceed 255 octets.",
 ["src/ed255.c", "src/ed448.c", "src/sign255.c", "src/sign448.c", "include/faz_eddsa_avx2.h"],
 [("domain prefix hashing", "src/sign255.c"), ("context length checks", "src/ed255.c")],
 "exploration", ENUM + " (all ordered pairs of modes and contexts, all lengths around 255 and 256 multiples)", REFN)

prop("C16", "SHA-512 equals FIPS 180-4 for every message and every split of it",
 "The streaming SHA-512 (and SHA-384) returns the FIPS 180-4 digest of the concatenation of the pieces it absorbed, for every message length and every way of splitting the message into pieces, including empty ones. The length encoding in the padding is right for messages of any length.",
 ["inputs", "histories"], "all messages up to the length limit and all splits into update calls",
 "Tests hash whole short messages; block-boundary splits and the high half of the length counter are not exercised.",
 ["third_party/sha512.c", "third_party/sha512.h"],
 [("buffering and padding", "third_party/sha512.c"), ("128-bit length counter", "third_party/sha512.c")],
 "model_checking", "explicit-state search over all update histories (buffer fill x piece length) of the real streaming code, conformance with a FIPS 180-4 model", REFN)

prop("C17", "SHA-3 and SHAKE equal FIPS 202 for every message, split and output length",
 "SHA3-224/256/384/512 and SHAKE128/256, through the streaming and the one-shot interfaces, return the FIPS 202 output of the concatenation of the absorbed byte pieces, for every message length, every split into pieces and every output length. Exactly the digest, or the requested number of output bytes, is written.",
 ["inputs", "histories"], "all byte messages, all splits, all output lengths",
 "Tests hash RFC 8032 messages through one path; a lane-aliasing defect survived them.",
 ["third_party/sha3.c", "third_party/sha3.h"],
 [("sponge absorption and padding", "third_party/sha3.c"), ("squeezing", "third_party/sha3.c")],
 "model_checking", "explicit-state search over all absorb/squeeze histories of the real sponge code, conformance with a FIPS 202 model", REFN)

prop("C18", "Two-way vectorised SHA-512 equals SHA-512 in both lanes",
 "Hashing two messages of equal length at once returns, for each of them, exactly the FIPS 180-4 SHA-512 digest, for every length and independently of the contents of the other message.",
 ["inputs"], "all pairs of messages of equal length",
 "Tests cover a few lengths; the padding has boundary cases at every residue modulo the block length.",
 ["third_party/sha512_2way.c", "third_party/multi_hash.h"],
 [("padding and message schedule in two lanes", "third_party/sha512_2way.c")],
 "exploration", ENUM + " (every length over several blocks x lane placements x message patterns)", REFN)

prop("C19", "Hash-to-curve outputs a point of edwards25519 and both variants agree",
 "For every message the two hash-to-curve implementations return the same point of edwards25519, the point is in the subgroup the cofactor clearing promises, and it equals the published Elligator 2 construction applied to the two SHA-512-derived field elements. The map itself is right for every field element, including 0, the exceptional ones, and unreduced representatives.",
 ["inputs"], "all messages and all field elements as map inputs",
 "Tests check a handful of random messages for curve membership; exceptional inputs of the map have negligible probability.",
 ["src/hash255.c", "include/faz_hash_avx2.h"],
 [("Elligator 2 map (scalar and two-way)", "src/hash255.c"), ("cofactor clearing", "src/hash255.c")],
 "exploration", ENUM + " (all message lengths over block boundaries, special field elements, lane pairs)", REFN)

prop("C20", "Exported Edwards point operations compute the group law",
 "The exported point addition and doubling of edwards25519, in their scalar and vectorised forms, return the group-law result for every pair of curve points, including the identity, equal and opposite points and points of small order. The exported curve-membership and equality predicates answer exactly membership and projective equality, and the exported scalar reduction returns the representative below the group order.",
 ["inputs"], "all pairs of curve points in every projective representation; all 512-bit scalars",
 "Tests call them on random points only.",
 ["src/hash255.c", "src/edwards255.c", "src/sign255.c", "include/edwards255.h"],
 [("extended-coordinate addition and doubling", "src/hash255.c"), ("predicates", "src/hash255.c"), ("Barrett-like scalar reduction", "src/sign255.c")],
 "exploration", ENUM + " (all pairs of a point alphabet x projective scalings; scalars around multiples of the order)", REFN)

prop("C21", "Operations touch only the caller's buffers, for any length and alignment",
 "Every public operation reads only the documented bytes of its inputs and writes only the documented bytes of its outputs, never changes the value of an input, and works for every message and context length (including zero) and every byte alignment of its byte-string arguments. It does not read memory it never initialised in a way that changes the result.",
 ["inputs"], "all argument lengths, alignments, and placements at the edge of mapped memory",
 "Tests use large aligned buffers, where overruns and alignment assumptions are invisible.",
 ["src/sign255.c", "src/sign448.c", "src/dh255.c", "src/dh448.c", "src/bytestring.c", "third_party/sha512.c", "third_party/sha3.c", "third_party/sha512_2way.c", "src/hash255.c"],
 [("buffer sizes and copies", "src/sign255.c"), ("block loads", "third_party/sha3.c")],
 "exploration", "bounded-exhaustive enumeration of argument placements (guard pages on both sides, all alignments, all lengths) with canaries on the real code", REFN)

prop("C22", "Operations are re-entrant: concurrent calls do not influence each other",
 "Any number of threads may run the public operations at the same time on their own data, and each call returns what it returns when it runs alone, under every interleaving. Streaming hash contexts are independent of each other.",
 ["schedules"], "all interleavings of concurrent calls; all interleavings of operations on separate contexts",
 "Tests are single-threaded.",
 ["src/sign255.c", "src/sign448.c", "src/ladder255.c", "src/ladder448.c", "third_party/sha512.c", "third_party/sha3.c", "third_party/sha512_2way.c", "src/hash255.c"],
 [("absence of shared mutable state", "src/target.c")],
 "model_checking", "stateless exploration of interleavings of the real code under a controlled scheduler with a preemption bound", REFN)

prop("C23", "Secret-dependent operations run in constant time",
 "The instructions executed and the memory addresses accessed by key generation, signing, Diffie-Hellman, hashing and field arithmetic (addition, subtraction, multiplication, squaring, negation, inversion, reduction, conditional move, conversion) do not depend on the values of secret keys or operands, only on public values and lengths. Square roots and comparisons, which serve decoding and verification, are excepted.",
 ["inputs"], "all pairs of secrets of one public shape",
 "Tests observe outputs only; leaks do not change them.",
 ["src/ladder255.c", "src/ladder448.c", "src/edwards255.c", "src/edwards448.c", "src/sign255.c", "src/sign448.c", "src/eltfp25519_1w_fullradix.c", "src/eltfp448_1w_fullradix.c"],
 [("masked table lookups and conditional moves", "src/edwards255.c"), ("ladder swaps", "src/ladder255.c")],
 "exploration", "bounded-exhaustive enumeration of (operation x public input x secret x build) with equality of block, address and divisor traces of the real code", REFN)

prop("C24", "Diffie-Hellman operations leave no copy of the clamped secret behind",
 "When a Diffie-Hellman operation returns, no copy of the clamped secret scalar it worked on, also divided by the cofactor, is left in the stack memory or static memory that it used.",
 ["inputs"], "all secrets, operations and build variants",
 "Tests never inspect dead memory.",
 ["src/ladder255.c", "src/ladder448.c", "src/edwards448.c", "src/bytestring.c"],
 [("explicit wiping that the optimiser may not remove", "src/bytestring.c")],
 "exploration", "bounded-exhaustive enumeration of (operation x secret x build) with a scan of the operation's stack after return", REFN)

prop("C25", "Random bytes are delivered completely or their absence is not silent",
 "Whatever the operating system answers when the random source is opened and read - short reads, interruptions, failures - a request for n random bytes that is reported as satisfied has filled all n bytes from the source, writes no byte beyond them, and leaks no file descriptor. Every library function that draws a random key or field element takes all of it from such a request.",
 ["fault_sequences"], "all sequences of open/read/close outcomes",
 "Tests never inject faults.",
 ["third_party/prng.c", "third_party/prng.h"],
 [("reading the system random source", "third_party/prng.c")],
 "fault_enumeration", "enumeration of all bounded sequences of outcomes of the intercepted system calls on the real code", REFN)

prop("C26", "Results do not depend on compiler, optimisation level or instruction set",
 "Built with either compiler, at any optimisation level and for any instruction-set selection the sources support (with and without the add-carry extensions), and with every setting of the documented choice of conditional swap, the library gives the same, correct results for all of its operations.",
 ["configurations", "inputs"], "all supported build configurations x inputs",
 "Tests run one configuration: the native one, so whole preprocessor branches are never executed.",
 ["src/eltfp25519_1w_fullradix.c", "src/eltfp448_1w_fullradix.c", "src/target.c", "CMakeLists.txt", "third_party/sha512.c"],
 [("alternative instruction sequences selected by feature macros", "src/eltfp25519_1w_fullradix.c")],
 "exploration", "enumeration of build configurations, each run over an exhaustively enumerated case set", REFN)

prop("C27", "Printed keys, signatures, elements and points show exactly their value",
 "Every printing function writes to the given stream, and to nothing else, the value it is handed: byte strings as the prefix 0x followed by two lowercase hexadecimal digits per byte from the most significant to the least, and a newline; field elements, one line per lane, as the hexadecimal number that is congruent to the lane's value in whatever internal form it is held; points by the two coordinates they have. The printed object keeps its value.",
 ["inputs"], "all byte strings, elements in every legal internal form and lane contents, and points",
 "Tests use the output only for human eyes and never parse it.",
 ["src/bytestring.c", "src/eltfp25519_1w_fullradix.c", "src/eltfp25519_2w_redradix.c", "src/eltfp25519_4w_redradix.c", "src/eltfp448_1w_fullradix.c", "src/eltfp448_2w_redradix.c", "src/eltfp448_4w_redradix.c", "src/sign255.c", "src/sign448.c", "src/ladder255.c", "src/ladder448.c", "src/hash255.c"],
 [("hexadecimal output of byte strings", "src/bytestring.c"), ("output of field elements", "src/eltfp25519_4w_redradix.c")],
 "exploration", "bounded-exhaustive enumeration of (printing function x byte position x byte value / element form x lane) on the real code, the text parsed back and compared with the value", REFN)

prop("C28", "The machine report states what the processor announces, on every processor",
 "For every processor the report says of each instruction-set extension it lists whether the processor announces it, and declares the machine supported exactly when all extensions the library cannot do without are present (the add-carry extensions being optional). The query for a single extension gives the same answer and is not confused by other feature bits.",
 ["configurations"], "all sets of announced processor features and all settings of the other feature bits",
 "Tests see the one processor they run on.",
 ["third_party/cpu_caps.c", "third_party/cpu_caps.h"],
 [("feature bits read by the identification instruction", "third_party/cpu_caps.c")],
 "model_checking", "enumeration of all states of a processor model put in front of the compiled code", "The processor is a model (identification leaves 1 and 7); the compiled report and query execute against each of its states, and against the real processor once.")

prop("C29", "Calls keep the calling convention, release resources, survive refused memory",
 "Every public operation returns with the caller's registers, stack pointer, direction flag, floating-point control settings and signal mask unchanged, and its result does not depend on register or flag contents that the calling convention leaves open. It gives back all memory and every descriptor it acquired, on success and on failure. If the system refuses it memory, it never returns a wrong result as if it were right.",
 ["fault_sequences", "configurations", "inputs"], "all operations, all builds, entry states of the machine, and all success/failure sequences of the resources they ask for",
 "Tests are C code compiled around the operation: a clobbered register or a leak only shows when the caller happens to keep something there or calls long enough, and no test refuses memory.",
 ["src/hash255.c", "src/bytestring.c", "src/eltfp25519_1w_fullradix.c", "src/eltfp448_1w_fullradix.c", "src/sign255.c", "third_party/prng.c"],
 [("hand-written assembly and its declared clobbers", "src/eltfp25519_1w_fullradix.c; src/eltfp448_1w_fullradix.c"), ("memory acquired and released by hash-to-field", "src/hash255.c"), ("allocation of byte strings", "src/bytestring.c")],
 "fault_enumeration", "exhaustive enumeration of entry machine states and of resource success/failure sequences over every operation of every build", "Operations are called through a trampoline that owns every register; the allocator is replaced by one that follows each success/failure sequence.")

def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            o = dict(id=p['id'], title=p['title'], statement=p['statement'],
                     quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'],
                     anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']],
                                  observe_at=p['observe'] or [], hook_needed=None))
            f.write(json.dumps(o) + '\n')
    checks, na = [], []
    for p in P:
        if os.path.exists(os.path.join(V, 'checks', p['id'].lower() + '.cpp')):
            checks.append(dict(property=p['id'], quick_cmd='bin/check ' + p['id'],
                               thorough_cmd='VERIF_TIER=thorough bin/check ' + p['id'],
                               evidence_file='evidence/%s.json' % p['id'],
                               technique=p['tech'], level=p['level'], level_note=p['note']))
        else:
            na.append(dict(property=p['id'], reason=p['na'] or 'no check has been built for it yet'))
    m = dict(version=1, setup_cmd='bin/setup', checks=checks, not_applicable=na,
             notes='All checks enumerate executions of the code built from /repo (see DESIGN.md). Defects found in the unchanged tree are in known/findings.txt. No hooks are needed in /repo.')
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1); f.write('\n')
main()
