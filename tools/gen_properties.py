#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Base field Fq arithmetic is exact for every element",
 "For every pair of elements of the 381-bit base field, addition, doubling, subtraction, negation, multiplication, squaring, division, inversion, exponentiation, comparison, parity, Legendre symbol, square root and multiplication by an integer return exactly the result defined by integer arithmetic modulo q, as the canonical representative below q. Inverse and square root report failure exactly when no result exists, and a returned square root squares to its input. Conversion between integers and field elements is a bijection on 0..q-1 and yields no non-zero element for integers at or above q.",
 ["inputs"], "all pairs of field elements and all 384-bit exponents, with the limb boundaries, carry and borrow patterns and values next to 0, q/2 and q as the hard corners; amd64 assembly build and portable build",
 "The tests use a few fixed vectors and 1000 pseudo-random elements, which reach a given limb carry/borrow corner (a limb all zeros or all ones, a sum equal to q, a remainder just below q) with probability about 2^-64.",
 ["fq.go", "fqrepr.go", "stub.go", "stub_fallback.go", "primitivefuncs_amd64.s"],
 [("Montgomery multiplication and conditional subtraction", "fq.go MulAssign, montReduce, reduceAssign"), ("binary extended Euclid inverse", "fq.go Inverse"), ("q = 3 mod 4 square root", "fq.go Sqrt")],
 ["FQ.ToRepr of the result of each exported operation", "the returned success flags"])
prop("C02", "Scalar field Fr arithmetic is exact for every element",
 "For every pair of elements of the 255-bit scalar field, addition, doubling, subtraction, negation, multiplication, squaring, inversion, exponentiation, comparison, parity, Legendre symbol, square root and multiplication by an integer return exactly the result defined by integer arithmetic modulo r, as the canonical representative below r, also when both operands are the same object. Inversion reports failure exactly for zero and square root exactly for non-squares. Conversion between integers, bytes and scalars is a bijection on 0..r-1, integers at or above r are rejected, and no conversion or operation changes its argument or disturbs a later operation.",
 ["inputs", "histories"], "all pairs of scalars and all 256-bit exponents, including limb-boundary and carry corners, and operation sequences up to a bounded length",
 "One scalar test exists (a single multiplication vector); inversion, subtraction, square root, Legendre and the carry corners are exercised only indirectly, on random values.",
 ["fr.go", "frrepr.go"],
 [("4-limb Montgomery multiplication", "fr.go MulAssign, SquareAssign, montReduce"), ("binary extended Euclid inverse", "fr.go Inverse"), ("range check on conversion", "fr.go FRReprToFR")],
 ["FR.ToRepr / FR.Bytes of each result", "nil results"])
prop("C03", "Limb primitives are exact and identical in assembly and portable builds",
 "On every input the six-limb product, Montgomery reduction, addition, subtraction and the single-limb add, subtract and multiply-accumulate primitives return exactly the value defined by integer arithmetic on 64-bit limbs (for the reduction: a value below 2q congruent to the input times 2^-384 modulo q, for every input below q times 2^384). The amd64 assembly build and the portable build agree on the same inputs.",
 ["inputs", "configurations"], "all limb vectors, in particular every reachable combination of intermediate carries, in both builds",
 "The tests check a few hundred random vectors on one build at a time; a carry that must propagate through an all-ones limb happens with probability about 2^-64 there.",
 ["primitivefuncs_amd64.s", "stub.go", "stub_fallback.go", "asm/asm.go"],
 [("hand-generated adc/sbb/mul chains", "primitivefuncs_amd64.s"), ("pure Go carry chains", "stub_fallback.go")],
 ["return values of MultiplyFQRepr, MontReduce, AddNoCarry, SubNoBorrow, AddWithCarry, SubWithBorrow, MACWithCarry"])
prop("C04", "Wide-integer representation: shifts, compare, bits and conversions",
 "For every 384-bit (base) and 256-bit (scalar) integer and every shift count, left and right shift, halving, doubling, comparison, equality, bit length, bit test, parity, zero test and wrap-around addition and subtraction agree with unsigned integer arithmetic truncated to the width. Conversions to and from big-endian bytes, arbitrary-precision integers, hexadecimal and decimal text are mutually inverse and reject what does not fit, instead of truncating it. Iterating over the bits of a limb sequence yields every bit from the most significant to the least significant exactly once.",
 ["inputs"], "all integers of the width and all shift counts from 0 past the width",
 "The tests check a handful of shift counts and values; shift counts at multiples of 64 and limb-boundary values are not enumerated, and the scalar representation has no test of its own.",
 ["fqrepr.go", "frrepr.go", "bititerator.go"],
 [("word-then-bit shifting", "fqrepr.go Rsh, Lsh; frrepr.go Rsh, Lsh"), ("byte order conversions", "fqrepr.go Bytes, FQReprFromBytes; frrepr.go"), ("width check", "FQReprFromBigInt, FRReprFromBigInt")],
 ["limbs after each operation", "error returns"])
prop("C05", "Quadratic extension Fq2: exact arithmetic, square roots and ordering",
 "For every pair of elements of the quadratic extension, arithmetic, inversion, exponentiation, conjugation (every power), norm, multiplication by the sextic non-residue, Legendre symbol and comparison agree with polynomial arithmetic modulo q and u^2+1. Square root succeeds exactly on squares and its result squares to the input; inversion fails exactly for zero. Of any non-zero element and its negation exactly one is reported as the larger one.",
 ["inputs"], "all pairs of elements, including those with a zero, equal or opposite component, subfield elements and limb-boundary components",
 "Tests use fixed vectors and random elements, which never have a zero component, so the special branches of square root and ordering are practically unreached.",
 ["fq2.go"],
 [("Karatsuba product", "fq2.go MulAssign, SquareAssign"), ("Algorithm 9 square root", "fq2.go Sqrt"), ("lexicographic ordering", "fq2.go Cmp, Parity")],
 ["coordinates of results through G2 serialisation / String", "success flags"])
prop("C06", "Sextic and dodecic tower arithmetic is exact, sparse and aliased forms too",
 "For every pair of elements of the degree-6 and degree-12 extensions, addition, doubling, subtraction, negation, multiplication, squaring, inversion, conjugation, exponentiation and multiplication by the non-residue agree with polynomial arithmetic in the tower, also when an operand is the receiver itself. Sparse multiplications equal the full multiplication by the corresponding sparse element. The Frobenius map with power k equals raising to q^k for every k from 0 to 255, and inversion fails exactly for zero.",
 ["inputs"], "all pairs of elements, every pattern of zero coefficients, every Frobenius power, receiver aliased with an argument",
 "Tests cover random dense elements and Frobenius powers 0..13; zero-coefficient patterns and self-multiplication are not covered.",
 ["fq6.go", "fq12.go"],
 [("Karatsuba tower product", "fq6.go MulAssign; fq12.go MulAssign"), ("sparse products", "fq6.go MulBy1Assign, MulBy01Assign; fq12.go MulBy014Assign"), ("Frobenius tables", "fq6.go, fq12.go frobeniusCoeff*")],
 ["coordinates of results", "success flags"])
prop("C07", "G1 group law is complete and independent of representation",
 "On every pair of points of the curve over Fq, including points outside the prime-order subgroup, point addition, mixed addition, doubling, negation, equality, infinity test and conversion between affine and projective form implement the elliptic-curve group law. All exceptional cases (equal, opposite, infinite, small-order operands) are included, and the result denotes the same point whatever projective representatives, including any representative of infinity, the operands have. On-curve testing and recovery of a point from its x coordinate agree with the curve equation, and the requested one of the two candidates is returned.",
 ["inputs", "histories"], "all pairs of curve points in all projective representations, and all sequences of group operations up to a bounded length",
 "Tests use random subgroup points and a few fixed ones; equality of operands in different representations, opposite points, small-order points and non-canonical infinity are not enumerated.",
 ["g1.go"],
 [("Jacobian doubling/addition with exceptional-case branches", "g1.go Double, Add, AddAffine"), ("normalisation", "g1.go ToAffine, Equal"), ("y recovery", "g1.go GetG1PointFromX")],
 ["ToAffine coordinates through SerializeBytes/CompressG1", "Equal, IsZero, IsOnCurve"])
prop("C08", "G2 group law is complete and independent of representation",
 "On every pair of points of the twisted curve over Fq2, including points outside the prime-order subgroup, point addition, mixed addition, doubling, negation, equality, infinity test and conversion between affine and projective form implement the elliptic-curve group law. All exceptional cases (equal, opposite, infinite, small-order operands) are included, and the result denotes the same point whatever projective representatives, including any representative of infinity, the operands have. On-curve testing and recovery of a point from its x coordinate agree with the curve equation, and the requested one of the two candidates is returned.",
 ["inputs", "histories"], "all pairs of curve points in all projective representations, and all sequences of group operations up to a bounded length",
 "The G2 tests contain no group-law test beyond one compressed/uncompressed vector set and what pairing tests imply for random subgroup points.",
 ["g2.go"],
 [("Jacobian doubling/addition with exceptional-case branches", "g2.go Double, Add, AddAffine"), ("normalisation", "g2.go ToAffine, Equals"), ("y recovery", "g2.go GetG2PointFromX")],
 ["ToAffine coordinates through SerializeBytes/CompressG2", "Equals, IsZero, IsOnCurve"])
prop("C09", "Scalar multiplication, cofactor clearing and subgroup membership are exact",
 "For every curve point and every scalar, each scalar multiplication entry point (affine and projective, 384-bit, 256-bit and arbitrary-precision scalars) returns the point added to itself that many times, for scalars of zero, of the group order and beyond it as well. Multiplication by the cofactor always lands in the prime-order subgroup and equals the scalar multiple by the curve's cofactor. The subgroup membership test answers yes exactly for points of order dividing r.",
 ["inputs"], "all points (inside and outside the subgroup, of small order, infinity) times all scalars of the accepted widths",
 "Tests multiply random subgroup points by a few random scalars; scalars at limb boundaries or at least r, points of small order and points outside the subgroup are not covered.",
 ["g1.go", "g2.go", "bititerator.go", "hash.go"],
 [("double-and-add over a bit iterator", "g1.go Mul, MulFR; g2.go Mul, MulFR, MulBig"), ("cofactor constants", "g1.go g1Cofactor, g2.go g2Cofactor"), ("order check", "IsInCorrectSubgroupAssumingOnCurve")],
 ["compressed result point", "boolean of the membership test"])
prop("C10", "Compressed point encoding is canonical and rejects everything else",
 "Compressing any curve point and decompressing it yields the same point, and every byte string accepted by checked decompression is the compression of exactly the point it returns, so no two byte strings decode to the same point. Checked decompression accepts a string exactly when it has the compression flag, a coordinate below q (or the single canonical infinity encoding), and denotes a point on the curve of order dividing r; unchecked decompression differs only in skipping the order check. The sign flag selects the larger of the two candidate points.",
 ["inputs"], "all 48-byte and 96-byte strings: every flag combination, coordinates at and beyond q, off-curve and wrong-subgroup coordinates, corrupted encodings",
 "Tests decode two files of valid small-multiple encodings and no malformed ones beyond none at all; acceptance of non-canonical strings is invisible to round-trip tests of valid points.",
 ["g1.go", "g2.go", "fq.go"],
 [("flag and range checks", "g1.go DecompressG1, DecompressG1Unchecked; g2.go DecompressG2, DecompressG2Unchecked"), ("encoder", "CompressG1, CompressG2"), ("order check", "IsInCorrectSubgroupAssumingOnCurve")],
 ["returned point re-compressed", "error returns"])
prop("C11", "Uncompressed affine point encoding round-trips",
 "Writing any affine point, infinity included, in the uncompressed encoding and setting any other point object, whatever it held before, from those bytes yields an equal point, for both groups. The encoding is the big-endian concatenation of the canonical coordinates, and distinct points have distinct encodings.",
 ["inputs", "histories"], "all affine points and all prior states of the receiving object",
 "No test reads an uncompressed encoding back at all.",
 ["g1.go", "g2.go"],
 [("coordinate writer", "SerializeBytes"), ("coordinate reader", "SetRawBytes")],
 ["Equals and coordinates of the receiving object"])
prop("C12", "The pairing is bilinear, non-degenerate and handles infinity",
 "For all points P of G1 and Q of G2 and all scalars a and b, pairing(aP, bQ) equals pairing(P, Q) raised to ab, it is 1 exactly when aP or bQ is infinity, and it depends only on the points and not on their projective representation. The Miller loop over a list of pairs, after final exponentiation, equals the product of the individual pairings for every list, the empty one and those with infinite members included, and comparing two pairings answers true exactly when they are equal. Final exponentiation agrees with raising to a fixed multiple of (q^12-1)/r on every non-zero element and fails exactly on zero.",
 ["inputs"], "all point pairs, scalars (zero, negative, limb-boundary) and lists of pairs up to a bounded length including infinity in every position",
 "Tests check bilinearity on random points and one fixed vector; infinity, multi-pair lists and final exponentiation outside Miller-loop outputs are not covered.",
 ["pairing.go", "g2.go", "fq12.go"],
 [("Miller loop with line-coefficient preparation", "pairing.go MillerLoop; g2.go G2AffineToPrepared"), ("addition-chain final exponentiation", "pairing.go FinalExponentiation")],
 ["FQ12 results", "CompareTwoPairings"])
prop("C13", "Hashing to curves and scalars matches its specification for every message",
 "For every message, hashing to G1 and to G2 returns the point that the specified construction (SHA-256 hash-to-field with suite byte 1, simplified SWU map, isogeny, cofactor clearing) defines, and hashing a 32-byte digest with a domain returns the point of the eth2 try-and-increment construction. The result always lies on the curve and in the prime-order subgroup, depends only on the message (and domain) bytes, and the caller's message buffer is left unchanged. Deriving a scalar from 32 bytes follows the corresponding specification, and the field-to-curve maps are defined for every field element, exceptional ones included, and return points of their target curve.",
 ["inputs"], "all message lengths and contents, digest/domain pairs, and field elements including zero and exceptional map inputs",
 "Tests pin a handful of vectors; a length- or content-dependent deviation, a leading zero in a hash or an exceptional map input is not reached.",
 ["hash.go", "g1.go", "g2.go"],
 [("hash-to-field", "hash.go hp, hp2, HashSecretKey"), ("SWU map", "g1.go optimizedSWUMapHelper; g2.go OptimizedSWU2MapHelper"), ("isogenies and cofactor clearing", "hash.go iso11, iso3, ClearH, clearH2"), ("try and increment", "g2.go HashG2WithDomain")],
 ["compressed result", "IsOnCurve / subgroup test", "message buffer after the call"])
prop("C14", "A signature verifies exactly for its own key, message and domain",
 "For every secret key, message and domain, in both schemes, the signature produced verifies under the corresponding public key. Verification of any signature point of the prime-order group under any public key, message and domain accepts exactly when the signature equals the message's hash point times the key's secret, and never panics, infinity points included; a signature made for another message, key or domain, or altered by adding any non-zero point of the group, is rejected. Signing is deterministic and changes neither message nor key.",
 ["inputs"], "all keys, messages (empty and long included), domains and signature points, with signatures formed as small linear combinations of honest ones as adversarial inputs",
 "Tests verify random honest signatures and reject a few mismatches; the soundness direction quantifies over all signature points.",
 ["g1pubs/bls.go", "g2pubs/bls.go", "pairing.go", "hash.go"],
 [("signing", "Sign, SignWithDomain, PrivToPub"), ("verification equation", "Verify, VerifyWithDomain, CompareTwoPairings")],
 ["verification verdicts", "signature bytes"])
prop("C15", "Aggregate verification accepts exactly the sum of the members' signatures",
 "Aggregating signatures or public keys in any order and grouping, an object with itself included, yields the sum of the points and leaves the other operand unchanged. Aggregate verification accepts exactly when the key and message lists have equal length, all messages are distinct wherever they stand in the list (for the variant without a domain) and the signature is the sum of each key's signature on its message; a missing, extra, permuted, repeated or replaced member is rejected. Aggregate verification over a common message accepts exactly when the signature verifies under the sum of the keys, no verdict depends on the order of the key-message pairs, and the arguments are left unchanged.",
 ["inputs", "histories"], "all lists of key/message pairs up to a bounded length over a small alphabet (empty message, duplicates adjacent or not, infinity keys) and all aggregation sequences up to a bounded length",
 "Tests aggregate a few honest signatures and one or two mismatches; duplicate positions, empty lists, empty messages, self-aggregation and ordering are combinatorial.",
 ["g1pubs/bls.go", "g2pubs/bls.go"],
 [("sorted duplicate check", "VerifyAggregate, sortByteArrays"), ("pairing product equation", "VerifyAggregate, VerifyAggregateWithDomain"), ("point sums", "Aggregate, AggregateSignatures, AggregatePublicKeys")],
 ["verdicts", "serialised aggregates", "arguments after the call"])
prop("C16", "Key and signature serialisation round-trips and rejects invalid bytes",
 "Serialising a secret key, public key or signature, in both schemes, and deserialising the bytes yields an equal object, whatever arithmetic produced it and in whatever internal representation it is. Deserialisation of a public key or signature fails on every byte string that is not the canonical encoding of a point of the prime-order subgroup, and a 32-byte string at or above the group order never yields a usable secret key. Key equality and copying agree with the denoted points, and a copy is independent of its original.",
 ["inputs", "histories"], "all 32-, 48- and 96-byte strings and all keys/signatures reachable by signing and aggregating",
 "Tests round-trip random valid objects only.",
 ["g1pubs/bls.go", "g2pubs/bls.go"],
 [("encoders/decoders", "Serialize, DeserializePublicKey, DeserializeSignature, DeserializeSecretKey"), ("equality and copy", "Equals, Copy")],
 ["re-serialised bytes", "errors"])
prop("C17", "Operations have no side effects beyond their documented receiver",
 "In every sequence of calls, no operation changes any of its arguments other than the receiver of an in-place operation, any exported constant or generator, or the outcome of a later operation: the result of each call depends only on its arguments. Copies, and points returned by conversions and decoders, share no state with other objects, so changing one in place never changes another.",
 ["histories", "inputs"], "all sequences of public operations up to a bounded length over a pool of objects",
 "Tests look at the result of single calls; corruption of an argument or of a shared constant shows only in a later call of a particular sequence.",
 ["fr.go", "g1.go", "g2.go", "fq6.go", "fq12.go", "pairing.go", "g1pubs/bls.go", "g2pubs/bls.go"],
 [("defensive copies", "Copy methods; ToAffine; FRReprToFR; FinalExponentiation")],
 ["fingerprint of all pool objects and exported constants after each call"],
 [("package constants", "generators, moduli, zero/one elements", "fq.go, fr.go, fq2.go, fq6.go, fq12.go, g1.go, g2.go")])
prop("C18", "Concurrent use from several goroutines gives the sequential results",
 "When several goroutines use the library at the same time, each on its own objects or only reading shared keys, signatures, points and messages, every call returns what it returns when run alone. No such execution has a data race or corrupts shared constants, under any interleaving.",
 ["schedules"], "all interleavings of two or three concurrent calls up to a preemption bound, over all pairs of public operations",
 "Tests are sequential; verification pools in client software call this library from many goroutines, and no test covers that.",
 ["fq.go", "fr.go", "g1.go", "g2.go", "pairing.go", "hash.go", "g1pubs/bls.go", "g2pubs/bls.go"],
 [("absence of mutable package state", "all package-level variables"), ("value copies", "Copy methods")],
 ["results of the concurrent calls", "race detector reports", "exported constants afterwards"],
 [("package-level variables", "must never be written after initialisation", "all files")])
prop("C19", "Random generation yields valid elements and reports every reader failure",
 "For every behaviour of the supplied entropy source, generating a random field element, scalar, point or secret key either returns an error or returns a valid member of its set: a canonical element, or a non-infinite point of the prime-order subgroup. When the source fails or ends before the required bytes are delivered, an error is returned together with no usable value, and the failure is never swallowed. A source that keeps delivering usable bytes yields a value, and the outcome depends only on the bytes delivered and not on how they are split over reads.",
 ["fault_sequences", "inputs"], "all reader fault points (error, end of stream or short read at each read call) and byte streams with extreme contents (all zeros, all ones, values at or above the modulus, off-curve and low-order points)",
 "Tests only use healthy pseudo-random readers.",
 ["fq.go", "fr.go", "fq2.go", "fq6.go", "fq12.go", "g1.go", "g2.go", "g1pubs/bls.go", "g2pubs/bls.go"],
 [("rejection sampling and error returns", "RandFQ, RandFR, RandFQ2, RandFQ6, RandFQ12, RandG1, RandG2, RandKey")],
 ["returned value and error", "subgroup and curve tests of the value"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
for p in P:
    assert len(p["title"]) <= 80, p["id"]
