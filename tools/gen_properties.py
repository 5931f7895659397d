#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are reviewable as text)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

A, F, G, S, PR, SG, SH = ("src/arithmetic.cpp", "src/fp.cpp", "src/g.cpp", "src/scalar.cpp", "src/pairing.cpp", "src/signatures.cpp", "src/sha256.cpp")
ASM = "src/arithmetic.s"; SHPP = "include/bls12-381/scalar.hpp"; FHPP = "include/bls12-381/fp.hpp"; SIGHPP = "include/bls12-381/signatures.hpp"

prop("C01", "Base-field arithmetic is exact and canonical for all operands and aliasing",
 "Addition, doubling, subtraction, negation, multiplication, squaring, inversion and exponentiation of base-field elements return exactly the integer result modulo p, fully reduced, for every pair of reduced operands and when the output object is also an input. Multiplication is also exact when an operand is an unreduced sum, difference or double within the documented limit. Inverse of zero is zero, and conversion into and out of the internal (Montgomery) representation is the identity on reduced values.",
 ["inputs", "histories"], "Every pair of field elements, every aliasing pattern of output and inputs, every finite sequence of such operations.",
 "The tests multiply and add random elements; carries and borrows that only occur for limb patterns of probability 2^-64 (all-ones or zero limbs, sums that hit p exactly) are never reached.",
 [A, ASM, F, FHPP], [("add/sub/neg/double with conditional reduction", "src/arithmetic.s, src/arithmetic.cpp"), ("Montgomery multiplication", "src/arithmetic.s"), ("binary extended Euclid inverse", "src/fp.cpp fp::inverse")],
 ["limbs of the returned field element"])
prop("C02", "All arithmetic back ends compute the same results",
 "The library gives bit-identical results whichever multiplication routine is selected at load time (BMI2/ADX or baseline assembly, including when disabled through the environment) and when built with the portable C++ arithmetic instead of assembly. This holds for every low-level add, subtract, double, negate, multiply, square (reducing and non-reducing), for the double-word carry helpers, and for whatever is computed on top of them.",
 ["configurations", "inputs"], "Every selectable back end (CPU dispatch, environment override, portable build) and every operand pair.",
 "The tests run one back end on one machine; the portable C++ path is not even compiled on x86-64, and the override is not exercised.",
 [A, ASM], [("ifunc resolver", "src/arithmetic.cpp resolve_blsmul"), ("__mul_ex / __multiply", "src/arithmetic.s"), ("portable CIOS multiply/square", "src/arithmetic.cpp")],
 ["limbs of results", "encoded points and signatures computed under each back end"])
prop("C03", "Multi-word integer and scalar helpers are exact",
 "Multi-word addition of operands no wider than the requested result returns the exact sum when it fits and rejects it with an exception when it does not; multiplication into a result as wide as both operands together is exact. Comparison, equality, bit length and right shift by any amount agree with integer arithmetic. Division returns the exact quotient and remainder for every dividend and every divisor whose top word is nonzero, and reduction of a wide integer (six words or more) modulo p returns its residue.",
 ["inputs"], "All word patterns and widths, all shift amounts, all dividend/divisor pairs.",
 "Tests use a handful of fixed or random values; carry into a new top word, quotient-digit correction and all-ones words have negligible probability under random sampling.",
 [SHPP, S, A], [("add with carry", "include/bls12-381/scalar.hpp add"), ("Knuth division", "src/scalar.cpp bn_divn_low"), ("Add64/Sub64/Mul64", "src/arithmetic.cpp")],
 ["returned words", "thrown std::invalid_argument"])
prop("C04", "Extension-field towers implement the exact algebra",
 "In the quadratic, sextic and twelfth-degree extensions every operation (add, subtract, negate, double, multiply, square, inverse, conjugate, exponentiation, multiplication by the non-residue or by sparse elements, and the Frobenius map of any power) equals the operation in the mathematical field they represent. The in-place and the value-returning form of each operation agree, and inverse of zero is zero. Cyclotomic squaring and exponentiation agree with the generic ones on every element of the cyclotomic subgroup.",
 ["inputs", "histories"], "Every tuple of field elements including sparse ones (any coordinate zero), all Frobenius powers, all aliasing patterns.",
 "Tests check a few ring identities on random dense elements; sparse coordinates, odd and large Frobenius powers and equal operands are not covered.",
 [F, FHPP], [("Karatsuba tower arithmetic", "src/fp.cpp fp2/fp6/fp12"), ("Frobenius coefficient tables", "src/fp.cpp")],
 ["coordinates of returned elements"])
prop("C05", "Square roots, quadratic character, sign and ordering are exact",
 "In the base field and its quadratic extension a square root is reported to exist exactly when the element is a square (zero included), and the returned root squares back to the input. The non-residue test is true exactly for non-squares, the sign predicate tells exactly whether the canonical value is even (for an extension element, its first nonzero coordinate), and the lexicographically-largest predicate equals its standard definition, so that for every nonzero element exactly one of it and its negation is largest.",
 ["inputs"], "Every element, including zero, one, minus one, elements with one zero coordinate, and the boundary (p-1)/2, (p+1)/2.",
 "Tests take roots of random squares only; pure-real or pure-imaginary elements, zero and the half-way boundary are not tested.",
 [F], [("fp/fp2 sqrt", "src/fp.cpp"), ("isQuadraticNonResidue / isLexicographicallyLargest / sign", "src/fp.cpp")],
 ["boolean results and returned root"])
prop("C06", "G1 point arithmetic implements the curve group law",
 "Adding, doubling, negating and subtracting points of the G1 curve, and converting to affine form, give the mathematically correct curve point for every combination of inputs: any Jacobian representative, the point at infinity in any representation, equal points, opposite points, and points outside the prime-order subgroup. Equality of points is equality of the represented affine points, and results are the same when an operand aliases the target.",
 ["inputs", "histories"], "All pairs of curve points and all their Jacobian representatives; all sequences of operations.",
 "Tests exercise random subgroup points, mostly with distinct operands; equal points under different representatives, infinity with nonzero coordinates and small-order points are sampled rarely or never.",
 [G], [("Jacobian add/double with exceptional cases", "src/g.cpp g1")], ["affine coordinates of the result", "equal()/isZero()"])
prop("C07", "G2 point arithmetic implements the curve group law",
 "Adding, doubling, negating and subtracting points of the G2 curve, and converting to affine form, give the mathematically correct curve point for every combination of inputs: any Jacobian representative, the point at infinity in any representation, equal points, opposite points, and points outside the prime-order subgroup. Equality of points is equality of the represented affine points, and results are the same when an operand aliases the target.",
 ["inputs", "histories"], "All pairs of curve points and all their Jacobian representatives; all sequences of operations.",
 "Tests exercise random subgroup points, mostly with distinct operands; equal points under different representatives, infinity with nonzero coordinates and small-order points are sampled rarely or never.",
 [G], [("Jacobian add/double with exceptional cases", "src/g.cpp g2")], ["affine coordinates of the result", "equal()/isZero()"])
prop("C08", "Scalar multiplication and weighted sums equal repeated addition",
 "Multiplying any curve point by any integer scalar of any supported width, including zero, the group order, values above it and the largest representable one, equals adding the point to itself that many times. A weighted sum over any number of points and 256-bit scalars equals the sum of the individual products, whatever the points, repetitions, infinities and list sizes; unmatched extra entries count as zero, and supplying a yield callback never changes the result.",
 ["inputs"], "All scalars, all list lengths (including the sizes where the window width changes), all placements of zero scalars, infinities, repeated and opposite points.",
 "Tests use one list size with random scalars; window-boundary bits, full-width scalars, size thresholds and cancelling entries are not covered.",
 [G, SHPP], [("double-and-add", "include/bls12-381/scalar.hpp scale"), ("bucket method", "src/g.cpp weightedSum")], ["affine coordinates of the result"])
prop("C09", "Curve and subgroup membership tests decide exactly the right sets",
 "The on-curve test accepts a triple exactly when it represents a curve point (infinity included), for every Jacobian representative. The subgroup test, applied to any curve point in any representation, accepts exactly the points killed by the prime group order. Cofactor clearing sends every curve point into the subgroup and multiplies by the fixed effective cofactor, and the curve endomorphisms act as their defining maps for points at any representation.",
 ["inputs"], "All field triples for the curve test; all curve points (any order dividing the full group order) for the rest.",
 "Tests check a few fixed good and bad points; points of small order, mixed-order points and non-affine representatives are not covered.",
 [G], [("isOnCurve", "src/g.cpp"), ("endomorphism-based subgroup check", "src/g.cpp inCorrectSubgroup"), ("clearCofactor, psi, glvEndomorphism", "src/g.cpp")],
 ["boolean verdicts", "resulting points"])
prop("C10", "Field-element, scalar and hex codecs are exact inverses with strict range checks",
 "Encoding a reduced element of the base field or any extension in big- or little-endian form and decoding it returns the same element, bytes are in the documented order, and raw versus Montgomery options are honoured. A validated decode succeeds exactly when every coordinate is below p. Without validation, every byte string decodes. Integer-to-bytes and hex conversions round-trip for every length and byte value, with or without 0x prefix and in either letter case, and malformed odd-length hex yields an empty result.",
 ["inputs"], "All byte strings of the fixed lengths, all coordinate positions, both endiannesses, all option combinations; hex text of every short length.",
 "Tests decode a few random elements and all-0xff garbage; the boundary p-1/p/p+1 in each coordinate and option combinations are not enumerated.",
 [F, S, SHPP], [("fromBytes*/toBytes*", "src/fp.cpp"), ("hexToBytes/bytesToHex", "src/scalar.cpp, include/bls12-381/scalar.hpp")],
 ["decoded value or absence", "encoded bytes"])
prop("C11", "Affine and Jacobian point encodings round-trip and validate strictly",
 "Encoding any point in affine or Jacobian form, in either byte order, and decoding it yields the same point, with infinity encoded as all zero in affine form. Decoding rejects every input in which some coordinate is not below p, and, when validity checking is requested, accepts exactly the encodings of points on the curve; when it is not requested (the default), curve membership is not required.",
 ["inputs", "configurations"], "All points and representatives, all coordinate values around p, both byte orders, all option settings.",
 "Tests round-trip random points and reject all-0xff garbage; single bad coordinates, infinity forms and option combinations are not enumerated.",
 [G], [("from/to Affine/Jacobian bytes", "src/g.cpp")], ["decoded point or absence", "encoded bytes"])
prop("C12", "Compressed point encoding is a canonical bijection with curve points",
 "For both groups, compressing a curve point in any representation (infinity included) gives its unique standard compressed encoding, and decompressing that gives the same point. Decompression accepts a byte string only if it is the canonical encoding of some curve point, so re-compressing any accepted input reproduces it exactly; everything else (flag bits wrong, coordinate not below p, no such point, nonzero payload with the infinity flag) is rejected.",
 ["inputs"], "All byte strings of the encoding length: all 8 flag combinations, coordinates around 0, p and the maximum, both y signs; all points.",
 "Tests round-trip random points and reject three malformed flags; non-canonical field values, dirty infinity encodings and infinity as an input of compression are not tested.",
 [G], [("fromCompressedBytesBE/toCompressedBytesBE", "src/g.cpp")], ["48/96 encoded bytes", "decoded point or absence"])
prop("C13", "Hash-to-curve follows the standard for every message and domain tag",
 "Message expansion equals the standard SHA-256 expand-message-XMD for every message length, every domain tag length up to 255 and every output length up to 8160 bytes, and longer requests are refused. Mapping a field element to either curve equals the standard simplified SWU map, isogeny and cofactor clearing for every element, including zero and the exceptional ones. Hashing a message equals the standard random-oracle construction for every message and tag, with over-long tags hashed down as the standard prescribes, and always returns a point in the subgroup.",
 ["inputs"], "All messages and tags of lengths 0..several blocks and around 255; all output lengths; all field elements including exceptional cases of the map.",
 "Tests replay a few published vectors; block-boundary lengths, non-multiple-of-32 outputs, over-long tags and exceptional field elements are not in them.",
 [SG, G, SH], [("xmd_sh256, fromMessage", "src/signatures.cpp"), ("swuMapG1/G2, isogeny maps", "src/g.cpp")],
 ["expanded bytes", "affine coordinates of resulting points"])
prop("C14", "HMAC and HKDF outputs are exact for every length",
 "The HMAC, HKDF-extract, HKDF-expand and combined operations equal RFC 2104 and RFC 5869 with SHA-256 for every key, salt, message, info and output length, including empty inputs, keys of exactly and just over one block, and every message length modulo the hash block. Output lengths of zero or above 255 hash blocks are refused with an error code, and nothing beyond the requested output is written.",
 ["inputs"], "All lengths of each argument over several hash blocks (all residues modulo 64), all output lengths 0..8161.",
 "Tests use a few RFC vectors; padding boundaries (55, 56, 63, 64 bytes), keys of 64/65 bytes and partial last blocks are not swept.",
 [SG, SH, "src/sha256.hpp"], [("hkdf256_*", "src/signatures.cpp"), ("sha256 padding and buffering", "src/sha256.cpp")], ["output bytes, bytes around them, return code"])
prop("C15", "Key generation and child-key derivation follow their definitions and commute",
 "Generating a secret key from a seed of at least 32 bytes and hardened child derivation equal the published HKDF/Lamport construction (first salt unhashed), and the result is a nonzero integer below the group order; shorter seeds give the zero key. Unhardened derivation adds to the parent key the hash of its compressed public key and index (as a multiple of the generator, for public keys in either group), so that deriving a secret key then taking its public key equals taking the public key then deriving, for every parent key, representation, index and path. Parsing a secret key from bytes gives the integer if below the order, and otherwise zero or its residue as requested; the public key is the secret multiple of the generator.",
 ["inputs", "histories"], "All seeds and lengths, all 32-bit indices (all byte positions), all parent keys including near the group order, all derivation paths up to a depth.",
 "Tests use the four EIP-2333 vectors and a few fixed paths; key-sum wraparound at the group order, high index bytes and boundary scalars are not covered.",
 [SG], [("secret_key, derive_child_*", "src/signatures.cpp"), ("sk_from_bytes, aggregate_secret_keys", "src/signatures.cpp")], ["returned keys"])
prop("C16", "The pairing is the exact bilinear map on all subgroup inputs",
 "For every list of pairs of subgroup points collected with the library's pair-adding function, in any Jacobian representation and in any order, the product of pairings equals the fixed generator pairing raised to the sum of products of discrete logarithms; pairs containing infinity contribute nothing and the empty product is one. The result depends neither on the number of pairs handled together nor on whether a yield callback is supplied. Results lie in the order-r target group, and the target-group membership test accepts exactly that group.",
 ["inputs"], "All lists of subgroup pairs with any scalars, sizes from zero to beyond the yield threshold, any position of infinities and cancelling pairs.",
 "Tests check bilinearity for random or fixed scalars with one or two pairs; infinity, repeated pairs, large lists and the yield path are barely touched.",
 [PR, F], [("Miller loop with precomputed lines", "src/pairing.cpp"), ("final exponentiation", "src/pairing.cpp"), ("isGtValid", "src/fp.cpp")], ["target-field element"])
prop("C17", "Signature verification accepts exactly the correct signature",
 "A signature made by any secret key over any message verifies under its public key, and for every message and public key in the subgroup exactly one subgroup point verifies: the secret multiple of the message hash. Verification rejects every public key or signature off the curve or outside the prime-order subgroup, and never depends on the representation of the points. The signature equals the secret-key multiple of the standard message hash.",
 ["inputs"], "All keys, messages (any length), and candidate points: valid, negated, other message's, other key's, shifted by small-order points, infinity, off curve; all representatives.",
 "Tests try a few tampered messages; forged points with small-order components, negations, infinities and non-normalised representatives are not enumerated.",
 [SG, PR, G], [("sign/verify", "src/signatures.cpp"), ("subgroup checks before pairing", "src/signatures.cpp")], ["boolean verdict", "signature bytes"])
prop("C18", "Aggregation is a homomorphism and aggregate verification is exact",
 "Aggregating secret keys, public keys or signatures gives the group sum in any order and grouping (the sum modulo the order for secret keys; infinity or zero for empty lists), and aggregates commute with key derivation and signing; the forms with accessor and filter aggregate exactly the selected entries. Aggregate verification accepts exactly when the signature equals the sum of the individual correct signatures, the two lists have equal length, every key and the signature are valid subgroup points, and, if requested, all messages are distinct.",
 ["inputs", "histories"], "All lists up to a size of keys, messages and signatures from a small alphabet including duplicates, opposites, infinity, invalid points; all filter masks.",
 "Tests check one or two aggregates with distinct messages; duplicates, cancelling keys, length mismatches, masks and one bad member among good ones are not enumerated.",
 [SG, SIGHPP], [("aggregate_*", "src/signatures.cpp, include/bls12-381/signatures.hpp"), ("duplicate check", "src/signatures.cpp aggregate_verify")], ["aggregates", "boolean verdict"])
prop("C19", "Proofs of possession and fast aggregate verification are exact",
 "A proof of possession verifies exactly when it is the secret multiple of the hash of that public key under the dedicated tag, for any representation of the key; a proof for another key, an ordinary signature, or a key or proof outside the subgroup is rejected, and a proof is not accepted as an ordinary signature. Fast aggregate verification rejects an empty key list and otherwise accepts exactly the signature by the summed keys on the message.",
 ["inputs"], "All key/proof pairings from an alphabet including swapped, negated, small-order-shifted, infinite and off-curve points; all key multisets up to a size.",
 "Tests check one good proof and one aggregate; cross-key and cross-domain substitutions, representatives and empty lists are not enumerated.",
 [SG], [("pop_prove/pop_verify/pop_fast_aggregate_verify", "src/signatures.cpp")], ["boolean verdict", "proof bytes"])
prop("C20", "Concurrent use is equivalent to sequential use",
 "Any two or three library calls running at the same time in different threads on the same or on different inputs return exactly what they return when run alone, for every interleaving. No call leaves behind shared state that another call can observe half-updated, including the first calls made in a process.",
 ["schedules"], "All interleavings with up to two preemptions (at shared-memory accesses and at program points) of pairs of public operations.",
 "The tests are single-threaded; no schedule is ever explored.",
 [SG, G, F, PR, A, SH], [("absence of mutable shared state", "all of src/")], ["results of each call under each schedule"])
prop("C21", "Operations are pure: results never depend on call history",
 "Every public operation returns the same result for the same inputs regardless of which operations were called before it in the process, in any order and any number of times, and leaves its inputs and the library's constants unchanged. A failed or rejected call has no effect on later calls.",
 ["histories"], "All sequences of public operations up to a depth over a small set of inputs, including failing calls.",
 "Each test runs in its own fixed order; no test compares results across different histories.",
 [SG, G, F, PR, S, SH], [("value semantics, no caches", "all of src/")], ["results after each history", "input objects and constants after each call"])
prop("C22", "No input makes the library touch memory it does not own",
 "For every input accepted by the interfaces (byte strings, hex text, messages, seeds and lists of any length including empty, any field and point values, any Frobenius power or shift amount) the library performs no out-of-bounds access, use of uninitialised or freed memory, undefined arithmetic or memory leak, on success and on every rejection path.",
 ["inputs"], "All lengths 0..several blocks for every variable-length argument, all rejection paths, boundary values for every numeric argument.",
 "The tests run without sanitizers and pass well-formed sizes only.",
 [SG, S, G, F, PR, SH, SHPP], [("length handling in hash, KDF, hex and multi-scalar code", "src/")], ["sanitizer reports", "guard bytes"])
prop("C23", "Memory exhaustion is reported, never turned into a wrong result",
 "If any single allocation made inside a library call fails, or every allocation from some point on, the call either reports failure through its error code or an exception, or still returns the correct result; it never returns a wrong key, digest or verdict as if it had succeeded, never crashes, and leaks nothing. Later calls, once memory is available again, behave as if the failed call had never happened.",
 ["fault_sequences"], "Every allocation index of every public operation, failing once or from then on.",
 "No test injects allocation failure.",
 [SG, PR, G, S], [("malloc checks in HMAC/HKDF/keygen", "src/signatures.cpp"), ("std::bad_alloc from containers", "src/pairing.cpp, src/g.cpp")], ["return code/exception/result of the call", "outstanding allocations"])
prop("C24", "Calls during process start-up and exit behave like any other call",
 "Every public operation returns the same result when it is called from a static initialiser of another translation unit (whatever the order in which translation units are initialised), from an exit handler, or from a static destructor, as when it is called from main; such an early call does not change the result of later ones.",
 ["histories", "configurations"], "All orders of the library's static initialisers, every point between them, and every point of the exit sequence.",
 "The tests call the library only from main, after start-up is complete; initialisation order is fixed by one particular link.",
 [F, G, SG, A], [("namespace-scope constants (field constants, base points, Frobenius coefficients, domain tags)", "src/fp.cpp, src/g.cpp, src/signatures.cpp"), ("load-time selection of the multiplication routine", "src/arithmetic.cpp")], ["results of calls made at each point of start-up and exit"])
prop("C25", "Callbacks cannot disturb results, and may throw or re-enter the library",
 "Multi-scalar sums, pairing products and the aggregation functions that take a callback, accessor or filter give the same result whatever the callback does: return, or call any library function, including the one that is running, at any invocation; both results are correct. If the callback throws, the exception reaches the caller, nothing is leaked, the inputs are unchanged and later calls are correct. A callback given to a sum of 256 or more points or a product of 20 or more pairs is invoked.",
 ["histories", "fault_sequences"], "Every invocation of the callback crossed with returning, throwing and re-entering the library.",
 "The tests never throw from, or call the library from, a callback.",
 [G, PR, "include/bls12-381/signatures.hpp"], [("yield calls in weightedSum and miller_loop", "src/g.cpp, src/pairing.cpp"), ("accessor and filter loops", "include/bls12-381/signatures.hpp")], ["results of outer and inner calls", "exception seen by the caller", "allocation balance"])
prop("C26", "Results do not depend on ambient process state, which calls leave alone",
 "Every public operation returns the same result whatever the ambient state of the process: errno, floating-point control modes, C and C++ locale, environment variables, working directory, open descriptors, resource limits, signal mask, dispositions and pending signals, clock, random state, installed handlers; whichever context it is called from (an exception handler, a destructor during unwinding, a signal handler, a thread or coroutine with a 256 KB stack, whatever the size of the input), and wherever its inputs lie in memory. It leaves that state as it was and has no outside effects: no output, no file, network, process or signal action. A signal handled on the same stack at any instruction does not disturb it.",
 ["configurations", "schedules"], "All combinations of one or two ambient configurations with every operation and calling context; every alignment; every instruction boundary as the point of interruption.",
 "The tests run in one default environment, on the main thread with a large stack, with naturally aligned objects.",
 [A, F, G, PR, S, SG, SH], [("hand-written assembly (stack discipline, flags, alignment)", "src/arithmetic.s"), ("text conversion", "src/scalar.cpp, src/sha256.cpp"), ("stack buffers", "src/g.cpp, src/pairing.cpp, src/signatures.cpp")], ["result bytes in each configuration", "process state before and after each call", "system calls made"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
