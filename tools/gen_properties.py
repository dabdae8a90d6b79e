#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line) from the table below."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=False):
    P.append({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                    **({"state": [{"name": x, "where": files[0]} for x in state]} if state else {}),
                    "observe_at": observe, "hook_needed": None}})

BP="bulletproofs/bp.go"; BIP="bulletproofs/bip.go"; BPRP="bulletproofs/bprp.go"; BPU="bulletproofs/util.go"; VEC="bulletproofs/vector.go"
CCS="ccs08/ccs08.go"; P256="crypto/p256/p256.go"; MYC="crypto/p256/mycurve.go"; UT="util/util.go"
BN="crypto/bn256/bn256.go"; CUR="crypto/bn256/curve.go"; TW="crypto/bn256/twist.go"; OPT="crypto/bn256/optate.go"
G2F="crypto/bn256/gfp2.go"; G6F="crypto/bn256/gfp6.go"; G12F="crypto/bn256/gfp12.go"; BB="crypto/bbsignatures/bb.go"
BC="util/byteconversion/conversion.go"; PARSE="util/byteconversion/parse.go"; BNU="util/bn/bn.go"; IC="util/intconversion/intconversion.go"

prop("P01","Bulletproof completeness: in-range secrets always verify",
 "For every supported range [0,2^N) with N in {1,2,4,8,16,32} and every integer secret in it, Prove returns no error and the proof it returns verifies (true, nil). This holds for every outcome of the prover's random draws, including extreme ones (0, 1, ORDER-1, scalars with leading zero bytes). Every number of proofs may be made from the same parameters.",
 ["inputs","histories"],"all secrets in [0,2^N), all N, all randomness, reuse of one params value for many proofs",
 "The tests prove three or four fixed secrets for one range with fresh uniform randomness; completeness is over every secret bit pattern, every N and every random draw (rare carry/leading-zero/equal-point cases).",
 [BP,BIP,BPU,VEC,P256],[("Setup/Prove/Verify",BP+": Setup, Prove, BulletProof.Verify"),("inner product",BIP+": computeBipRecursive, InnerProductProof.Verify")],
 ["return values of Setup, Prove, Verify"])

prop("P02","Bulletproof soundness: out-of-range secrets never verify",
 "A proof that Prove returns for a secret outside [0,2^N) - negative, equal to 2^N, or arbitrarily large - is never accepted by Verify, unless the secret is congruent modulo the group order to a value inside the range. Prove may refuse such a secret with an error instead.",
 ["inputs"],"all integers outside [0,2^N), all N, including values just past the bounds, multiples of 2^N, and values near multiples of the group order",
 "Tests try 2^32, 2^32+1 and -1 for one N; a truncation or wrap-around mistake shows only at other bit positions or congruences.",
 [BP,UT,BIP],[("binary decomposition",UT+": Decompose"),("polynomial check",BP+": Verify condition (65)")],["Verify result"])

prop("P03","Generic range proofs verify exactly for secrets in [a,b)",
 "For every interval [a,b) that SetupGeneric accepts, the proof produced by ProveGeneric verifies if and only if a <= secret < b (secrets congruent modulo the group order count as the same secret). SetupGeneric returns an error for intervals it cannot support: a > b, or b - a > 2^32.",
 ["inputs","configurations"],"all int64 a,b (negative, zero, extreme, empty and maximal intervals) and all integer secrets, in particular a-1, a, b-1, b and a+2^32",
 "Tests use one interval (18,200) and five secrets; the guarantee is about every interval, including negative and extreme bounds and the largest supported width.",
 [BPRP,BP],[("two shifted proofs",BPRP+": SetupGeneric, ProveGeneric, ProofBPRP.Verify")],["SetupGeneric error","Verify result"])

prop("P04","Verification is pure, repeatable and deterministic",
 "Verifying a proof (BulletProof, ProofBPRP, CCS08 set, UL and interval proofs) changes neither the value of the proof nor of the parameters, draws no randomness, and returns the same answer however often it is repeated and whichever other proofs are verified in between.",
 ["histories","inputs"],"all sequences of verify calls over valid and invalid proofs and copies of them",
 "Tests verify each proof once and never look at it afterwards; state kept or altered by Verify shows only in a second use.",
 [BP,BIP,BPRP,CCS],[("in-place updates",BIP+": InnerProductProof.Verify (Pprime)"),("CCS verification",CCS+": VerifySet, VerifyUL")],["deep digest of proof/params around each call","results"],["InnerProductProof.Params.P"])

prop("P05","Proofs and parameters survive JSON transport unchanged",
 "Encoding a bulletproof (BulletProof or ProofBPRP) or its BulletProofSetupParams to JSON and decoding it again yields a value in which every group element, every scalar and the range parameters are equal to the original, re-encoding is byte-identical, and verification gives the same answer before and after transport. Valid decoded proofs verify and invalid ones still do not.",
 ["inputs","histories"],"all proofs for all ranges, including scalars of unusual length, valid and invalid proofs, repeated transport",
 "Tests transport one or two proofs; a field dropped, truncated or sign-altered in transport may matter only for some values.",
 [BP,BPRP,BIP,P256],[("exported fields",BP+": BulletProof struct; "+BIP+": InnerProductProof struct")],["deep comparison of values, JSON bytes, Verify results"])

prop("P06","Any tampering with a bulletproof is detected",
 "If any load-bearing component of a valid bulletproof (V, A, S, T1, T2, Commit, Taux, Mu, Tprime, N, every L_i and R_i, and the inner-product scalars A and B) is replaced by a different group element or a scalar of different residue, dropped, swapped with or copied from another component or another valid proof (of the same or a different secret or range), Verify does not return true. The same holds for each half of a ProofBPRP.",
 ["inputs","programs"],"all single and multi-component substitutions over all proofs, ranges and components",
 "No test modifies a proof; each verification equation can be dropped or weakened without any test noticing.",
 [BP,BIP,BPRP],[("equations",BP+": Verify c65, c67"),("inner product check",BIP+": InnerProductProof.Verify")],["Verify result on modified copies"])

prop("P07","Untrusted proof bytes never crash the verifier",
 "For every byte string that json.Unmarshal accepts as a BulletProof or ProofBPRP - missing, null, negative, huge, off-curve, or inconsistent components, lists of any length, any N - Verify returns normally without panicking, exhausting memory or corrupting memory, and does not return true unless the decoded proof is equivalent to a well-formed valid proof.",
 ["inputs"],"all decodable JSON documents: structural mutations, boundary values, truncated and over-long lists, type-valid garbage",
 "Tests decode only what the library itself encoded.",
 [BP,BIP,BPRP,P256,MYC],[("no validation of decoded fields",BP+": Verify"),("C scalar multiplication",P256+": ScalarMult -> libsecp256k1")],["panic/exit status of Verify, its result, sanitizer reports"])

prop("P08","Forged bulletproofs are rejected",
 "A cheating prover who follows no protocol - choosing its own generators, inner-product parameters or list lengths, re-using or transplanting an inner-product argument, adjusting V, A, S, T1 or T2 after the challenges are known, proving with non-binary digits, or satisfying all verification equations but one - cannot make Verify return true for a commitment whose value it does not know to be in range. In particular each of the verification equations, the link between the inner-product argument and the outer proof, and the binding of V, A, S, T1, T2 by the challenges is enforced.",
 ["programs","inputs"],"a family of adversarial prover strategies over all N, secrets and random choices",
 "Tests only run the honest prover; soundness quantifies over all provers.",
 [BP,BIP,BPU],[("Fiat-Shamir",BPU+": HashBP; "+BIP+": hashIP"),("verification",BP+": Verify")],["Verify result on adversarial proofs"])

prop("P09","A generic range proof binds both halves to one secret and one interval",
 "ProofBPRP.Verify accepts only if both halves are valid bulletproofs and their commitments open to x-b+2^32 and x-a for one and the same x, where [a,b) is the interval stated in the proof. Halves taken from proofs of different secrets or with independent blindings, halves exchanged, and a stated interval of a different width are rejected.",
 ["programs","inputs"],"all combinations of halves and interval statements from honest and dishonest provers",
 "Tests only verify proofs exactly as produced by ProveGeneric.",
 [BPRP],[("link between halves",BPRP+": ProofBPRP.Verify")],["Verify result on recombined proofs"])

prop("P10","CCS08 set membership proofs of members always verify",
 "For every non-empty list of int64 elements given to SetupSet (negative, zero, extreme and duplicate elements included), every element x of it and every integer blinding r, ProveSet succeeds and VerifySet returns true (events of negligible probability in the random draws, such as a signature blinding of 0, aside). This holds for repeated proofs from one setup.",
 ["inputs","histories"],"all sets of int64, all members, all blindings (0, negative, larger than the order) and random draws",
 "The test proves one element of one four-element set once.",
 [CCS,BB,BN,UT],[("signed digits",CCS+": SetupSet, ProveSet, VerifySet")],["ProveSet error, VerifySet result"])

prop("P11","CCS08 set proofs of non-members are refused or rejected",
 "For every x not in the set, ProveSet returns an error, and no proof produced with one setup (own key or own set) is accepted by VerifySet under the parameters of another setup.",
 ["inputs","configurations"],"all sets and non-members (neighbours, negations, congruent values) and pairs of setups",
 "No test tries a non-member or a second setup.",
 [CCS,BB],[("membership lookup and key check",CCS+": ProveSet, VerifySet")],["ProveSet error, VerifySet result"])

prop("P12","CCS08 [0,u^l) proofs verify exactly for in-range secrets",
 "For every u >= 2 and l >= 1 with u^l below the group order, and every integer x and blinding r, the proof made by ProveUL verifies under VerifyUL if 0 <= x < u^l, and for any other x either ProveUL reports an error or VerifyUL rejects (secrets congruent modulo the group order count as the same).",
 ["inputs","configurations"],"all u,l and all integers x, in particular 0, u^l-1, u^l, -1, u^l+x and values with extreme digits",
 "The test proves one value for (10,5).",
 [CCS,UT,BB,BN],[("digit decomposition and signatures",CCS+": SetupUL, ProveUL, VerifyUL")],["ProveUL error, VerifyUL result"])

prop("P13","CCS08 interval proofs verify exactly for secrets in [a,b)",
 "For every interval [a,b) that the ccs08 Setup accepts (including negative bounds), Prove followed by Verify returns true if and only if a <= x < b (secrets congruent modulo the group order count as the same). Setup returns an error when a > b, and accepts every interval with 0 <= a <= b and b >= 2.",
 ["inputs","configurations"],"all int64 a,b that Setup accepts and all integers x near and far from both ends",
 "The test proves one value in one interval.",
 [CCS],[("shifted digits proofs",CCS+": ccs08.Setup, Prove, Verify")],["Setup error, Verify result"])

prop("P14","Tampered or forged CCS08 proofs are rejected",
 "A CCS08 set, UL or interval proof in which any of V, D, C, a, zsig, zv, zr (or the challenge) is replaced, swapped between digits or proofs, simulated without knowing a signature, or built for a commitment C to a value outside the set or interval, is not accepted by VerifySet, VerifyUL or Verify. In particular the verifier enforces the challenge, both verification equations for every digit, and that both halves of an interval proof commit to one and the same secret.",
 ["programs","inputs"],"all single-component substitutions and a family of adversarial provers, over all parameters",
 "Tests only verify honest proofs, so dropping any verification equation goes unnoticed.",
 [CCS,UT],[("equations",CCS+": VerifySet, VerifyUL, ccs08.Verify"),("challenge",UT+": HashSet, Hash")],["Verify result on adversarial proofs"],hook=False)

prop("P15","Proofs and public parameters carry no secret material",
 "Nothing handed to the verifier or prover - a bulletproof (in memory or as JSON), a CCS08 proof, or the CCS08 public parameters - contains the secret, its digits as openings, the blinding factor, any nonce drawn by the prover, or the setup's signing key, nor scalars that differ from the secret or a nonce by a publicly computable shift. Bulletproof commitments V, A and S are always blinded by fresh nonces.",
 ["inputs","histories"],"all proofs and parameters over all secrets and random draws, every scalar reachable from them",
 "No test inspects what a proof contains beyond verifying it.",
 [BP,BPRP,CCS],[("proof fields",CCS+": proofSet, proofUL; "+BP+": BulletProof")],["object graph of proofs/params, recorded random draws"],["proofSet.s,t,m","paramsSet.kp.Privk"])

prop("P16","Every proof and key uses fresh, full-entropy randomness",
 "Each Prove, ProveGeneric, ProveSet, ProveUL and Keygen call draws at least as many full-range scalars as the protocol needs (5+2N for a bulletproof, 3 for a set proof, 1+3l for a UL proof, 1 for a key), and every draw influences the result. No group element or response scalar is repeated between two proofs, even of the same secret with the same parameters.",
 ["histories","inputs"],"all sequences of proofs, same and different secrets, all random streams",
 "Tests never compare two proofs nor look at the randomness consumed.",
 [BP,CCS,BB],[("random draws",BP+": Prove, sampleRandomVector; "+CCS+": ProveSet, ProveUL; "+BB+": Keygen")],["byte stream taken from crypto/rand.Reader, proof components"])

prop("P17","A failing random source never yields a proof or key",
 "If the system's random source fails at any point of Prove, ProveGeneric, SetupSet, SetupUL, ProveSet, ProveUL, Keygen, RandomG1 or RandomG2, the call does not return a proof, parameters or key as if it had succeeded: it reports an error or aborts.",
 ["fault_sequences"],"a failure injected at every read of the random source, for every operation and several sizes",
 "Tests run with a random source that never fails.",
 [BP,CCS,BB,BN],[("ignored errors of rand.Int",BP+": Prove; "+CCS+": ProveSet")],["outcome of the call with failure injected at each read"])

prop("P18","Fiat-Shamir challenges bind every input",
 "The challenge functions (HashBP, HashSet, Hash and hashIP) are deterministic functions of the group elements they are given, independent of their internal (projective or affine) representation, and change whenever any one input element, scalar or its position changes. The two challenges returned by HashBP differ from each other.",
 ["inputs"],"all tuples of group elements and all single-element changes, swaps and representations",
 "Tests compare two fixed vectors, with an assertion that passes if either half is right.",
 [BPU,BIP,UT],[("hashing",BPU+": HashBP; "+UT+": HashSet, Hash; "+BIP+": hashIP")],["hash outputs"])

prop("P19","secp256k1 group operations compute the exact group law",
 "Multiply, Double, Neg, ScalarMult, ScalarBaseMult, IsZero and IsOnCurve on p256.P256 agree with the affine group law of y^2=x^3+7 for all points (including infinity in either representation, equal and opposite operands, points sharing an x or y coordinate, P and endomorphism images) and all integer scalars (zero, negative, at or above the group order, with leading zero bytes). Add agrees for all pairs of points that are not equal, including when either is infinity. IsOnCurve is true exactly for affine points on the curve.",
 ["inputs"],"all pairs of group elements and all integers",
 "Tests add two fixed points and multiply by fixed scalars.",
 [P256,MYC],[("group law",P256+"; "+MYC)],["returned coordinates against an independent affine implementation"])

prop("P20","Public generators are deterministic, valid and distinct",
 "MapToGroup maps every string to a point on the curve other than infinity, the same one each time, following try-and-increment SHA-256 hashing, and distinct strings give distinct points (strings that start with a decimal digit aside, which the counter prefix makes ambiguous). The generators in the parameters (H, all Gg and Hh, and the inner-product U) are the MapToGroup images of their seeds, the same in every setup, pairwise distinct, and the first N of a larger setup equal those of a smaller one.",
 ["inputs","histories"],"all strings (empty, long, non-ASCII) and all setups",
 "The test calls MapToGroup once and ignores the result.",
 [P256,BP,BIP],[("hash to point",P256+": MapToGroup, F, HashToInt"),("generators",BP+": Setup; "+BIP+": setupInnerProduct")],["points returned, compared with an independent implementation"])

prop("P21","Pedersen commitments are g^x h^r for all integers",
 "CommitG1(x,r,h) equals g^x h^r in secp256k1 and Commit(x,r,h) equals g^x h^r in bn256 G2, for all integers x and r (negative, zero, at or above the order) and every h; commitments are additively homomorphic and two commitments with different (x,r) modulo the order are different for an h of unknown discrete logarithm.",
 ["inputs"],"all integers x,r and group elements h",
 "Commitments are only exercised indirectly with random r and small x.",
 [UT,P256,BN],[("commitments",UT+": Commit, CommitG1")],["commitment values against a reference"])

prop("P22","bn256 G1 and G2 operations compute the exact group law",
 "Add, Neg, ScalarMult and ScalarBaseMult on bn256 G1 and G2 agree with the affine group law for all group elements (infinity, equal, opposite, affine or projective representation, receiver equal to an operand) and all integer scalars, including zero, negative ones and ones at or above the order; Order times any element is the identity.",
 ["inputs"],"all pairs of elements, representations, alias patterns and integers",
 "Tests check a few random multiples and sums with themselves, never against an independent implementation.",
 [BN,CUR,TW,G2F],[("Jacobian formulas",CUR+"; "+TW)],["marshalled results against an independent affine implementation"])

prop("P23","The pairing is bilinear, non-degenerate and representation-independent",
 "For all integers a, b: Pair(g1^a, g2^b) = Pair(g1,g2)^(ab), it is the identity exactly when one argument is, it is multiplicative in each argument, it does not depend on whether a point is affine or projective, and e(g1,g2) has order Order. PairingCheck returns true exactly when the product of the pairings is the identity, for any number of pairs including infinities.",
 ["inputs"],"all pairs of elements in all representations, all lists of pairs",
 "Tests check bilinearity on a few random affine inputs.",
 [OPT,BN,G12F,G6F,TW],[("Miller loop and final exponentiation",OPT+": miller, finalExponentiation, optimalAte")],["pairing outputs"])

prop("P24","GT arithmetic is exact",
 "Add, Neg, Invert, ScalarMult, Exp, IsOne and IsZero on GT agree with multiplication, inversion and exponentiation in GF(p^12) for all elements and all integer exponents (zero, negative, at or above the order), also when the receiver is an operand.",
 ["inputs"],"all elements of GT and all integer exponents",
 "Tests check g^k with few positive k.",
 [BN,G12F,G6F,G2F],[("tower arithmetic",G12F+"; "+G6F+"; "+G2F)],["marshalled results against a naive GF(p^12) implementation"])

prop("P25","bn256 serialization is canonical, lossless and rejects invalid input",
 "Marshal gives the same bytes for every representation of a G1, G2 or GT element, Unmarshal(Marshal(e)) equals e (identity included), and Unmarshal accepts a byte string only if it is the encoding of a group element: wrong length, coordinates not below p, points off the curve and points outside the order-Order subgroup are rejected (all-zero bytes decode as the identity).",
 ["inputs"],"all group elements in all representations and all byte strings",
 "Tests round-trip a few random affine elements and never decode invalid data.",
 [BN,CUR,TW],[("encoding",BN+": Marshal, Unmarshal")],["bytes and accept/reject decisions"])

prop("P26","Group operations leave their operands unchanged and allow aliasing",
 "Operations on p256, bn256 G1/G2/GT points and on scalars change only their receiver: the values of all other operands, of package-level generators and of scalars stay the same, also after later operations on the result. Where the receiver is also an operand the result is the same as with a separate receiver.",
 ["programs","inputs"],"all short programs of group operations over a shared pool of values",
 "Tests never check operands after an operation.",
 [P256,BN,CUR,TW,G12F,UT],[("shared coordinates and in-place normalization",P256+": Multiply, Add; "+CUR+": MakeAffine")],["values of all live objects after each step, against a model"])

prop("P27","Boneh-Boyen signatures verify exactly for the signed message and key",
 "Keygen returns a usable key pair with no error; for every key and every integer message m, Sign gives a signature that verify accepts for m (and for every value congruent to m modulo the order) and rejects for any other message, any other key and any altered signature. Signing the one message for which no signature exists (m = -sk) returns an error.",
 ["inputs"],"all keys and messages (zero, negative, larger than the order)",
 "The test signs one message with one key.",
 [BB,BN],[("sign/verify",BB+": Keygen, Sign, verify")],["errors and results of Sign/verify"])

prop("P28","Two's-complement byte conversion is exact and minimal",
 "For every integer n, FromByteArray(ToByteArray(n)) = n and ToByteArray(n) is the shortest big-endian two's-complement encoding of n; for every non-empty byte string (with any sign extension) FromByteArray returns its two's-complement value, and an empty one is an error. FlipBytes returns the complement of every byte. Inputs are not modified.",
 ["inputs"],"all integers and byte strings, in particular around powers of 2 and sign boundaries",
 "Tests use about ten fixed values.",
 [BC],[("conversion",BC+": FromByteArray, ToByteArray, FlipBytes")],["returned values against an independent codec"])

prop("P29","Decimal parsing is exact and rejects malformed input",
 "ConvertToBigInt returns the value of every string of the form [-]digits (an empty string is 0) and an error for everything else; ParseInput returns the values of comma-separated such fields in order, or an error if any field is malformed.",
 ["inputs"],"all byte strings",
 "Tests use a fixed list of inputs.",
 [PARSE,IC],[("parser",PARSE+": ParseInput, ConvertToBigInt; "+IC+": BigFromBase10")],["returned values against an independent grammar"])

prop("P30","Base-u decomposition is exact",
 "For every non-negative x < u^l with u >= 2, Decompose(x,u,l) returns exactly l digits in [0,u) with sum of digit_i*u^i = x; for any other integer x the digits are in [0,u) and represent x modulo u^l. The argument x is not modified.",
 ["inputs"],"all integers x, bases u and lengths l",
 "The test decomposes 925 in base 10.",
 [UT],[("decomposition",UT+": Decompose")],["digits returned"])

prop("P31","Vector algebra is exact modulo the group order",
 "VectorAdd, VectorSub, VectorMul, VectorScalarMul, ScalarProduct, VectorCopy, VectorConvertToBig, VectorECAdd and VectorExp return component-wise (respectively inner-product, multi-exponentiation) results, reduced to [0,ORDER) for scalars, for all integer inputs and lengths, return an error when two vectors differ in length, and do not modify their inputs.",
 ["inputs"],"all vectors of integers and points, equal and unequal lengths, negative and oversized entries",
 "Tests use three-element vectors of small numbers.",
 [VEC,BPU],[("vectors",VEC+"; "+BPU+": ScalarProduct, VectorExp")],["returned vectors against math/big and a reference curve"])

prop("P32","Modular arithmetic helpers are exact and pure",
 "bn.Add, Sub, Multiply, Mod, ModInverse and ModPow return the mathematically exact results (ModPow also for negative exponents of invertible bases; ModInverse is nil exactly when no inverse exists), CalculateHash is SHA-256 over the two's-complement bytes of its arguments read as a signed integer and is sensitive to each of them, and none of them modifies its arguments.",
 ["inputs"],"all integers and positive moduli",
 "Tests use a few small values.",
 [BNU,BC],[("helpers",BNU)],["returned values against independent computation"])

prop("P33","Concurrent use of shared parameters and proofs is free of data races",
 "Goroutines that share one set of parameters or one proof and only prove, verify, encode or read them concurrently do not race, and each call returns the same result as it would alone.",
 ["schedules"],"all interleavings of concurrent prove, verify, marshal and string calls over shared values",
 "Tests are single-threaded.",
 [BP,BIP,BPRP,CCS,BN,CUR,TW,G12F,P256],[("in-place normalization of shared points",CUR+": MakeAffine; "+TW+": MakeAffine; "+BIP+": Verify")],["race detector reports, results of concurrent calls"])

prop("P34","Setup accepts exactly the supported range ends",
 "Setup(b) succeeds exactly for b = 2^N with N in {1,2,4,8,16,32} and then reports that N with N generators in each list; for every other int64 it returns an error and never panics. IsPowerOfTwo is true exactly for positive powers of two.",
 ["inputs"],"all int64 values",
 "Tests try four values of b.",
 [BP,BPU],[("validation",BP+": Setup; "+BPU+": IsPowerOfTwo")],["Setup error/params, IsPowerOfTwo result"])

prop("P35","The inner-product argument accepts exactly true statements",
 "For vectors a, b of power-of-two length and P = g^a h^b, the argument produced by proveInnerProduct verifies if and only if the claimed c equals <a,b> modulo the group order, and not when any L, R, a, b, P, U or the claimed c is changed. Vectors of different length are refused with an error.",
 ["inputs","programs"],"all vectors (zero, negative, oversized entries) of length 1..64, all claims and substitutions",
 "The test runs one vector of length four.",
 [BIP,BPU,VEC],[("argument",BIP+": proveInnerProduct, InnerProductProof.Verify")],["Verify result"])

prop("P36","Arithmetic in the tower of fields under bn256 is exact",
 "Every operation on GF(p^2), GF(p^6) and GF(p^12) elements of package bn256 (add, subtract, negate, double, multiply, square, scale, invert, conjugate, Frobenius, multiply by tau, xi or tau^2, exponentiate) gives the element of the field that mathematics says, for every representative of its operands (reduced or not), whatever values recycled temporaries hold, and also if the receiver is one of the operands; it returns its receiver and changes no other operand. IsZero and IsOne tell reduced elements apart from all others. G1.CurvePoints and the points that SetZero makes agree with the affine coordinates.",
 ["inputs","histories"],"all field elements and representatives, operand aliasing, all contents of the pool of temporaries",
 "Tests invert and square a handful of elements; a slip in a term, in a temporary or under aliasing shows for other values or only after other operations.",
 [G2F,G6F,G12F,BN],[("tower",G2F+"; "+G6F+"; "+G12F+": Mul, Square, Invert, MulTau, Frobenius, Exp"),("pool",BN+": bnPool.Get/Put")],["coefficients of the results, against polynomials modulo the field polynomial"])

prop("P37","Earlier parameters, proofs and inputs are never changed by later calls",
 "Setting up systems and making or verifying proofs, in any order and for any mixture of systems (bulletproofs, generic range proofs, ccs08 set, UL and interval proofs), leaves every input (secret, blinding factor, set), all parameters and all earlier proofs as they were; earlier proofs still verify with the same result. A caller who reuses the memory of an input after a call returned affects neither parameters nor proofs.",
 ["histories"],"all sequences of setups, proofs and verifications over values that are still alive, and reuse of inputs between them",
 "Each test makes one set of parameters and one proof, and looks at neither after a second call.",
 [BP,BIP,BPRP,CCS,UT,P256],[("in-place arithmetic on big.Int and points",BP+": Prove; "+CCS+": ProveSet, ProveUL, Prove; "+UT+": Decompose")],["snapshots of everything alive after each call"])

prop("P38","Setup publishes signatures for exactly the advertised messages",
 "SetupSet publishes one valid signature for each element of the given set, SetupUL and the interval Setup for each digit 0..u-1, each filed under its message, and none for any other message; all under one fresh key pair per setup that is in the published public key. The base h of the commitments is a valid element other than the identity and the generator, and differs from setup to setup. The reported u, l, a and b are those asked for (for intervals: u^l >= b - a).",
 ["inputs","configurations"],"all sets (negative, repeated, extreme elements), bases and lengths, intervals; the messages next to the advertised ones",
 "Tests prove members; nothing looks for a signature too many, which lets one false secret through.",
 [CCS,BB],[("signing loop",CCS+": SetupSet, SetupUL, ccs08.Setup"),("signature",BB+": Sign")],["published signatures against the signing key and by the pairing equation"])

prop("P39","The commitment in a proof opens to the secret and its blinding factor",
 "The commitment in every proof is g^x h^r: for ccs08 set and UL proofs with the secret x and the r given by the caller, for interval proofs with x - b + u^l and x - a and the same r, for bulletproofs with the secret and a factor drawn from the random source, and for generic range proofs with x - b + 2^32 and x - a and one common factor.",
 ["inputs"],"all secrets (negative set elements, extremes), all integer blinding factors, all intervals",
 "Tests only look at Verify; a proof about another commitment than the caller believes to have made verifies just as well.",
 [CCS,BP,BPRP,UT],[("commitments",CCS+": ProveSet, ProveUL, Prove; "+UT+": Commit; "+BPU+": CommitG1; "+BPRP+": ProveGeneric")],["the commitment in the proof, recomputed"])

prop("P40","Bulletproofs and their verification follow the published equations",
 "Every proof that Prove makes satisfies, under challenges that are hashes of its elements, g^t' h^taux = V^(z^2) g^delta T1^x T2^(x^2) (65), A S^x g^-z h'^(z y^n + z^2 2^n) = h^mu Commit (66, 67), and its inner-product argument is valid for Commit and t' over the generators g and h'; both halves of a generic proof likewise. Conversely every proof that satisfies them, whoever made it and with whatever (also degenerate) random choices, verifies, and none that does not.",
 ["inputs","programs"],"all proofs, honest, independently made and altered, for all ranges and vector lengths 1..64",
 "Tests verify with the prover's own sibling; an error that prover and verifier share (a dropped term, another order of rounds) is invisible to them.",
 [BP,BIP,BPU,VEC],[("equations",BP+": Prove, Verify, delta, updateGenerators"),("rounds",BIP+": computeBipRecursive, InnerProductProof.Verify")],["proofs judged by an independent verifier; independent proofs judged by Verify"])

prop("P41","ccs08 proofs and their verification follow the published equations",
 "Every set, UL and interval proof satisfies, with the challenge c being the hash of its elements, D = C^c h^zr g^(sum zsig_i u^i) and a_i = e(y,V_i)^c e(g,V_i)^-zsig_i e(g,g)^zv_i with V_i not the identity, one V_i per digit. Conversely every proof that satisfies them, whoever made it and with whatever (also degenerate) random choices, verifies, and none that does not; an interval proof verifies if both halves do and their commitments differ by the shift between their secrets.",
 ["inputs","programs"],"all proofs, honest, independently made and altered, over all sets, bases, lengths and intervals",
 "Tests verify with the prover's own sibling; an error that prover and verifier share is invisible to them.",
 [CCS,UT,BB],[("equations",CCS+": ProveSet, VerifySet, ProveUL, VerifyUL, Verify")],["proofs judged by independent equations; independent proofs judged by Verify"])

prop("P42","Values and verdicts are the same in every process",
 "Parameters, generators, hashes, challenges, encodings of points and numbers, signatures, commitments, deterministic arguments, the JSON form of a proof and the verdict on it are functions of their inputs (and, for proofs and keys, of the random source) alone: another process, on another number of processors, in another environment or directory, with another history of successful, failed or concurrent calls, computes the same. A proof made in one process verifies in every other.",
 ["histories","configurations","environments"],"all functions that are not documented to draw randomness, all processes, environments, collector settings and histories of calls",
 "All tests run in one process, where prover and verifier share whatever is salted, cached or configured; the other party of a protocol never does.",
 [BP,BIP,BPU,CCS,BN,P256,UT],[("derivation of generators and challenges",P256+": MapToGroup, HashToInt; "+BPU+": HashBP; "+UT+": HashSet, Hash"),("package-level values","init and var blocks: "+UT+": G1, G2, E; "+P256+": CURVE; "+BN+": constants")],["answers of processes of their own, compared with those of this one"])

prop("P43","Texts of group elements are canonical and tell elements apart",
 "String of a secp256k1, G1, G2 or GT element is one text for every representation of the element (Jacobian or affine, reduced or not, each form of the identity), a different one for every other element (inverses, neighbours, elements with a coordinate in common), the same each time, and leaves the element unchanged; so the challenges and comparisons made from texts depend on exactly the elements.",
 ["inputs","histories"],"all group elements in all representations, and all pairs of elements",
 "No test compares the texts of different elements, and two paths to one element only for one pairing.",
 [P256,BN,CUR,TW,G12F,G2F,UT],[("texts","String of "+P256+", "+BN+", "+CUR+", "+TW+", "+G2F+", "+G12F),("challenges from texts",UT+": HashSet, Hash; "+BIP+": hashIP")],["texts of elements known by their discrete logarithm, kept in a table that must stay one-to-one"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P),"properties"); 
for p in P: assert len(p["title"])<=80,(p["id"],len(p["title"]))
