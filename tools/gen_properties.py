#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the anchors stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, title
    P.append(d)

SAMPLED = "The tests run a handful of fixed or random values; a 256-bit input space with algebraic corner cases is out of their reach."

p("C01", "Point operations are the secp256k1 group law",
  "For all curve points including the identity, written (0,0), the point addition, subtraction and negation return exactly the group sum, difference and inverse, and multiplication by any integer (negative, zero, or at least the group order) returns that integer times the point. Equality of two points holds exactly when both coordinates agree. The operations never change their operands.",
  ["inputs"], "all pairs of curve points (identity, equal, inverse pairs and generators included) and all integers as scalars",
  SAMPLED, ["crypto.go"],
  [("Mult, Add, Sub, Neg, Equal and their special cases for generators and the identity", "crypto.go")],
  ["ZKPCurveParams.Mult/Add/Sub/Neg", "ECPoint.Equal"])
p("C02", "Curve addition, doubling and curve membership are exact",
  "For all points of secp256k1, the identity included, the curve's affine addition and doubling return exactly the group sum and the double, in canonical coordinates below the field prime, whatever internal case they go through. A pair of coordinates is reported to be on the curve exactly when y^2 = x^3 + 7 modulo the field prime, for coordinates from 0 to 2^256 - 1.",
  ["inputs"], "all pairs of curve points and all coordinate pairs below 2^256, over all internal projective representations with every combination of z coordinates",
  SAMPLED, ["btcec/btcec.go"],
  [("Jacobian addition and doubling, conversion to and from affine", "btcec/btcec.go")],
  ["KoblitzCurve.Add", "KoblitzCurve.Double", "KoblitzCurve.IsOnCurve"])
p("C03", "Scalar multiplication is exact for every scalar and point",
  "For every byte string taken as a big-endian integer k, of any length and value, multiplication of an arbitrary curve point, of the base point and of the second generator returns exactly k times that point in canonical affine coordinates.",
  ["inputs"], "all byte strings k of every length (leading zeros, empty, values above the order included) and all curve points",
  SAMPLED + " The decomposition with signed digits has carry and sign cases of negligible probability.", ["btcec/btcec.go"],
  [("scalar decomposition, non-adjacent form, double-and-add loop, byte-window tables", "btcec/btcec.go")],
  ["KoblitzCurve.ScalarMult", "KoblitzCurve.ScalarBaseMult", "KoblitzCurve.ScalarBaseMultH", "NAF"])
p("C04", "Field arithmetic is exact modulo the field prime, without overflow",
  "Within the documented magnitude limits, every field operation (set, add, small-integer add and multiply, negate, multiply, square, invert, normalise, compare, parse and encode) yields the value of the corresponding operation modulo the field prime, and normalising yields the unique representative below it. No intermediate word wraps around.",
  ["inputs"], "all internal word vectors within the documented magnitude, not only normalised ones",
  "The tests multiply a few dozen fixed values; carries that appear only for particular unnormalised words are never reached.", ["btcec/field.go"],
  [("10-word representation in base 2^26 with delayed carries", "btcec/field.go")],
  ["observable through every curve operation"])
p("C05", "Pedersen commitments commit to, and open with, exactly the given values",
  "A commitment to (v, r) is v times the first plus r times the second generator for all integers v and r, and opening accepts exactly the pairs that give that point. A randomness commitment is r times the public key, its check accepts exactly the matching r modulo the group order, and a generated key pair satisfies public key = secret times base.",
  ["inputs"], "all integers v, r, sk (negative and unreduced included), all curve points as keys, bases and candidate commitments",
  SAMPLED, ["crypto.go"],
  [("PedCommit, PedCommitR, Open, CommitR, VerifyR, KeyGen", "crypto.go")],
  ["PedCommit", "PedCommitR", "Open", "CommitR", "VerifyR", "KeyGen"])
p("C06", "Curve parameters, generators and precomputed tables are consistent",
  "The published parameters are those of secp256k1, all generators are valid points of its group, multiplication tables hold exactly the multiples they stand for, and entry i of the range-proof generator list is 2^i times the first generator. The second generator is the one whose multiples the table-driven multiplication computes, is neither the identity nor the first generator or its inverse, and is not derived from the first by a known scalar.",
  ["configurations"], "every constant and each of the 2 x 8192 precomputed table entries and 64 range generators",
  "The tests touch a few table entries; a wrong entry or a mismatched generator shows only for scalars that contain one byte value at one position.", ["zksigma.go", "btcec/btcec.go", "btcec/precompute.go", "btcec/secp256k1.go", "btcec/secp256k1H.go"],
  [("curve initialisation, table decoding, generator list", "btcec/btcec.go initS256, btcec/precompute.go, zksigma.go init")],
  ["TestCurve", "btcec.S256"])

def comp(id, name, title, st, files, mech):
    p(id, title, st, ["inputs", "histories"], "all statements and witnesses of the right form and all outcomes of the random source",
      "The tests try a few witnesses; a completeness gap at a boundary value or for one outcome of the random source is not sampled, and tests cannot show that every false statement is refused.", files, mech)
def sound(id, title, st, files, mech):
    p(id, title, st, ["inputs"], "all statements and all proof objects with arbitrary field values, not only those made by the prover",
      "The tests try a few tampered proofs; acceptance of a forged one depends on which equations are checked and on what is hashed, for all inputs.", files, mech)

comp("C10", "GSPFS", "Schnorr proofs: every true statement is provable, no false one",
  "For every base point, secret and matching result point, creating a Schnorr proof succeeds when the random source does, and the proof verifies for that result point. Creation returns an error and no proof when the result point is not the secret times the base.",
  ["gspfs.go", "crypto.go"], [("NewGSPFSProof, NewGSPFSProofBase, GSPFSProof.Verify", "gspfs.go")])
sound("C11", "Schnorr verification accepts exactly the valid transcripts",
  "Verification accepts exactly when the response equation (s*Base + c*A = T) holds in the group and the challenge is the hash of a transcript that covers base, statement and commitment. Hence two accepted proofs with the same commitment and different challenges yield the secret.",
  ["gspfs.go", "crypto.go"], [("GSPFSProof.Verify, GenerateChallenge", "gspfs.go, crypto.go")])
comp("C12", "Equivalence", "Equivalence proofs: every true statement is provable, no false one",
  "For all bases and results that share the discrete logarithm x, creating an equivalence proof succeeds when the random source does, and the proof verifies for them. Creation returns an error and no proof when either result is not x times its base.",
  ["equivalence.go", "crypto.go"], [("NewEquivalenceProof, EquivalenceProof.Verify", "equivalence.go")])
sound("C13", "Equivalence verification accepts exactly the valid transcripts",
  "Verification accepts exactly when both response equations hold in the group with the same response and challenge, and the challenge is the hash of a transcript that covers both bases, both results and both commitments. Hence two accepted proofs with the same commitments and different challenges yield one secret for both results.",
  ["equivalence.go", "crypto.go"], [("EquivalenceProof.Verify, GenerateChallenge", "equivalence.go, crypto.go")])
comp("C14", "Consistency", "Consistency proofs: every true statement is provable, no false one",
  "For every public key, value and randomness with their commitment and token, creating a consistency proof succeeds when the random source does, and the proof verifies for them. Creation returns an error when the commitment or the token does not match the value, the randomness and the key.",
  ["consistency.go", "crypto.go"], [("NewConsistencyProof, ConsistencyProof.Verify", "consistency.go")])
sound("C15", "Consistency verification accepts exactly the valid transcripts",
  "Verification accepts exactly when the commitment equation and the token equation hold in the group with a shared second response, and the challenge is the hash of a transcript that covers generators, commitment, token, key and both proof commitments. Hence two accepted proofs with the same proof commitments and different challenges yield a value and one randomness for both commitment and token.",
  ["consistency.go", "crypto.go"], [("ConsistencyProof.Verify, GenerateChallenge", "consistency.go, crypto.go")])
comp("C16", "Disjunctive", "Disjunctive proofs: either side is provable with its witness alone",
  "For all bases and results where the chosen side's result is x times its base, whatever the other side is, creating a disjunctive proof succeeds for left and for right when the random source does, and the proof verifies. Creation returns an error for an invalid side or when the chosen side is not related by x.",
  ["disjunctive.go", "crypto.go"], [("NewDisjunctiveProof, DisjunctiveProof.Verify", "disjunctive.go")])
sound("C17", "Disjunctive verification accepts exactly the valid transcripts",
  "Verification accepts exactly when both response equations hold in the group, the two challenge shares add up to the challenge modulo the group order, and the challenge is the hash of a transcript that covers both bases, both results and both commitments. Hence two accepted proofs with the same commitments and different challenges yield the secret of at least one side.",
  ["disjunctive.go", "crypto.go"], [("DisjunctiveProof.Verify, GenerateChallenge", "disjunctive.go, crypto.go")])
comp("C18", "ABC", "ABC proofs: provable exactly for matching side and value",
  "For every value, randomness and invertible secret key with the commitment and token they define, creating an ABC proof succeeds for the left side when the value is zero and for the right side when it is not, taken modulo the group order, and the proof verifies for that commitment and token. Creation returns an error for every other combination of side and value and for a key without inverse.",
  ["abc.go", "disjunctive.go", "crypto.go"], [("NewABCProof, ABCProof.Verify", "abc.go")])
sound("C19", "ABC verification accepts exactly the valid transcripts",
  "Verification accepts exactly when the embedded disjunctive proof holds for (commitment, token) or (second generator, C minus one first generator), both product equations hold in the group, and the challenge is the hash of a transcript that covers generators, commitment, token, B, C and both proof commitments. Hence two accepted proofs with the same proof commitments and different challenges yield openings showing that C commits to the product of the values in the commitment and in B.",
  ["abc.go", "disjunctive.go", "crypto.go"], [("ABCProof.Verify", "abc.go")])
p("C20", "Inequality proofs exist exactly for unequal values",
  "For all commitments and tokens to values a and b under an invertible key, creating an inequality proof succeeds and verifies for the differences of commitments and tokens when a and b differ modulo the group order, and returns an error when they are equal. No proof accepted for two commitments that hold the same value can be made.",
  ["inputs"], "all values, randomness and keys; all proof objects",
  "The tests use a few pairs of small values.", ["inequality.go", "abc.go"],
  [("NewInequalityProof, InequalityProof.Verify", "inequality.go")])
comp("C21", "Range", "Range proofs: provable exactly for values from 0 to 2^40 - 1",
  "For every value from 0 to 2^40-1 creating a range proof succeeds when the random source does, and it verifies for the commitment to that value under the returned randomness, whatever the schedule of its goroutines. For every other value an error and no proof is returned.",
  ["rangeproof.go", "crypto.go"], [("NewRangeProof and its two parallel phases, RangeProof.Verify", "rangeproof.go")])
sound("C22", "Range verification accepts exactly the valid ring transcripts",
  "Verification accepts exactly when the challenge is the hash of all per-bit ring points in order, each computed from its tuple, its generator 2^i*G and the challenge, and the per-bit commitments add up to both the stated aggregate and the commitment. A proof with more entries than there are generators, or with missing entries, is rejected, whatever the schedule of the goroutines.",
  ["rangeproof.go", "crypto.go"], [("RangeProof.Verify, verifyGen", "rangeproof.go")])
p("C23", "Proofs reveal nothing but the statement: responses are uniformly masked",
  "Every scalar in a proof is reduced modulo the group order, and for a fixed challenge the map from the prover's random draws to the published scalars and hiding commitments is one-to-one onto all residues for every witness and either side, so their distribution does not depend on the witness or the proven side. Every mask is drawn independently from the full range below the group order and used once.",
  ["inputs", "histories"], "all statements, witnesses, sides and random draws",
  "No test looks at response distributions; a leak is invisible to round-trip tests.", ["gspfs.go", "equivalence.go", "consistency.go", "disjunctive.go", "abc.go", "rangeproof.go"],
  [("random masks and reduced responses in every prover", "all provers")])
p("C24", "Serialisation round-trips for every proof and value",
  "Every proof of each kind whose points have coordinates and whose scalars have magnitude below 2^256 deserialises from its serialisation to a proof with equal fields, and so do points and signed integers. Trailing data after a value is left unread.",
  ["inputs"], "all field values in range, including zero, short and negative ones, and range proofs of every length up to the number of generators",
  "The tests round-trip one random proof of each kind; short encodings with leading zero bytes occur with probability 2^-8 or less per field.", ["crypto.go", "gspfs.go", "equivalence.go", "consistency.go", "disjunctive.go", "abc.go", "rangeproof.go", "wire/common.go"],
  [("Bytes, New...FromBytes, WriteECPoint/ReadECPoint, WriteBigInt/ReadBigInt", "root package"), ("variable-length encodings", "wire/common.go")])
p("C25", "Deserialising arbitrary bytes never panics and never hides an error",
  "For every byte string, every deserialiser returns without panic either a proof in which all parts are present, or an error and no proof; in particular, every strict prefix of a serialised proof is rejected. Memory allocated on behalf of announced lengths stays proportional to the input or to a fixed limit.",
  ["inputs"], "all byte strings, including truncated, oversized-length and empty ones",
  "The tests never deserialise malformed data.", ["crypto.go", "gspfs.go", "equivalence.go", "consistency.go", "disjunctive.go", "abc.go", "rangeproof.go", "wire/common.go"],
  [("error propagation and length limits in the readers", "crypto.go, wire/common.go, New...FromBytes")])
p("C26", "Variable-length integers and byte arrays: canonical and bounded codec",
  "Writing any 64-bit integer produces its unique canonical encoding, of exactly the announced size, and reading accepts exactly canonical encodings and returns their value. Byte arrays round-trip, an array longer than the limit given by the caller is refused before it is allocated, and read and write errors are passed on.",
  ["inputs", "fault_sequences"], "all 64-bit integers, all byte strings as encodings, all limits, a failing reader or writer at every position",
  "There are no tests of this package.", ["wire/common.go"],
  [("ReadVarInt, WriteVarInt, VarIntSerializeSize, ReadVarBytes, WriteVarBytes", "wire/common.go")])
p("C27", "Inputs and shared state are never modified",
  "No operation of the library changes the points, integers, byte slices, proofs or curve parameters passed to it or the shared constants, and a returned object is not changed by later operations. Concurrent use of the library on shared inputs is therefore free of data races, and inside it goroutines write only to memory of their own.",
  ["inputs", "schedules", "histories"], "all inputs, all interleavings of concurrent calls and of internal goroutines",
  "The tests do not compare inputs before and after and run sequentially.", ["crypto.go", "gspfs.go", "equivalence.go", "consistency.go", "disjunctive.go", "abc.go", "inequality.go", "rangeproof.go", "wire/common.go", "btcec/btcec.go"],
  [("fresh results for all big-integer arithmetic, free list of scratch buffers, per-index writes of goroutines", "all files")])
p("C28", "A failing random source yields an error, never a proof or a panic",
  "When the random source fails at any draw, commitment creation and every prover return an error and no proof, without panic, deadlock or leaking goroutines, and never fall back to predictable randomness. A random 64-bit integer is made of eight bytes of the source, or is an error.",
  ["fault_sequences"], "every position of the first failure in the sequence of random draws of every prover and commitment function",
  "The tests never make the random source fail.", ["crypto.go", "gspfs.go", "equivalence.go", "consistency.go", "disjunctive.go", "abc.go", "inequality.go", "rangeproof.go", "wire/common.go"],
  [("error checks after each draw", "all provers"), ("RandomUint64", "wire/common.go")])
p("C29", "Verifiers answer consistently and reject missing proofs",
  "Every verifier returns either true with no error or false with an error, never anything else, for every proof with all parts present, and rejects a missing proof with an error instead of a panic.",
  ["inputs"], "all statements and proofs with all parts present, and nil proofs of each kind",
  "The tests check one nil proof at most and only one of the two results.", ["gspfs.go", "equivalence.go", "consistency.go", "disjunctive.go", "abc.go", "inequality.go", "rangeproof.go"],
  [("Verify methods", "all proof files")])
p("C30", "Public and private keys: encodings are exact, parsing accepts only curve points",
  "Every public key round-trips through its compressed, uncompressed and hybrid encodings, and every private key serialises to its 32-byte value. Parsing any byte string never panics and accepts exactly the three encodings, with the right prefix and parity, of points on the curve with coordinates below the field prime; IsCompressedPubKey recognises 33 bytes with a compressed prefix. A new private key is from 1 to the group order minus 1 and comes with its public key, or there is an error and no key.",
  ["inputs"], "all keys and all byte strings of every length",
  "There are no tests of key encodings here; short coordinates and invalid points are rare.", ["btcec/pubkey.go", "btcec/privkey.go"],
  [("ParsePubKey, decompressPoint, Serialize...", "btcec/pubkey.go, btcec/privkey.go")])
p("C31", "Signature encodings: strict parsing, exact round-trip",
  "Serialising a signature with components from 1 to the group order minus 1 gives its minimal encoding with the smaller of s and its negation, which parses strictly and leniently to that signature. Parsing any byte string never panics and accepts only encodings with both components in that range; strict parsing accepts exactly the minimal encodings of them (bytes after the announced length are ignored).",
  ["inputs"], "all signatures and all byte strings of every length",
  "There are no tests of signatures here.", ["btcec/signature.go"],
  [("Serialize, parseSig, canonicalizeInt, canonicalPadding", "btcec/signature.go")])
p("C32", "Signing, verification and key recovery follow the signature equation",
  "For every private key from 1 to the group order minus 1 and every hash, signing returns (r, s) with s at most half the order that satisfies the signature equation for the public key, deterministically with the nonce of RFC 6979. Verification accepts a pair (r, s) for a hash of at least one byte and a key on the curve exactly when both are from 1 to the group order minus 1 and satisfy that equation. A compact signature recovers exactly the signer's public key and compression flag, and recovery from arbitrary bytes never panics and returns only points on the curve that satisfy the equation, or an error.",
  ["inputs"], "all keys, hashes of every length, pairs of integers as signatures, and byte strings as compact signatures",
  "There are no tests of signatures here.", ["btcec/signature.go", "btcec/privkey.go"],
  [("signRFC6979, Verify, hashToInt, recoverKeyFromSignature, SignCompact, RecoverCompact", "btcec/signature.go")])
p("C33", "Encryption round-trips and decryption rejects what was not authenticated",
  "For every key pair and every plaintext of any length, decrypting an encryption returns the plaintext, the message has the documented layout (vector, curve tag 02CA, each coordinate with its length 0020 and 32 bytes, CBC ciphertext, HMAC-SHA256 over all of it), and the caller's data is untouched. Decrypting any byte string never panics, and returns data only if the authentication code over all preceding bytes matches under the shared secret (the big-endian x coordinate of the product point, hashed with SHA-512), which both sides derive equally, and tag and lengths are as laid out.",
  ["inputs"], "all keys, all plaintexts of every length (block multiples and empty included), all byte strings as ciphertexts",
  "There are no tests of encryption here.", ["btcec/ciphering.go", "btcec/privkey.go"],
  [("Encrypt, Decrypt, GenerateSharedSecret, padding", "btcec/ciphering.go")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
