"""Which obligations and which harness decide each property."""
from . import proto, rangep, pointp, fieldp, fieldc, keyp, ciphp, scalarp, constp, wirep, framep

P = {"GSPFS": proto.GSPFS, "GSPFS for the first generator": proto.GSPFSG, "Equivalence": proto.Equivalence, "Consistency": proto.Consistency,
     "Disjunctive": proto.Disjunctive, "ABC": proto.ABC, "Inequality": proto.Inequality}


def proto_section(p, name, what):
    getattr(proto, what)(p, P[name]())


NOT_APPLICABLE = {}

TECH = ("contract-based deductive verification: contracts on the functions of /repo, weakest preconditions by symbolic execution of "
        "their SSA form (exported from the source on every run), discharged by a polynomial/group normaliser and z3; "
        "counterexamples replayed by a harness on the real code")


class Spec:
    technique = TECH

    def level_note(self):
        return self.note or ("Every obligation is generated from the current source and discharged for all inputs, function by function. "
                             "Assumes: " + "; ".join(self.assume) + ".")

    def __init__(self, sections, harness=None, pkg="zksigma", race=False, files=(), assume=(), note="", more=()):
        self.note = note
        self.sections, self.harness, self.pkg = sections, harness, pkg
        self.harnesses = ([(pkg, list(files))] + list(more)) if harness else []
        self.race, self.files, self.assume = race, list(files), list(assume)


def pro(name, *what):
    return [("%s %s" % (name, w), proto_section, (name, w)) for w in what]


def rng_exact():
    groups = [[0, 1, 2, 3]] + [[n] for n in range(4, 65)]
    # balance: pair short with long
    gs = []
    ns = list(range(0, 65))
    k = 8
    for i in range(k):
        gs.append(ns[i::k])
    return [("range exactness for %s entries" % ",".join(map(str, g)), rangep.range_accept_exact, (g,)) for g in gs]


PROVERS = ["GSPFS for the first generator"]
ALL6 = ["GSPFS", "Equivalence", "Consistency", "Disjunctive", "ABC", "Inequality"]

A_CURVE = "curve contracts: Add, Double, ScalarMult, ScalarBaseMult, ScalarBaseMultH, IsOnCurve, Neg act as the group law on curve points (properties C02, C03)"
A_POINT = "point contracts: Mult, Add, Sub, Neg, Equal, PedCommitR as in property C01 and C05"
A_BIG = "models of math/big, crypto/rand.Int, crypto/sha256, bytes.Buffer, encoding/binary, sync, as documented by the Go standard library"
A_HASH = "the SHA-256 of distinct symbolic transcripts is an unconstrained digest; a digest congruent to 0 modulo the group order does not occur"
A_POINTS = "point arguments are on the curve or the identity"

SPECS = {}


def spec(pid, *a, **k):
    SPECS[pid] = Spec(*a, **k)


spec("C01", [("point operation " + w, pointp.point_op, (w,)) for w in ("Mult", "Mult of G", "Mult of H", "Add", "Sub", "Neg", "Equal")],
     "TestVC_C01", files=["points_test.go", "proofs_test.go"], assume=[A_CURVE, A_BIG])
A_FIELD = "field contracts as in property C04"
A_GROUP = "the affine formulas of chord and tangent define the group law, and lambda acts as multiplication of x by beta (textbook facts; the constants they need are checked as computations)"

A_JAC = "addJacobian, doubleJacobian and fieldJacobianToBigAffine act as in property C02"
A_TABLES = "the tables bytePoints and bytePointsH and the curve parameters are as in property C06"

FIELD_OPS = [("field " + f, fieldp.mul, (f,)) for f in ("Mul2", "Mul", "SquareVal", "Square")] + \
    [("field " + f, fieldp.linear, (f,)) for f in ("Add", "Add2", "AddInt", "MulInt", "Negate", "NegateVal", "Set", "SetInt")] + \
    [("field setters", fieldp.setters, ()), ("field encoding", fieldp.encode, ()), ("field predicates", fieldp.predicates, ()),
     ("field Normalize", fieldp.normalize, ()), ("field Inverse", fieldc.inverse, ())]
JAC_OPS = [("addJacobian %s %s%s%s" % (a, b, " in place" if al else "", " same z" if zs else ""), fieldc.jac_add, (a, b, al, zs))
           for a, b, al, zs in [(a, b, True, False) for a in "nu" for b in "nu"] + [("n", "n", False, True), ("n", "n", False, False)]] + \
    [("doubleJacobian %s%s" % (k, " in place" if al else ""), fieldc.jac_double, (k, al)) for k in "nu" for al in (True, False)] + \
    [("affine coordinates " + k, fieldc.to_affine, (k,)) for k in "nu"]

spec("C02", [("group facts", fieldc.group_facts, ())] + JAC_OPS + [("curve " + w, fieldc.affine_op, (w,)) for w in ("Add", "Double", "IsOnCurve")],
     "TestVC_C02", pkg="btcec", files=["curve_test.go", "field_int_test.go"], assume=[A_FIELD, A_GROUP, A_BIG])
SIGNS = [(a, b) for a in (False, True) for b in (False, True)]
spec("C03", [("splitK", scalarp.splitk, ()), ("moduloReduce", scalarp.reduce_, ()), ("NAF", scalarp.naf, ())] +
     [("ScalarMult with parts %s" % " ".join("-" if s else "+" for s in ab), scalarp.scalar_mult, ab) for ab in SIGNS] +
     [(w, scalarp.base_mult, (w, range(0, 33))) for w in ("ScalarBaseMult", "ScalarBaseMultH")],
     "TestVC_C03", pkg="btcec", files=["curve_test.go", "field_int_test.go"],
     assume=[A_FIELD, A_GROUP, A_JAC, A_TABLES, A_BIG])
spec("C04", FIELD_OPS, "TestVC_C04", pkg="btcec", files=["curve_test.go", "field_int_test.go"],
     assume=["the magnitude of a value bounds each word by the magnitude times its full word; SetHex is given hexadecimal digits, at most 68"])
spec("C05", [("commitment " + w, pointp.commit_op, (w,)) for w in ("PedCommitR", "PedCommit", "Open", "CommitR", "VerifyR", "KeyGen")],
     "TestVC_C05", files=["points_test.go", "proofs_test.go"], assume=[A_CURVE, A_POINT, A_BIG, A_POINTS])
spec("C06", [("btcec parameters", constp.init_btcec, ()), ("zksigma generators", constp.init_zk, ()),
             ("table of G", constp.table, ("secp256k1BytePoints",)), ("table of H", constp.table, ("secp256k1BytePointsH",))],
     "TestVC_C06", pkg="btcec", files=["curve_test.go", "const_test.go", "field_int_test.go", "tables_int_test.go"],
     more=[("zksigma", ["const_test.go"])],
     assume=[A_CURVE, A_BIG, "loadS256BytePoints and loadS256BytePointsH decode the constant data (they have no input: the harness compares all 2 x 8192 loaded entries in one run)",
             "no scalar relating H to G is known because H is the hash-derived point SHA-256(Gx + 2)"])
for pid, name, what in (("C10", "GSPFS", "completeness"), ("C11", "GSPFS", "exactness"),
                        ("C12", "Equivalence", "completeness"), ("C13", "Equivalence", "exactness"),
                        ("C14", "Consistency", "completeness"), ("C15", "Consistency", "exactness"),
                        ("C16", "Disjunctive", "completeness"), ("C17", "Disjunctive", "exactness"),
                        ("C18", "ABC", "completeness"), ("C19", "ABC", "exactness")):
    spec(pid, pro(name, what) + (pro(PROVERS[0], what) if pid == "C10" else []), "TestVC_" + pid, files=["proofs_test.go"], assume=[A_CURVE, A_POINT, A_BIG, A_HASH, A_POINTS])
spec("C20", pro("Inequality", "completeness", "exactness"), "TestVC_C20", files=["proofs_test.go"],
     assume=[A_CURVE, A_POINT, A_BIG, A_HASH, A_POINTS])
spec("C21", [("range domain", rangep.range_domain, ()), ("range completeness", rangep.range_completeness, ())],
     "TestVC_C21", files=["range_test.go"], assume=[A_CURVE, A_POINT, A_BIG, A_HASH])
spec("C22", [("range refusals", rangep.range_rejects, ())] + rng_exact(), "TestVC_C22", files=["range_test.go"],
     assume=[A_CURVE, A_POINT, A_BIG, A_HASH, A_POINTS])
spec("C23", sum([pro(n, "masking") for n in ALL6 + PROVERS], []) + [("range masking", rangep.range_masking, ())], "TestVC_C23",
     files=["range_test.go", "mask_test.go"], assume=[A_CURVE, A_POINT, A_BIG, A_HASH])
A_WIRE = "contracts of ReadVarInt, WriteVarInt (property C26)"
A_CODEC = "contracts of WriteBigInt, ReadBigInt, WriteECPoint, ReadECPoint (their bodies are proved against them in the same run)"
LENS = [tuple(range(i, 65, 11)) for i in range(11)]
spec("C24", [("integers", wirep.bigint_codec, ()), ("points", wirep.point_codec, ()), ("byte arrays", wirep.write_varbytes, ()),
             ("lengths", wirep.varint_roundtrip, ())] +
     [(k, wirep.kind_roundtrip, (k, (0,), False)) for k in wirep.KINDS[:-1]] +
     [("RangeProof with %s tuples" % ",".join(map(str, l)), wirep.kind_roundtrip, ("RangeProof", l, False)) for l in LENS],
     "TestVC_C24", files=["codec_test.go"], assume=[A_WIRE, A_CODEC, A_BIG])
spec("C25", [("integers", wirep.bigint_codec, ()), ("points", wirep.point_codec, ()), ("byte arrays", wirep.read_varbytes, ()),
             ("lengths", wirep.read_varint, ())] +
     [(k + " from arbitrary bytes", wirep.kind_arbitrary, (k,)) for k in wirep.KINDS] +
     [(k + " prefixes", wirep.kind_roundtrip, (k,)) for k in wirep.KINDS[:-1]] +
     [("RangeProof prefixes, %s tuples" % ",".join(map(str, l)), wirep.kind_roundtrip, ("RangeProof", l)) for l in LENS],
     "TestVC_C25", files=["codec_test.go"], assume=[A_WIRE, A_CODEC, A_BIG, "inputs are shorter than 2^50 bytes"])
spec("C26", [("ReadVarInt", wirep.read_varint, ()), ("WriteVarInt", wirep.write_varint, ()), ("VarIntSerializeSize", wirep.varint_size, ()),
             ("round trip", wirep.varint_roundtrip, ()), ("ReadVarBytes", wirep.read_varbytes, ()), ("WriteVarBytes", wirep.write_varbytes, ())],
     "TestVC_C26", pkg="wire", files=["wire_test.go"],
     assume=["models of io.ReadFull and encoding/binary; a channel receives what was sent", "streams are shorter than 2^50 bytes"])
spec("C28", sum([pro(n, "rng_failure") for n in ALL6 + PROVERS], []) + [("range randomness failure", rangep.range_rng, ()),
             ("RandomUint64", wirep.random_uint64, ())],
     "TestVC_C28", files=["rng_test.go"], more=[("wire", ["wire_test.go", "rng_test.go"])], assume=[A_CURVE, A_POINT, A_BIG])
spec("C29", sum([pro(n, "nil_and_consistent") for n in ALL6], []) + [("range refusals", rangep.range_rejects, ())],
     "TestVC_C29", files=["proofs_test.go", "range_test.go", "nil_test.go"], assume=[A_CURVE, A_POINT, A_BIG, A_POINTS])
KEYOPS = ["curve_test.go", "field_int_test.go", "key_test.go"]
A_SQRT = "P is prime and 3 modulo 4, so x^3 + 7 is a square exactly if the square of its (P+1)/4-th power is x^3 + 7"
spec("C30", [("ParsePubKey", keyp.parse_pubkey, ()), ("Serialize", keyp.serialize_pubkey, ()), ("paddedAppend", keyp.padded, ()),
             ("round trip", keyp.roundtrip_pubkey, ()), ("private keys", keyp.private_key, ()), ("NewPrivateKey", ciphp.new_key, ()), ("IsCompressedPubKey", keyp.compressed, ())],
     "TestVC_C30", pkg="btcec", files=KEYOPS, assume=[A_CURVE, A_BIG, A_SQRT, "contract of ecdsa.GenerateKey: a key from 1 to N-1 with its public key, or an error"])
spec("C31", [("canonicalizeInt", keyp.canonicalize, ()), ("canonicalPadding", keyp.padding, ()), ("Serialize", keyp.serialize_sig, ()),
             ("strict parsing", keyp.parse_sig, (True,)), ("lenient parsing", keyp.parse_sig, (False,)), ("round trip", keyp.roundtrip_sig, ()),
             ("IsEqual", keyp.sig_equal, ())],
     "TestVC_C31", pkg="btcec", files=KEYOPS + ["sig_test.go"], assume=[A_BIG, "contract of Params (property C06)"])
spec("C32", [("hashToInt", keyp.hash_to_int, ()), ("int2octets", keyp.octets, ()), ("nonceRFC6979", keyp.nonce, ()), ("Sign", keyp.sign, ()),
             ("decompressPoint", keyp.decompress, ()), ("recoverKeyFromSignature", keyp.recover, ()), ("the signer's iteration", keyp.solution, ()),
             ("Verify", keyp.verify, ()),
             ("SignCompact", keyp.compact, ()), ("RecoverCompact", keyp.recover_bytes, ()), ("paddedAppend", keyp.padded, ())],
     "TestVC_C32", pkg="btcec", files=KEYOPS + ["sig_test.go", "sign_test.go"],
     assume=[A_CURVE, A_BIG, A_SQRT, A_POINTS, "HMAC-SHA256 is a function of key and message", "no nonce gives a point with the x coordinate N",
             "contract of ecdsa.Verify: for a curve given by its parameters it decides the signature equation"])
spec("C33", [("padding", ciphp.pad, ()), ("GenerateSharedSecret", ciphp.secret, ()), ("Encrypt", ciphp.encrypt, ()), ("Decrypt", ciphp.decrypt, ()),
             ("ParsePubKey", keyp.parse_pubkey, ())],
     "TestVC_C33", pkg="btcec", files=KEYOPS + ["sig_test.go", "ciph_test.go"],
     assume=[A_CURVE, A_BIG, A_POINTS, "crypto/aes and crypto/cipher: CBC decryption undoes encryption under the same key and vector",
             "HMAC-SHA256 and SHA-512 are functions of their inputs", "ecdsa.GenerateKey returns a key from 1 to N-1 with its public key, or an error"])

_by = lambda pid: SPECS[pid].sections
spec("C27", framep.only(
    [x for pid in ("C01", "C05", "C02", "C04", "C26", "C30", "C31", "C33") for x in _by(pid) if x[0] not in ("group facts", "round trip", "paddedAppend")] +
    _by("C03") + [x for x in _by("C32") if x[0] not in ("the signer's iteration", "paddedAppend")] + sum([pro(n, "completeness", "exactness") for n in ALL6], []) + pro(PROVERS[0], "completeness") +
    [("range domain", rangep.range_domain, ()), ("range completeness", rangep.range_completeness, ())] + rng_exact() +
    [("integers", wirep.bigint_codec, ()), ("points", wirep.point_codec, ())] +
    [(k + " from arbitrary bytes", wirep.kind_arbitrary, (k,)) for k in wirep.KINDS] +
    [(k, wirep.kind_roundtrip, (k, (0,), False)) for k in wirep.KINDS[:-1]] +
    [("RangeProof with %s tuples" % ",".join(map(str, l)), wirep.kind_roundtrip, ("RangeProof", l, False)) for l in LENS] +
    [("first use of the curve", constp.first_use, ())]),
    "TestVC_C27", race=True, files=["frame_test.go"],
    more=[("btcec", ["frame_test.go"]), ("wire", ["wire_test.go", "frame_test.go"])],
    assume=[A_CURVE, A_POINT, A_BIG, "the standard library writes only to its documented results",
            "sync.Once runs its function once, and everybody else waits for it"])

# A caller is checked against the contracts of its callees; the callees' own obligations are part of the argument, so the
# check of a property also discharges the contracts (proved elsewhere as properties of their own) that it leans on most.


def lean_on(pid, *deps):
    have = {x[0] for x in SPECS[pid].sections}
    for d in deps:
        for x in (_by(d) if isinstance(d, str) else d):
            if "callee: " + x[0] not in have and x[0] not in have:
                have.add("callee: " + x[0])
                SPECS[pid].sections.append(("callee: " + x[0],) + tuple(x[1:]))


_C01, _C02, _C03, _C05 = (list(_by(x)) for x in ("C01", "C02", "C03", "C05"))
lean_on("C02", FIELD_OPS)
lean_on("C03", JAC_OPS, FIELD_OPS)
lean_on("C01", _C02, _C03, FIELD_OPS)
lean_on("C05", _C01)
for _p in ["C%d" % i for i in range(10, 24)] + ["C28", "C29"]:
    lean_on(_p, _C01, [x for x in _C05 if x[0] in ("commitment PedCommitR", "commitment PedCommit")])
lean_on("C30", [x for x in _C02 if x[0] in ("group facts", "curve IsOnCurve")], FIELD_OPS)
lean_on("C32", [x for x in _C02 if x[0].startswith("curve ")], [x for x in _C03 if not x[0].startswith("callee")])
lean_on("C33", [x for x in _C03 if not x[0].startswith("callee")])
