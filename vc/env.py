"""Initial states: the library's global data as its contracts describe it."""
from .exec import *
from .models import MODELS, RANDREADER, new_err
import z3 as _z3

H_EXP = named("h", 1, N - 1)      # discrete logarithm of H (unknown, not zero)
KC = "*" + BT + ".KoblitzCurve"

GX = 0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798
GY = 0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8
HALF = N // 2
LAMBDA = 0x5363AD4CC05C30E0A5261C028812645A122E22EA20816678DF02967C1B23BD72
BETA = 0x7AE96A2B657C07106E64479EAC3434E99CF0497512F58995C1396C28719501EE


def fields(prog, tname):
    return [f["n"] for f in prog.under(prog.byname[tname])["f"]]


def mkstruct(ex, tname, **kw):
    fs = prog_fields(ex.prog, tname)
    vals = []
    for f in fs:
        vals.append(kw.pop(f["n"]) if f["n"] in kw else ex.zero(f["t"]))
    if kw:
        raise Unsupported("%s has no field %s" % (tname, sorted(kw)))
    return StructV(vals)


def prog_fields(prog, tname):
    if tname not in prog.byname:
        raise Unsupported("no type " + tname)
    return prog.under(prog.byname[tname])["f"]


def field(ex, tname, v, name):
    for i, f in enumerate(prog_fields(ex.prog, tname)):
        if f["n"] == name:
            return v.f[i]
    raise Unsupported("%s has no field %s" % (tname, name))


def big(st, v, meta="input"):
    return st.new(BigV(v), meta)


def ecpoint(st, e, meta="input"):
    """The ECPoint for e*G."""
    return StructV([big(st, xc(e), meta), big(st, yc(e), meta)])


def base_state(ex):
    """A state in which the package globals satisfy their invariants."""
    st = State()
    g = lambda n, v, meta="global": (st.heap.__setitem__("g:" + n, v), st.meta.__setitem__("g:" + n, meta))
    prog = ex.prog
    if True:
        cp = st.new(mkstruct(ex, "crypto/elliptic.CurveParams",
                             P=big(st, T.P, "global"), N=big(st, N, "global"), B=big(st, 7, "global"),
                             Gx=big(st, xc(1), "global"), Gy=big(st, yc(1), "global"), BitSize=P_(256), Name=""), "global")
        kw = dict(CurveParams=cp, q=big(st, (T.P + 1) // 4, "global"), H=P_(1),
                  halfOrder=big(st, HALF, "global"), byteSize=P_(32))
        kw["lambda"] = big(st, LAMBDA, "global")
        kw["a1"] = big(st, 0x3086D221A7D46BCDE86C90E49284EB15, "global")
        kw["b1"] = big(st, -0xE4437ED6010E88286F547FA90ABFE4C3, "global")
        kw["a2"] = big(st, 0x114CA50F7A8E2F3F657C1108D9D44CFD8, "global")
        kw["b2"] = big(st, 0x3086D221A7D46BCDE86C90E49284EB15, "global")
        if ex.abstract_field:
            kw["beta"] = st.new(FV(P_(BETA), 1, True), "global")
        kw = {k: v for k, v in kw.items() if k in fields(prog, BT + ".KoblitzCurve")}
        g(BT + ".secp256k1", mkstruct(ex, BT + ".KoblitzCurve", **kw))
    g(BT + ".initonce", ModelV("once", True))
    for n, t in prog.globals.items():
        key = "g:" + n
        if key in st.heap:
            continue
        if prog.tname(prog.under(t)["e"]) == "error" or "error" == prog.tname(t):
            g(n, Iface("error", Opq(("errval", n))))
    curve = Iface(KC, Ptr("g:" + BT + ".secp256k1"))
    z = big(st, 0, "global")
    g(ZK + ".BigZero", z)
    g(ZK + ".Zero", StructV([z, z]))
    g(ZK + ".DEBUG", st.new(False, "global"))
    g("crypto/rand.Reader", RANDREADER)
    g(BT + ".one", big(st, 1, "global"))
    g(BT + ".oneInitializer", None)
    oi = ex_new_bytes(st, [("b", ONE)])
    st.heap["g:" + BT + ".oneInitializer"] = oi
    # wire globals
    for n in ("littleEndian", "bigEndian"):
        g(WI + "." + n, Iface("encoding/binary.%s" % n, StructV([])))
    g("encoding/binary.LittleEndian", StructV([]))
    g("encoding/binary.BigEndian", StructV([]))
    g(WI + ".binarySerializer", Ptr("chan:binser"))
    st.heap["chan:binser"] = ModelV("freelist", None)
    st.meta["chan:binser"] = "sync"
    g(WI + ".errNonCanonicalVarInt", "")
    g("io.EOF", Iface("error", Opq(("errval", "EOF"))))
    g("io.ErrUnexpectedEOF", Iface("error", Opq(("errval", "unexpected EOF"))))
    hp = st.new(ArrV([ecpoint(st, P_(1 << i), "global") for i in range(64)]), "global")
    st.zkpcp = mkstruct(ex, ZK + ".ZKPCurveParams", C=curve, G=ecpoint(st, ONE, "global"), H=ecpoint(st, H_EXP, "global"),
                        HPoints=Slice(hp, ZERO, P_(64), P_(64)))
    g(ZK + ".TestCurve", st.zkpcp)
    st.curve = curve
    return st


def ex_new_bytes(st, segs):
    p = st.new(BytesV(segs), "global")
    n = seqlen(segs)
    return Slice(p, ZERO, n, n)


# ---------------------------------------------------------------- contracts: points

CONTRACT_TEXT = {}


def contract(table, name, text):
    def deco(fn):
        table[name] = fn
        CONTRACT_TEXT[name] = text
        return fn
    return deco


CURVE = {}      # operations of the curve object
POINT = {}      # operations on ECPoint


def exp_of(ex, st, X, Y):
    """exponent of the point given by two *big.Int"""
    x, y = ex.big(st, X), ex.big(st, Y)
    x, y = st.pc.norm(x), st.pc.norm(y)
    e = point_of(x, y)
    if e is None:
        e = ite_point(x, y)
    if e is None:
        for px, py, pe in st.ghost.get("points", ()):
            if st.pc.norm(px) == x and st.pc.norm(py) == y:
                return pe
    if e is None:
        raise Unsupported("operand not known to be a point of the curve: (%r, %r)" % (x, y))
    return e


def ite_point(x, y):
    """Conditional points: sum over the cases of 0/1 terms."""
    bs = sorted(i for i in x.atoms() | y.atoms() if ATOMS[i].boolean)
    if not bs:
        return None
    b = bs[0]
    e = []
    for v in (ZERO, ONE):
        x2, y2 = subst_atoms(x, {b: v}), subst_atoms(y, {b: v})
        p = point_of(x2, y2)
        if p is None:
            p = ite_point(x2, y2)
        if p is None:
            return None
        e.append(p)
    B = Poly.atom(b)
    return toN((ONE - B) * e[0] + B * e[1])


def new_point(st, e, meta="fresh"):
    return StructV([st.new(BigV(xc(e)), meta), st.new(BigV(yc(e)), meta)])


def newxy(st, e, meta="fresh"):
    return (st.new(BigV(xc(e)), meta), st.new(BigV(yc(e)), meta))


def scalar(ex, st, s):
    return seq_val(ex.bytes_of(st, s))


@contract(CURVE, "(%s).ScalarMult" % KC,
          "requires (Bx,By) = e*G (identity: (0,0)); ensures result = value(k)*e*G; modifies nothing")
def _(ex, st, a, ins):
    e = exp_of(ex, st, a[1], a[2])
    return newxy(st, e * scalar(ex, st, a[3]), "alias")


@contract(CURVE, "(%s).ScalarBaseMult" % KC, "ensures result = value(k)*G, fresh; modifies nothing")
def _(ex, st, a, ins):
    return newxy(st, scalar(ex, st, a[1]))


@contract(CURVE, "(%s).ScalarBaseMultH" % KC, "ensures result = value(k)*H; modifies nothing")
def _(ex, st, a, ins):
    return newxy(st, scalar(ex, st, a[1]) * H_EXP, "alias")


@contract(CURVE, "(%s).Add" % KC,
          "requires both operands are points; ensures result = their sum, may alias an operand; modifies nothing")
def _(ex, st, a, ins):
    return newxy(st, exp_of(ex, st, a[1], a[2]) + exp_of(ex, st, a[3], a[4]), "alias")


@contract(CURVE, "(%s).Double" % KC, "requires (x1,y1) is a point; ensures result = its double; modifies nothing")
def _(ex, st, a, ins):
    return newxy(st, exp_of(ex, st, a[1], a[2]) * 2, "alias")


@contract(CURVE, "(%s).IsOnCurve" % KC, "ensures result <=> y^2 = x^3 + 7 mod P; modifies nothing")
def _(ex, st, a, ins):
    x, y = ex.big(st, a[1]), ex.big(st, a[2])
    e = point_of(st.pc.norm(x), st.pc.norm(y))
    if e is not None:
        return f_not(f_cong(e))
    return f_cong(y * y - x * x * x - 7, T.P)


def isnil(ex, st, v):
    if isinstance(v, IteV) and not maybe_nil(v):
        return False
    return ex.resolve(st, v) is NIL


def maybe_nil(v):
    if isinstance(v, IteV):
        return maybe_nil(v.a) or maybe_nil(v.b)
    return v is NIL


def curve_of(ex, st, z):
    c = ex.resolve(st, field(ex, ZK + ".ZKPCurveParams", z, "C"))
    if c != st.curve:
        raise Unsupported("another curve")


ZP = "(%s.ZKPCurveParams)" % ZK


@contract(POINT, ZP + ".Mult", "requires p = e*G, or nil; ensures result = (s mod N)*e*G  (nil for nil); modifies nothing")
def _(ex, st, a, ins):
    curve_of(ex, st, a[0])
    p = ex.resolve(st, a[1])
    X, Y = p.f
    if isnil(ex, st, X) and isnil(ex, st, Y):
        return StructV([NIL, NIL])
    e = exp_of(ex, st, X, Y)
    return new_point(st, e * ex.big(st, a[2]), "alias")


@contract(POINT, ZP + ".Add", "requires p, p2 points; ensures result = p + p2, may alias an operand; modifies nothing")
def _(ex, st, a, ins):
    curve_of(ex, st, a[0])
    p, q = ex.resolve(st, a[1]), ex.resolve(st, a[2])
    return new_point(st, exp_of(ex, st, *p.f) + exp_of(ex, st, *q.f), "alias")


@contract(POINT, ZP + ".Sub", "requires p, p2 points; ensures result = p - p2, may alias an operand; modifies nothing")
def _(ex, st, a, ins):
    curve_of(ex, st, a[0])
    p, q = ex.resolve(st, a[1]), ex.resolve(st, a[2])
    return new_point(st, exp_of(ex, st, *p.f) - exp_of(ex, st, *q.f), "alias")


@contract(POINT, ZP + ".Neg", "requires p a point; ensures result = -p, may alias p; modifies nothing")
def _(ex, st, a, ins):
    curve_of(ex, st, a[0])
    p = ex.resolve(st, a[1])
    return new_point(st, -exp_of(ex, st, *p.f), "alias")


@contract(POINT, "(%s.ECPoint).Equal" % ZK, "ensures result <=> both coordinates are equal; modifies nothing")
def _(ex, st, a, ins):
    p, q = ex.resolve(st, a[0]), ex.resolve(st, a[1])
    if any(isnil(ex, st, v) for v in p.f + q.f):
        raise Panic("nil coordinate")
    x1, y1, x2, y2 = [st.pc.norm(ex.big(st, v)) for v in p.f + q.f]
    e, f = point_of(x1, y1), point_of(x2, y2)
    if e is None:
        e = ite_point(x1, y1)
    if f is None:
        f = ite_point(x2, y2)
    if e is not None and f is not None:
        return f_cong(e - f)
    return f_and(f_eq(x1, x2), f_eq(y1, y2))


def point_exp(ex, st, v):
    """exponent of an ECPoint value found in a final state"""
    v = ex.resolve(st, v)
    return exp_of(ex, st, *v.f)
