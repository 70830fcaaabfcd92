"""Contracts of the field operations on values (proved in C04), and the curve formulas that use them (C02)."""
from .proto import *
from .pointp import frames, live, iff
from .fieldp import MAX, MULMAX
from .terms import P as PP
from .models import MODELS

FT = BT + ".fieldVal"
FM = "(*%s)." % FT
KM = "(*%s.KoblitzCurve)." % BT
FIELD = {}


def fresh_tag():
    return ("w", fresh_id())


def mkfv(v, mag, norm, tag=None):
    return FV(v, mag, norm, tag if tag or norm else fresh_tag())


def fv(ex, st, p):
    v = ex.resolve(st, ex.load(st, ex.resolve(st, p)))
    if not isinstance(v, FV):
        raise Unsupported("not a field value: %r" % (v,))
    return v


def put(ex, st, p, v):
    ex.store(st, ex.resolve(st, p), v)
    return p


def require(ex, st, what, ok):
    if not ok:
        ex.opts.setdefault("reqs", []).append("%s at %s" % (what, "/".join(f.fn.split(".")[-1] for f in st.frames[-3:])))


def vnorm(st, v):
    return st.pc.norm(v, PP)


def fc(name, text):
    return contract(FIELD, FM + name, text)


def iconst(x):
    if isinstance(x, Poly) and x.is_const():
        return x.cval()
    raise Unsupported("symbolic small integer")


@fc("Zero", "ensures value 0, normalised")
def _(ex, st, a, ins):
    put(ex, st, a[0], mkfv(ZERO, 0, True))


@fc("Set", "ensures a copy of the words")
def _(ex, st, a, ins):
    return put(ex, st, a[0], fv(ex, st, a[1]))


@fc("SetInt", "requires ui < 2^26; ensures value ui, normalised, returns f")
def _(ex, st, a, ins):
    require(ex, st, "SetInt below 2^26", within(a[1], 0, (1 << 26) - 1))
    return put(ex, st, a[0], mkfv(a[1], 1, True))


def set_segs(ex, st, p, segs):
    n = seqlen(segs)
    if st.pc.entails(f_le(n, P_(32))) is not True:
        raise Unsupported("field value from more than 32 bytes")
    v = seq_val(segs)
    return put(ex, st, p, mkfv(v, 1, within(v, 0, PP - 1)))


@fc("SetBytes", "ensures the value of the 32 bytes, magnitude 1")
def _(ex, st, a, ins):
    b = ex.load(st, ex.resolve(st, a[1]))
    return set_segs(ex, st, a[0], b.segs)


@fc("SetByteSlice", "requires at most 32 bytes; ensures their value, magnitude 1")
def _(ex, st, a, ins):
    return set_segs(ex, st, a[0], ex.bytes_of(st, a[1]))


@fc("Normalize", "requires magnitude <= %d; ensures the same value modulo P, below P" % MAX)
def _(ex, st, a, ins):
    x = fv(ex, st, a[0])
    require(ex, st, "magnitude of Normalize", x.mag <= MAX)
    if not x.norm:
        put(ex, st, a[0], FV(x.v, 1, True, x.tag if x.tag and x.tag[0] == "j" else None))
    return a[0]


@fc("IsZero", "ensures true => value 0; normalised: ensures true <=> value 0")
def _(ex, st, a, ins):
    x = fv(ex, st, a[0])
    z = f_cong(vnorm(st, x.v), PP)
    if x.norm:
        return z
    if z is False or st.pc.quick(z) is False:
        return False
    if x.tag is None:
        raise Unsupported("zero test of unnormalised words")
    b = f_pred("words are zero", x.tag)
    st.pc.add(f_or(f_not(b), z))
    return b


@fc("IsOdd", "requires normalised; ensures the parity of the value below P")
def _(ex, st, a, ins):
    x = fv(ex, st, a[0])
    require(ex, st, "IsOdd of a normalised value", x.norm)
    return f_eq(t_low(t_mod(x.v, PP), 1), ONE)


@fc("Equals", "requires both normalised; ensures result <=> equal values")
def _(ex, st, a, ins):
    x, y = fv(ex, st, a[0]), fv(ex, st, a[1])
    require(ex, st, "Equals of normalised values", x.norm and y.norm)
    return f_cong(vnorm(st, x.v - y.v), PP)


def neg(ex, st, dst, src, m):
    x = fv(ex, st, src)
    m = iconst(m)
    require(ex, st, "Negate with at least the magnitude %d" % x.mag, x.mag <= m < MAX)
    return put(ex, st, dst, mkfv(-x.v, m + 1, False))


@fc("NegateVal", "requires magnitude(val) <= magnitude < %d; ensures -value, magnitude + 1" % MAX)
def _(ex, st, a, ins):
    return neg(ex, st, a[0], a[1], a[2])


@fc("Negate", "requires magnitude(f) <= magnitude < %d; ensures -value, magnitude + 1" % MAX)
def _(ex, st, a, ins):
    return neg(ex, st, a[0], a[0], a[1])


def addto(ex, st, dst, x, y):
    require(ex, st, "magnitude of the sum", x.mag + y.mag <= MAX)
    return put(ex, st, dst, mkfv(x.v + y.v, x.mag + y.mag, False))


@fc("AddInt", "ensures value + ui, magnitude + 1")
def _(ex, st, a, ins):
    require(ex, st, "AddInt below 2^26", within(a[1], 0, (1 << 26) - 1))
    return addto(ex, st, a[0], fv(ex, st, a[0]), FV(a[1], 1, True))


@fc("Add", "ensures the sum, magnitudes add up to at most %d" % MAX)
def _(ex, st, a, ins):
    return addto(ex, st, a[0], fv(ex, st, a[0]), fv(ex, st, a[1]))


@fc("Add2", "ensures the sum, magnitudes add up to at most %d" % MAX)
def _(ex, st, a, ins):
    return addto(ex, st, a[0], fv(ex, st, a[1]), fv(ex, st, a[2]))


@fc("MulInt", "requires magnitude * val <= %d; ensures the product" % MAX)
def _(ex, st, a, ins):
    x, k = fv(ex, st, a[0]), iconst(a[1])
    require(ex, st, "magnitude of MulInt", x.mag * k <= MAX)
    return put(ex, st, a[0], mkfv(x.v * k, max(1, x.mag * k), False))


def mulop(ex, st, dst, x, y):
    require(ex, st, "magnitude of the factors", max(x.mag, y.mag) <= MULMAX)
    return put(ex, st, dst, mkfv(vnorm(st, x.v * y.v), 1, False))


@fc("Mul", "requires magnitudes <= %d; ensures the product, magnitude 1" % MULMAX)
def _(ex, st, a, ins):
    return mulop(ex, st, a[0], fv(ex, st, a[0]), fv(ex, st, a[1]))


@fc("Mul2", "requires magnitudes <= %d; ensures the product, magnitude 1" % MULMAX)
def _(ex, st, a, ins):
    return mulop(ex, st, a[0], fv(ex, st, a[1]), fv(ex, st, a[2]))


@fc("Square", "requires magnitude <= %d; ensures the square, magnitude 1" % MULMAX)
def _(ex, st, a, ins):
    x = fv(ex, st, a[0])
    return mulop(ex, st, a[0], x, x)


@fc("SquareVal", "requires magnitude <= %d; ensures the square, magnitude 1" % MULMAX)
def _(ex, st, a, ins):
    x = fv(ex, st, a[1])
    return mulop(ex, st, a[0], x, x)


@fc("Inverse", "requires magnitude <= %d; ensures the inverse modulo P, 0 for 0, magnitude 1" % MULMAX)
def _(ex, st, a, ins):
    x = fv(ex, st, a[0])
    require(ex, st, "magnitude of Inverse", x.mag <= MULMAX)
    v = vnorm(st, x.v)
    if ex.decide(st, f_cong(v, PP)):
        return put(ex, st, a[0], mkfv(ZERO, 1, False))
    return put(ex, st, a[0], mkfv(t_inv(v, PP), 1, False))


def out_bytes(ex, st, x):
    require(ex, st, "bytes of a normalised value", x.norm)
    return [("fix", t_mod(x.v, PP), 32)]


@fc("PutBytes", "requires normalised; ensures the 32 bytes of the value")
def _(ex, st, a, ins):
    x = fv(ex, st, a[0])
    ex.store(st, ex.resolve(st, a[1]), BytesV(out_bytes(ex, st, x)))


@fc("Bytes", "requires normalised; ensures the 32 bytes of the value, fresh")
def _(ex, st, a, ins):
    return st.new(BytesV(out_bytes(ex, st, fv(ex, st, a[0]))))


@fc("SetHex", "requires a hexadecimal constant of at most 64 digits; ensures its value")
def _(ex, st, a, ins):
    s = ex.resolve(st, a[1])
    if not isinstance(s, str):
        raise Unsupported("SetHex of a variable")
    try:
        v = int(s, 16) if s else 0
    except ValueError:
        raise Unsupported("SetHex of other text")
    if len(s) > 64:
        raise Unsupported("SetHex of a long text")
    return put(ex, st, a[0], mkfv(P_(v), 1, v < PP))


# ---------------------------------------------------------------- the inverse (C04)

def inverse(p):
    """The addition chain: exponents of the argument, by the contracts of the products."""
    def pw(x):
        if x.tag and x.tag[0] == "pow":
            return x.tag[1]
        raise Unsupported("not a power of the argument")

    def res(ex, st, dst, x, y):
        require(ex, st, "magnitude of the factors", max(x.mag, y.mag) <= MULMAX)
        return put(ex, st, dst, FV(ZERO, 1, False, ("pow", pw(x) + pw(y))))
    C = dict(FIELD)
    C.pop(FM + "Inverse")
    C[FM + "Mul"] = lambda ex, st, a, ins: res(ex, st, a[0], fv(ex, st, a[0]), fv(ex, st, a[1]))
    C[FM + "Mul2"] = lambda ex, st, a, ins: res(ex, st, a[0], fv(ex, st, a[1]), fv(ex, st, a[2]))
    C[FM + "Square"] = lambda ex, st, a, ins: res(ex, st, a[0], fv(ex, st, a[0]), fv(ex, st, a[0]))
    C[FM + "SquareVal"] = lambda ex, st, a, ins: res(ex, st, a[0], fv(ex, st, a[1]), fv(ex, st, a[1]))
    reqs = []
    ex = p.executor(C, abstract_field=True, reqs=reqs, max_steps=2000000)
    st = State()
    o = st.new(FV(ZERO, MULMAX, False, ("pow", 1)), "input")
    st.heap["g:" + BT + ".fieldOne"] = FV(ONE, 1, True)
    st.meta["g:" + BT + ".fieldOne"] = "global"
    fs = run(ex, st, FM + "Inverse", [o])
    for f in live(p, "", fs):
        p.add("ensures the receiver is returned", f.out[1] == o, "%r" % (f.out[1],))
        r = f.heap[o.obj]
        e = pw(r)
        # a^e = a^(P-2) for all a: exponents agree modulo P - 1, and neither is 0
        p.add("ensures a^(P-2), the inverse by Fermat's little theorem", e > 0 and (e - (PP - 2)) % (PP - 1) == 0, "the exponent is %d, P-2 is %d" % (e, PP - 2))
        p.add("ensures magnitude 1", r.mag <= 1, "magnitude %d" % r.mag)
        bad = [w for w in f.writes if w[0] != o.obj]
        p.add("modifies only the receiver", not bad, str(bad[:3]))
    p.add("requires: magnitudes stay within the limits", not reqs, "; ".join(reqs[:3]))


# ---------------------------------------------------------------- Jacobian formulas (C02)

def fvar(name):
    return var(name, 0, PP - 1)


def jac_expected_add(J1, J2):
    """chord: (X3, Y3, Z3) for points with different x"""
    X1, Y1, Z1 = J1
    X2, Y2, Z2 = J2
    U1, U2 = X1 * Z2 * Z2, X2 * Z1 * Z1
    S1, S2 = Y1 * Z2 * Z2 * Z2, Y2 * Z1 * Z1 * Z1
    H, R = U2 - U1, S2 - S1
    X3 = R * R - H * H * H - 2 * U1 * H * H
    Y3 = R * (U1 * H * H - X3) - S1 * H * H * H
    return X3, Y3, Z1 * Z2 * H


def jac_expected_double(J):
    X, Y, Z = J
    M, S = 3 * X * X, 4 * X * Y * Y
    X3 = M * M - 2 * S
    return X3, M * (S - X3) - 8 * Y * Y * Y * Y, 2 * Y * Z


def same_jac(pc, R, E, zs):
    """R represents the point E (E is not the identity): Z_R is E's up to nonzero factors"""
    n = lambda x: pc.norm(x.mod(PP), PP)
    X, Y, Z = [n(x) for x in R]
    A, B, C = [n(x) for x in E]
    Z2, C2 = n(Z * Z), n(C * C)
    if n(X * C2 - A * Z2).t:
        return "X3 differs: %s" % str(n(X * C2 - A * Z2))[:200]
    if n(Y * n(C2 * C) - B * n(Z2 * Z)).t:
        return "Y3 differs"
    # Z_R != 0: Z_R * m1 = c * Z_E * m2 for monomials m1, m2 in nonzero factors
    pw = [ONE]
    for z in zs:
        z = n(z)
        if z.is_const():
            continue
        pw = [n(m * q) for m in pw for q in powers(z, 4)]
    for m1 in pw:
        for m2 in pw:
            if m1 != ONE and m2 != ONE:
                continue
            a, b = n(Z * m1), n(C * m2)
            if a.t and b.t and set(a.t) == set(b.t):
                k = max(a.t)
                c = a.t[k] * pow(b.t[k], -1, PP) % PP
                if not (a - b * c).mod(PP).t:
                    return None
    return "Z3 is %s, expected %s up to a nonzero factor" % (str(Z)[:100], str(C)[:100])


def powers(z, k):
    r = [ONE]
    for _ in range(k):
        r.append((r[-1] * z).mod(PP))
    return r


def is_o(pc, J):
    """the representation of the identity, as a formula"""
    X, Y, Z = J
    return f_or(f_cong(pc.norm(Z, PP), PP), f_and(f_cong(pc.norm(X, PP), PP), f_cong(pc.norm(Y, PP), PP)))


def refuted(pc, f):
    c = pc.clone()
    if not c.add(f):
        return None
    # a disjunction: every case
    if not c.feasible() or dead_split(c):
        return None
    return c


def dead_split(c, depth=0):
    """DPLL on the disjunctions of a path condition: True if it is unsatisfiable"""
    c = c.clone()
    while True:
        if c.dead:
            return True
        best = None
        again = False
        for d in list(c.cur):
            if d[0] != "or":
                continue
            rest = []
            for x in d[1:]:
                q = c.quick(x)
                if q is True:
                    rest = None
                    break
                if q is None:
                    rest.append(x)
            if rest is None:
                continue
            if not rest:
                return True
            if len(rest) == 1:
                c.cur.remove(d)
                c._add(c.sub.lit(rest[0]))
                again = True
                break
            if best is None or len(rest) < len(best[1]):
                best = (d, rest)
        if again:
            continue
        break
    if best is None or depth > 12:
        return False
    d, rest = best
    for x in rest:
        k = c.clone()
        k.cur.remove(d)
        k._add(k.sub.lit(x))
        if not dead_split(k, depth + 1):
            return False
    return True


def jac_obj(st, name, kind):
    """a Jacobian point: 'n' normalised coordinates, 'u' unnormalised ones"""
    vs = [fvar(name + c) for c in "XYZ"]
    out = []
    for k, v in enumerate(vs):
        if kind == "n" or (kind == "z" and k == 2):
            out.append(st.new(FV(v, 1, True), "input"))
        else:
            out.append(st.new(mkfv(v, 2 if k < 2 else 1, False), "input"))
    return vs, out


def jac_state(p, st, ex):
    for n in ("fieldOne",):
        k = "g:" + BT + "." + n
        if BT + "." + n in p.prog.globals:
            st.heap[k] = st.new(FV(ONE, 1, True), "global")
            st.meta[k] = "global"


def curve_state(p, ex):
    st = base_state(ex)
    jac_state(p, st, ex)
    return st


def rep_post(p, name, f, objs):
    """x3, y3 of magnitude at most 2; z3 normalised, or not zero"""
    for k, o in enumerate(objs):
        x = f.heap[o.obj]
        p.add(name + "ensures the magnitude of the result", x.mag <= (2 if k < 2 else 1), "coordinate %d has magnitude %d" % (k, x.mag))


def jac_add(p, k1, k2, alias, zsame):
    """addJacobian for operands of the given representation; alias: the result is the first operand"""
    reqs = []
    ex = p.executor(FIELD, abstract_field=True, reqs=reqs)
    st = curve_state(p, ex)
    J1, o1 = jac_obj(st, "P", k1)
    J2, o2 = jac_obj(st, "Q", k2)
    if zsame:
        J2[2], o2[2] = J1[2], o1[2]
    o3 = o1 if alias else [st.new(FV(ZERO, 0, True), "input") for _ in range(3)]
    recv = Ptr("g:" + BT + ".secp256k1")
    # coordinates: a zero z has zero words
    ini = {id(o): st.heap[o.obj] for o in o1 + o2}
    words = {}
    for nm, J, o in (("P", J1, o1), ("Q", J2, o2)):
        x = st.heap[o[2].obj]
        if not x.norm:
            st.pc.add(f_or(f_not(f_cong(J[2], PP)), f_pred("words are zero", x.tag)))
        words[nm] = f_and(*[f_or(f_not(f_cong(v, PP)), f_pred("words are zero", st.heap[q.obj].tag)) for v, q in list(zip(J, o))[:2] if not st.heap[q.obj].norm])
    fs = run(ex, st, KM + "addJacobian", [recv] + o1 + o2 + o3)
    for f in live(p, "", fs):
        R = [f.heap[o.obj].v for o in o3]
        rep_post(p, "", f, o3)
        z3 = f.heap[o3[2].obj]
        O1, O2 = is_o(f.pc, J1), is_o(f.pc, J2)
        U = f_cong(f.pc.norm(J1[0] * J2[2] * J2[2] - J2[0] * J1[2] * J1[2], PP), PP)
        S = f_cong(f.pc.norm(J1[1] * J2[2] * J2[2] * J2[2] - J2[1] * J1[2] * J1[2] * J1[2], PP), PP)
        cs = [("the first operand is the identity", f_and(O1, f_not(O2), words["P"]), "copy2"),
              ("the second operand is the identity", f_and(f_not(O1), O2, words["Q"]), "copy1"),
              ("both operands are the identity", f_and(O1, O2), "O"),
              ("equal points", f_and(f_not(O1), f_not(O2), U, S), "double"),
              ("opposite points", f_and(f_not(O1), f_not(O2), U, f_not(S)), "O"),
              ("different x", f_and(f_not(O1), f_not(O2), f_not(U)), "chord")]
        for what, cond, kind in cs:
            c = refuted(f.pc, cond)
            if c is None:
                continue
            if kind == "double" and refuted(c, f_not(f_cong(c.norm(J1[1], PP), PP))) is None:
                continue        # no point of the curve has y = 0
            zs = [J1[2], J2[2]]
            nm = "%s: ensures the group law" % what
            if kind == "O":
                if what == "opposite points":
                    p.add(what + ": ensures z3 = 0", entails_cases(c, f_cong(c.norm(R[2], PP), PP)), "z3 is %s" % str(c.norm(R[2], PP))[:200])
                ok = c.quick(is_o(c, R)) is True
                p.add(nm, ok or entails_cases(c, is_o(c, R)), "result %s on the path %s" % (str([c.norm(x, PP) for x in R])[:300], show_pc(f.pc)[:600]))
            else:
                c2 = c.clone()
                E = {"copy2": J2, "copy1": J1, "chord": jac_expected_add(J1, J2), "double": jac_expected_double(J1)}[kind]
                if kind == "double":
                    zs = zs + [J1[1]]
                bad = same_jac(c2, R, E, zs)
                p.add(nm, bad is None, "%s; path %s" % (bad, show_pc(f.pc)[:600]))
            zz = z3.norm or kind in ("chord", "double", "copy1", "copy2") or zero_words(c, z3)
            p.add(what + ": ensures a zero z3 has zero words", zz, "unnormalised z3")
        # operands keep their values
        for o in o1 + o2:
            if o in o3:
                continue
            d = f.heap[o.obj]
            p.add("ensures the operands keep their values", not f.pc.norm(d.v - ini[id(o)].v, PP).t, "operand changed to %r" % (d,))
            p.add("ensures the operands keep their magnitude", d.mag <= max(1, ini[id(o)].mag), "magnitude %d" % d.mag)
        bad = [w for w in f.writes if w[2] == "global" or w[0] not in {o.obj for o in o1 + o2 + o3}]
        p.add("modifies nothing else", not bad, str(bad[:3]))
    p.add("requires: magnitudes and normal forms of the field contracts", not reqs, "; ".join(sorted(set(reqs))[:3]))


def zero_words(c, x):
    """the value 0 only with words of zero"""
    b = f_pred("words are zero", x.tag) if x.tag else False
    return entails_cases(c, f_or(f_not(f_cong(c.norm(x.v, PP), PP)), b))


def entails_cases(c, goal):
    k = c.clone()
    if not k.add(f_not(goal)):
        return True
    return dead_split(k)


def jac_double(p, kind, alias):
    reqs = []
    ex = p.executor(FIELD, abstract_field=True, reqs=reqs)
    st = curve_state(p, ex)
    J, o = jac_obj(st, "P", kind)
    o3 = o if alias else [st.new(FV(ZERO, 0, True), "input") for _ in range(3)]
    x = st.heap[o[2].obj]
    if not x.norm:
        st.pc.add(f_or(f_not(f_cong(J[2], PP)), f_pred("words are zero", x.tag)))
    ini = {id(q): st.heap[q.obj] for q in o}
    fs = run(ex, st, KM + "doubleJacobian", [Ptr("g:" + BT + ".secp256k1")] + o + o3)
    for f in live(p, "", fs):
        R = [f.heap[q.obj].v for q in o3]
        rep_post(p, "", f, o3)
        O = is_o(f.pc, J)
        for what, cond in (("the identity", f_or(O, f_cong(J[1], PP))), ("another point", f_and(f_not(O), f_not(f_cong(J[1], PP))))):
            c = refuted(f.pc, cond)
            if c is None:
                continue
            z3 = f.heap[o3[2].obj]
            if what == "the identity":
                p.add("the identity: ensures the identity", entails_cases(c, is_o(c, R)), "result %s on the path %s" % (str([c.norm(x, PP) for x in R])[:300], show_pc(f.pc)[:600]))
                p.add("the identity: ensures a zero z3 has zero words", z3.norm or zero_words(c, z3), "unnormalised")
            else:
                bad = same_jac(c, R, jac_expected_double(J), [J[2], J[1]])
                p.add("ensures the group law", bad is None, "%s; path %s" % (bad, show_pc(f.pc)[:600]))
        for q in o:
            if q in o3:
                continue
            d = f.heap[q.obj]
            p.add("ensures the operand keeps its value", not f.pc.norm(d.v - ini[id(q)].v, PP).t, "operand changed to %r" % (d,))
        bad = [w for w in f.writes if w[2] == "global" or w[0] not in {q.obj for q in o + o3}]
        p.add("modifies nothing else", not bad, str(bad[:3]))
    p.add("requires: magnitudes and normal forms of the field contracts", not reqs, "; ".join(sorted(set(reqs))[:3]))


def to_affine(p, kind):
    reqs = []
    ex = p.executor(FIELD, abstract_field=True, reqs=reqs)
    st = curve_state(p, ex)
    J, o = jac_obj(st, "P", kind)
    fs = run(ex, st, KM + "fieldJacobianToBigAffine", [Ptr("g:" + BT + ".secp256k1")] + o)
    for f in live(p, "", fs):
        x, y = [f.pc.norm(ex.big(f, v)) for v in f.out[1]]
        for nm, v in (("x", x), ("y", y)):
            p.add("ensures 0 <= %s < P" % nm, within(v, 0, PP - 1), "bounds %s" % (iv(v),))
        z = refuted(f.pc, f_cong(J[2], PP))
        if z is not None:
            p.add("ensures (0,0) for z = 0", z.norm(x, PP) == ZERO and z.norm(y, PP) == ZERO, "(%r, %r)" % (x, y))
        c = refuted(f.pc, f_not(f_cong(J[2], PP)))
        if c is not None:
            Z = J[2]
            p.add("ensures x*Z^2 = X", not c.norm(x * Z * Z - J[0], PP).t, str(c.norm(x * Z * Z - J[0], PP))[:200])
            p.add("ensures y*Z^3 = Y", not c.norm(y * Z * Z * Z - J[1], PP).t, str(c.norm(y * Z * Z * Z - J[1], PP))[:200])
        bad = [w for w in f.writes if w[0] not in {q.obj for q in o}]
        p.add("modifies only the converted point", not bad, str(bad[:3]))
        own = all(isinstance(v, Ptr) and f.meta.get(v.obj) == "fresh" for v in [ex.resolve(f, v) for v in f.out[1]])
        p.add("ensures fresh coordinates: modifies nothing when they are modified", own, "%r" % (f.out[1],), "frame")
    p.add("requires: magnitudes and normal forms of the field contracts", not reqs, "; ".join(sorted(set(reqs))[:3]))


# ---------------------------------------------------------------- contracts of the Jacobian operations, on exponents

JAC = dict(FIELD)


def jac_exp(ex, st, ps):
    """exponent of the Jacobian point held by three field values"""
    X, Y, Z = [fv(ex, st, q) for q in ps]
    t = X.tag
    if t and t[0] == "j" and Y.tag and Z.tag and Y.tag[:1] == Z.tag[:1] == ("j",) and t[1] == Y.tag[1] == Z.tag[1] and (t[3], Y.tag[3], Z.tag[3]) == ("x", "y", "z"):
        return t[2]
    z = vnorm(st, Z.v)
    if Z.tag and Z.tag[0] == "j":
        raise Unsupported("coordinates of different points")
    x, y = vnorm(st, X.v), vnorm(st, Y.v)
    if z == ZERO:
        return ZERO
    if z != ONE:
        raise Unsupported("not known to be a point: z = %r" % (z,))
    e = affine_exp(x, y)
    if e is None:
        raise Unsupported("not known to be a point: (%r, %r)" % (x, y))
    return e


def affine_exp(x, y):
    if not x.t and not y.t:
        return ZERO
    if len(x.t) != 1 or len(y.t) != 1:
        return None
    (mx, cx), = x.t.items()
    (my, cy), = y.t.items()
    if len(mx) != 1 or len(my) != 1:
        return None
    a, b = ATOMS[mx[0]], ATOMS[my[0]]
    if a.kind != "xc" or b.kind != "yc" or a.args[0] != b.args[0]:
        return None
    e = a.args[0]
    k = {1: 1, BETA: LAMBDA, BETA * BETA % PP: LAMBDA * LAMBDA % N}.get(cx)
    s = {1: 1, PP - 1: -1}.get(cy)
    if k is None or s is None:
        return None
    return toN(e * k * s)


def jac_set(ex, st, ps, e):
    u = fresh_id()
    for c, q in zip("xyz", ps):
        v = Poly.atom(mk_atom("var", ("J" + c, fresh_id()), 0, PP - 1))
        ex.store(st, ex.resolve(st, q), FV(v, 2 if c != "z" else 1, False, ("j", u, e, c)))


def jac_touch(ex, st, ps):
    """the operand may have been normalised: its words are unknown, its value is not"""
    for q in ps:
        x = fv(ex, st, q)
        require(ex, st, "magnitude of a coordinate", x.mag <= 2)


@contract(JAC, KM + "addJacobian", "requires points, coordinates of magnitude <= 2, an unnormalised representation of the identity only with words of zero or with the identity; "
          "ensures (x3,y3,z3) represents their sum; modifies x3, y3, z3, and the representation of the operands")
def _(ex, st, a, ins):
    e, f = jac_exp(ex, st, a[1:4]), jac_exp(ex, st, a[4:7])
    jac_touch(ex, st, a[1:7])
    jac_set(ex, st, a[7:10], toN(st.pc.norm(e + f, N)))


@contract(JAC, KM + "doubleJacobian", "requires a point; ensures (x3,y3,z3) represents its double; modifies x3, y3, z3, and the representation of z1")
def _(ex, st, a, ins):
    e = jac_exp(ex, st, a[1:4])
    jac_touch(ex, st, a[1:4])
    jac_set(ex, st, a[4:7], toN(st.pc.norm(e * 2, N)))


@contract(JAC, KM + "fieldJacobianToBigAffine", "requires a point; ensures its canonical affine coordinates, (0,0) for the identity, fresh; modifies x, y, z")
def _(ex, st, a, ins):
    e = jac_exp(ex, st, a[1:4])
    return newxy(st, e)


def jexecutor(p, reqs, **k):
    return p.executor(JAC, abstract_field=True, reqs=reqs, **k)


def affine_op(p, what):
    reqs = []
    C = dict(FIELD) if what == "IsOnCurve" else JAC
    ex = p.executor(C, abstract_field=True, reqs=reqs)
    st = curve_state(p, ex)
    recv = Ptr("g:" + BT + ".secp256k1")
    a, b = evar("P1"), evar("P2")
    if what == "IsOnCurve":
        x, y = var("x", 0, (1 << 256) - 1), var("y", 0, (1 << 256) - 1)
        fs = run(ex, st, KM + what, [recv, big(st, x), big(st, y)])
        for f in live(p, "", fs):
            goal = f_cong(y * y - x * x * x - 7, PP)
            p.holds("ensures result <=> y^2 = x^3 + 7 mod P", f, iff(f.out[1], goal), "result %r" % (f.out[1],))
    else:
        for nm, e1, e2 in (("", a, b), ("[equal operands] ", a, a), ("[opposite operands] ", a, -a), ("[G] ", ONE, b)):
            st2 = st.clone()
            args = [big(st2, xc(e1)), big(st2, yc(e1))]
            want = 2 * e1
            if what == "Add":
                args += [big(st2, xc(e2)), big(st2, yc(e2))]
                want = e1 + e2
            fs = run(ex, st2, KM + what, [recv] + args)
            for f in live(p, nm, fs):
                X, Y = f.out[1]
                p.holds(nm + "ensures the group element in canonical coordinates", f, f_cong(exp_of(ex, f, X, Y) - want), "result %r" % (f.out[1],))
            frames(p, nm, fs)
    frames(p, "", fs)
    p.add("requires: magnitudes and normal forms of the contracts", not reqs, "; ".join(sorted(set(reqs))[:3]))


# ---------------------------------------------------------------- facts about the group

def group_facts(p):
    """Numeric facts used by the theory of group elements, checked by computation."""
    def inv(a):
        return pow(a, -1, PP)

    def add(A, B):
        if A is None:
            return B
        if B is None:
            return A
        if A[0] == B[0]:
            if (A[1] + B[1]) % PP == 0:
                return None
            l = 3 * A[0] * A[0] * inv(2 * A[1]) % PP
        else:
            l = (B[1] - A[1]) * inv(B[0] - A[0]) % PP
        x = (l * l - A[0] - B[0]) % PP
        return x, (l * (A[0] - x) - A[1]) % PP

    def mul(k, A):
        R = None
        while k:
            if k & 1:
                R = add(R, A)
            A = add(A, A)
            k >>= 1
        return R
    G = (GX, GY)
    p.add("G is on the curve", (GY * GY - GX ** 3 - 7) % PP == 0, "", "computation")
    p.add("N*G = O", mul(N, G) is None, "", "computation")
    p.add("P is prime", pocklington(PP, [205115282021455665897114700593932402728804164701536103180137503955397371]), "", "computation")
    p.add("N is prime", pocklington(N, [341948486974166000522343609283189, 107361793816595537, 174723607534414371449]), "", "computation")
    # the group order is a multiple of N in the Hasse interval
    import math
    r = 2 * math.isqrt(PP) + 2
    ms = [k for k in range(1, 4) if PP + 1 - r <= k * N <= PP + 1 + r]
    p.add("#E = N (Hasse)", ms == [1], "", "computation")
    p.add("no point has x = 0: 7 is not a square", pow(7, (PP - 1) // 2, PP) == PP - 1, "", "computation")
    p.add("no point has y = 0: -7 is not a cube", pow(PP - 7, (PP - 1) // 3, PP) != 1, "", "computation")
    p.add("beta^3 = 1, beta != 1", pow(BETA, 3, PP) == 1 and BETA != 1, "", "computation")
    p.add("(beta*x, y) = lambda*(x, y) for G, hence on the group", mul(LAMBDA, G) == (BETA * GX % PP, GY), "", "computation")


def pocklington(n, qs, depth=0):
    """n is prime, by the factors qs of n-1 (larger ones first) whose product exceeds sqrt(n)"""
    f, m = 1, n - 1
    for q in qs:
        if m % q:
            return False
        while m % q == 0:
            m //= q
            f *= q
    fs = list(qs)
    d = 2
    while f * f <= n and d < 100000:
        if m % d == 0:
            fs.append(d)
            while m % d == 0:
                m //= d
                f *= d
        d += 1
    if f * f <= n:
        return False
    for q in fs:
        if not prime(q):
            return False
        if not any(pow(a, n - 1, n) == 1 and gcd_(pow(a, (n - 1) // q, n) - 1, n) == 1 for a in range(2, 60)):
            return False
    return True


def gcd_(a, b):
    import math
    return math.gcd(a % b, b)


def prime(q):
    if q < 1 << 40:
        d = 2
        while d * d <= q:
            if q % d == 0:
                return False
            d += 1
        return q > 1
    if q not in CHAIN:
        return False
    return pocklington(q, CHAIN[q])


# prime factors of q - 1 that suffice for Pocklington's criterion, for the primes of the chain
CHAIN = {
    205115282021455665897114700593932402728804164701536103180137503955397371:
        [255515944373312847190720520512484175977, 132896956044521568488119],
    255515944373312847190720520512484175977: [107590001, 7240687],
    132896956044521568488119: [22149492674086928081353],
    22149492674086928081353: [173378833005251801],
    173378833005251801: [13331831],
    341948486974166000522343609283189: [29047611873442575647497758179],
    29047611873442575647497758179: [297159362677, 545358713, 305873],
    107361793816595537: [4681609],
    174723607534414371449: [44706919, 120233],
}
