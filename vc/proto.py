"""Contracts of the proof protocols."""
from .oblig import *

PTC = dict(CURVE)
PTC.update(POINT)


def ivar(name):
    return var(name)


def evar(name):
    """exponent of an arbitrary group element (the identity included)"""
    return var("e_" + name, 0, N - 1)


class Setup:
    """Symbolic inputs of one protocol."""

    def __init__(self, ex, st):
        self.ex, self.st = ex, st
        self.cache = {}

    def pt(self, e):
        return ecpoint(self.st, e)

    def big(self, v):
        return big(self.st, v)


def run(ex, st, fn, args):
    st = st.clone()
    st.out = None
    st.frames = []
    return ex.run(st, fn, args)


def cases(ex, st, v):
    """Split a conditional result value."""
    if isinstance(v, IteV):
        out = []
        for c, w in ((f_eq(v.g, ONE), v.a), (f_not(f_eq(v.g, ONE)), v.b)):
            s = st.clone()
            if s.pc.add(c):
                out += cases(ex, s, w)
        return out
    return [(st, v)]


def is_zero_struct(ex, st, v):
    if v is NIL:
        return True
    if isinstance(v, Ptr):
        w = st.heap[v.obj]
        return isinstance(w, StructV) and all_zero(w)
    return False


def all_zero(w):
    if isinstance(w, StructV):
        return all(all_zero(x) for x in w.f)
    return w is NIL or w == NILSLICE or w is False or w == ZERO


# ---------------------------------------------------------------- protocol descriptions

class Proto:
    """One kind of proof: statement, prover and verifier."""
    name = ""
    type = ""
    verify = ""
    sides = (None,)

    def proof_fields(self):
        raise NotImplementedError


class GSPFS(Proto):
    name, type = "GSPFS", "GSPFSProof"
    new = ZK + ".NewGSPFSProofBase"

    def setup(self, p, ex, st, side=None):
        B, x, A = evar("B"), ivar("x"), evar("A")
        s = Setup(ex, st)
        s.rel = f_cong(A - x * B)
        s.newargs = [st.zkpcp, s.pt(B), s.pt(A), s.big(x)]
        s.verargs = [st.zkpcp, s.newargs[2]]
        s.secrets = [x]
        s.must = s.rel
        return s

    def arbitrary(self, p, ex, st):
        """An arbitrary proof: fields and the acceptance condition."""
        B, Tt, A = evar("B"), evar("T"), evar("A")
        sv, c = ivar("s"), ivar("c")
        proof = dict(Base=("pt", B), RandCommit=("pt", Tt), HiddenValue=("big", sv), Challenge=("big", c))
        a = dict(proof=proof, args=[("pt", A)],
                 eqs=[f_cong(sv * B + c * A - Tt)],
                 chals=[(c, {"base": B, "statement": A, "commitment": Tt})])
        a["extract"] = lambda c2, s2: None
        return a

    outputs = staticmethod(lambda f: [f["HiddenValue"]])
    ptouts = staticmethod(lambda f: [])


class GSPFSG(GSPFS):
    """Proofs for the first generator."""
    name = "GSPFS for the first generator"
    new = ZK + ".NewGSPFSProof"

    def setup(self, p, ex, st, side=None):
        x, A = ivar("x"), evar("A")
        s = Setup(ex, st)
        s.must = s.rel = f_cong(A - x)
        s.newargs = [st.zkpcp, s.pt(A), s.big(x)]
        s.verargs = [st.zkpcp, s.newargs[1]]
        s.secrets = [x]
        return s


class Equivalence(Proto):
    name, type = "Equivalence", "EquivalenceProof"
    new = ZK + ".NewEquivalenceProof"

    def setup(self, p, ex, st, side=None):
        B1, B2, R1, R2, x = evar("B1"), evar("B2"), evar("R1"), evar("R2"), ivar("x")
        s = Setup(ex, st)
        pts = [s.pt(e) for e in (B1, R1, B2, R2)]
        s.newargs = [st.zkpcp] + pts + [s.big(x)]
        s.verargs = [st.zkpcp] + pts
        s.must = f_and(f_cong(R1 - x * B1), f_cong(R2 - x * B2))
        s.secrets = [x]
        return s

    def arbitrary(self, p, ex, st):
        B1, B2, R1, R2, U, V = (evar(n) for n in ("B1", "B2", "R1", "R2", "U", "V"))
        sv, c = ivar("s"), ivar("c")
        return dict(proof=dict(UG=("pt", U), UH=("pt", V), Challenge=("big", c), HiddenValue=("big", sv)),
                    args=[("pt", e) for e in (B1, R1, B2, R2)],
                    eqs=[f_cong(sv * B1 - U - c * R1), f_cong(sv * B2 - V - c * R2)],
                    chals=[(c, {"base 1": B1, "base 2": B2, "result 1": R1, "result 2": R2, "commitment 1": U, "commitment 2": V})])

    outputs = staticmethod(lambda f: [f["HiddenValue"]])
    ptouts = staticmethod(lambda f: [])


class Consistency(Proto):
    name, type = "Consistency", "ConsistencyProof"
    new = ZK + ".NewConsistencyProof"

    def setup(self, p, ex, st, side=None):
        CM, Tok, PK, v, r = evar("CM"), evar("Tok"), evar("PK"), ivar("v"), ivar("r")
        s = Setup(ex, st)
        pts = [s.pt(e) for e in (CM, Tok, PK)]
        s.newargs = [st.zkpcp] + pts + [s.big(v), s.big(r)]
        s.verargs = [st.zkpcp] + pts
        s.must = f_and(f_cong(CM - v - r * H_EXP), f_cong(Tok - r * PK))
        s.secrets = [v, r]
        return s

    def arbitrary(self, p, ex, st):
        CM, Tok, PK, T1, T2 = (evar(n) for n in ("CM", "Tok", "PK", "T1", "T2"))
        s1, s2, c = ivar("s1"), ivar("s2"), ivar("c")
        return dict(proof=dict(T1=("pt", T1), T2=("pt", T2), Challenge=("big", c), S1=("big", s1), S2=("big", s2)),
                    args=[("pt", e) for e in (CM, Tok, PK)],
                    eqs=[f_cong(s1 + s2 * H_EXP - T1 - c * CM), f_cong(s2 * PK - T2 - c * Tok)],
                    chals=[(c, {"G": ONE, "H": H_EXP, "commitment": CM, "token": Tok, "key": PK, "T1": T1, "T2": T2})])

    outputs = staticmethod(lambda f: [f["S1"], f["S2"]])
    ptouts = staticmethod(lambda f: [])


class Disjunctive(Proto):
    name, type = "Disjunctive", "DisjunctiveProof"
    new = ZK + ".NewDisjunctiveProof"
    sides = (0, 1, "other")

    def setup(self, p, ex, st, side=None):
        B1, B2, R1, R2, x = evar("B1"), evar("B2"), evar("R1"), evar("R2"), ivar("x")
        s = Setup(ex, st)
        pts = [s.pt(e) for e in (B1, R1, B2, R2)]
        if side == "other":
            opt = var("option", -(1 << 63), (1 << 63) - 1)
            st.pc.add(f_not(f_eq(opt, ZERO)))
            st.pc.add(f_not(f_eq(opt, ONE)))
            s.must = False
        else:
            opt = P_(side)
            s.must = f_cong(R1 - x * B1) if side == 0 else f_cong(R2 - x * B2)
        s.newargs = [st.zkpcp] + pts + [s.big(x), opt]
        s.verargs = [st.zkpcp] + pts
        s.secrets = [x]
        return s

    def arbitrary(self, p, ex, st):
        B1, B2, R1, R2, T1, T2 = (evar(n) for n in ("B1", "B2", "R1", "R2", "T1", "T2"))
        c, c1, c2, s1, s2 = (ivar(n) for n in ("c", "c1", "c2", "s1", "s2"))
        return dict(proof=dict(T1=("pt", T1), T2=("pt", T2), C=("big", c), C1=("big", c1), C2=("big", c2), S1=("big", s1), S2=("big", s2)),
                    args=[("pt", e) for e in (B1, R1, B2, R2)],
                    eqs=[f_cong(s1 * B1 - T1 - c1 * R1), f_cong(s2 * B2 - T2 - c2 * R2), f_cong(c1 + c2 - c)],
                    chals=[(c, {"base 1": B1, "base 2": B2, "result 1": R1, "result 2": R2, "T1": T1, "T2": T2})])

    outputs = staticmethod(lambda f: [f["C1"], f["S1"], f["S2"]])
    ptouts = staticmethod(lambda f: [])


class ABC(Proto):
    name, type = "ABC", "ABCProof"
    new = ZK + ".NewABCProof"
    sides = (0, 1, "other")

    def setup(self, p, ex, st, side=None, invertible=True):
        """CM = v*G + r*H, CMTok = r*sk*H"""
        v, r, sk = ivar("v"), ivar("r"), ivar("sk")
        s = Setup(ex, st)
        CM, Tok = toN(v + r * H_EXP), toN(r * sk * H_EXP)
        if side == "other":
            opt = var("option", -(1 << 63), (1 << 63) - 1)
            st.pc.add(f_not(f_eq(opt, ZERO)))
            st.pc.add(f_not(f_eq(opt, ONE)))
            s.must = False
        else:
            opt = P_(side)
            z = f_cong(v)
            s.must = f_and(f_not(f_cong(sk)), z if side == 0 else f_not(z))
        pts = [s.pt(CM), s.pt(Tok)]
        s.newargs = [st.zkpcp] + pts + [s.big(v), s.big(sk), opt]
        s.verargs = [st.zkpcp] + pts
        s.secrets = [v, sk, r]
        return s

    def arbitrary(self, p, ex, st):
        CM, Tok, B, C, T1, T2, CT, D1, D2 = (evar(n) for n in ("CM", "Tok", "B", "C", "T1", "T2", "CT", "D1", "D2"))
        ch, j, k, l, c, c1, c2, s1, s2 = (ivar(n) for n in ("ch", "j", "k", "l", "c", "c1", "c2", "s1", "s2"))
        C1G = C - 1
        dj = dict(T1=("pt", D1), T2=("pt", D2), C=("big", c), C1=("big", c1), C2=("big", c2), S1=("big", s1), S2=("big", s2))
        return dict(proof=dict(B=("pt", B), C=("pt", C), T1=("pt", T1), T2=("pt", T2), Challenge=("big", ch), j=("big", j),
                               k=("big", k), l=("big", l), CToken=("pt", CT), disjuncAC=("struct", "DisjunctiveProof", dj)),
                    args=[("pt", CM), ("pt", Tok)],
                    eqs=[f_cong(s1 * CM - D1 - c1 * Tok), f_cong(s2 * H_EXP - D2 - c2 * C1G), f_cong(c1 + c2 - c),
                         f_cong(ch * CM + T1 - j - k * Tok), f_cong(ch * C + T2 - j * B - l * H_EXP)],
                    chals=[(c, {"commitment": CM, "token": Tok, "H": H_EXP, "C-G": C1G, "D1": D1, "D2": D2}),
                           (ch, {"G": ONE, "H": H_EXP, "commitment": CM, "token": Tok, "B": B, "C": C, "T1": T1, "T2": T2})])

    outputs = staticmethod(lambda f: [f["j"], f["k"], f["l"], f["disjuncAC"]["C1"], f["disjuncAC"]["S1"], f["disjuncAC"]["S2"]])
    ptouts = staticmethod(lambda f: [f["B"], f["C"]])


class Inequality(ABC):
    name, type = "Inequality", "InequalityProof"
    new = ZK + ".NewInequalityProof"
    sides = (None,)

    def setup(self, p, ex, st, side=None):
        a, b, ra, rb, sk = (ivar(n) for n in ("a", "b", "ra", "rb", "sk"))
        s = Setup(ex, st)
        A, B = toN(a + ra * H_EXP), toN(b + rb * H_EXP)
        TA, TB = toN(ra * sk * H_EXP), toN(rb * sk * H_EXP)
        s.must = f_and(f_not(f_cong(a - b)), f_not(f_cong(sk)))
        s.newargs = [st.zkpcp] + [s.pt(e) for e in (A, B, TA, TB)] + [s.big(a), s.big(b), s.big(sk)]
        s.verargs = [st.zkpcp, s.pt(A - B), s.pt(TA - TB)]
        s.secrets = [a, b, ra, rb, sk]
        return s


def verify_fn(pr):
    return "(*%s.%s).Verify" % (ZK, pr.type)


def build(ex, st, tname, fs):
    kw = {}
    for k, d in fs.items():
        if d[0] == "pt":
            kw[k] = ecpoint(st, d[1])
        elif d[0] == "big":
            kw[k] = big(st, d[1])
        elif d[0] == "struct":
            kw[k] = build(ex, st, d[1], d[2])
    t = tname if tname in ("ABCProof", "DisjunctiveProof") or ZK + "." + tname in ex.prog.byname else tname
    return st.new(mkstruct(ex, ZK + "." + t, **kw), "input")


def unpack(ex, st, tname, ptr):
    """field values of a proof in a final state: integers and exponents"""
    v = ex.load(st, ex.resolve(st, ptr))
    out = {}
    for i, f in enumerate(prog_fields(ex.prog, ZK + "." + tname)):
        x = v.f[i]
        tn = ex.prog.tname(f["t"])
        if tn == ZK + ".ECPoint":
            out[f["n"]] = ("pt", point_exp(ex, st, x))
        elif tn == "*math/big.Int":
            out[f["n"]] = st.pc.norm(ex.big(st, x))
        elif tn == "*" + ZK + ".DisjunctiveProof":
            out[f["n"]] = unpack(ex, st, "DisjunctiveProof", x)
    return out


def frames_ok(p, name, finals):
    bad = [w for st in finals for w in st.writes]
    p.add(name, not bad, "writes to objects that are not its own: %r" % (bad[:3],), "frame")


def is_accept(v):
    return isinstance(v, tuple) and len(v) == 2 and v[0] is True and v[1] is NIL


def negligible(st):
    """the path needs a preimage of a fixed digest value: hash = 0 modulo N"""
    for f in st.pc.lits:
        if f not in (True, False) and f[0] == "cong":
            a = f[1].single_atom()
            if a is not None and ATOMS[a].kind.startswith("sha"):
                return True
    return False


# ---------------------------------------------------------------- obligations

def completeness(p, pr, extra=None):
    for side in pr.sides:
        tag = "" if side is None else "[side %s] " % side
        ex = p.executor(PTC)
        st = base_state(ex)
        s = pr.setup(p, ex, st, side)
        finals = run(ex, st, pr.new, s.newargs)
        ok = err = 0
        for f in finals:
            if f.out[0] == "panic":
                p.add(tag + "prover does not panic", not f.pc.feasible(), "%s at %s; path: %s" % (f.out[1], f.out[2], show_pc(f.pc)))
                continue
            if f.ghost.get("failed"):
                continue
            proof, e = f.out[1]
            if e is NIL:
                if not f.pc.feasible():
                    continue
                ok += 1
                p.holds(tag + "ensures err = nil only for true statements", f, s.must, "the prover returned a proof")
                p.add(tag + "ensures a proof is returned", isinstance(ex.resolve(f, proof), Ptr), "no proof and no error")
                for g in run(ex, f, verify_fn(pr), [proof] + s.verargs):
                    if g.out[0] == "panic":
                        p.add(tag + "verification of a created proof does not panic", not g.pc.feasible(), "%s at %s" % (g.out[1], g.out[2]))
                        continue
                    if not g.pc.feasible():
                        continue
                    p.add(tag + "ensures Verify(New(...)) = true", is_accept(g.out[1]), "result %r on path: %s" % (g.out[1], show_pc(g.pc)))
            else:
                if negligible(f):
                    p.notes.add("a digest that is 0 modulo N is taken not to occur")
                    continue
                if not f.pc.feasible():
                    continue
                err += 1
                c = f.pc.clone()
                c.add(s.must)
                r = c.refuted()
                p.add(tag + "ensures err != nil only for false statements", r,
                      "error returned although the statement holds; path: %s" % show_pc(f.pc))
        frames_ok(p, tag + "modifies nothing (prover)", finals)
        if side != "other":
            p.add(tag + "vacuity: a proof is created on some path", ok > 0, "no path creates a proof")
        p.add(tag + "vacuity: false statements are reached", err > 0, "no path returns an error")


def coverage_of(h):
    """coordinates in the transcript of a challenge term"""
    a = h.single_atom()
    if a is None or ATOMS[a].kind != "mod" or ATOMS[a].args[1] != N:
        return None
    b = ATOMS[a].args[0].single_atom()
    if b is None or ATOMS[b].kind != "sha256":
        return None
    return [s[1] for s in ATOMS[b].args[0] if s[0] in ("be", "fix")]


def transcript_bytes(h):
    a = h.single_atom()
    b = ATOMS[a].args[0].single_atom()
    return ATOMS[b].args[0]


def covers(p, st, h, e):
    """both coordinates of e*G are in the transcript"""
    segs = transcript_bytes(h)
    for co in (st.pc.norm(xc(e)), st.pc.norm(yc(e))):
        if co.is_const():
            continue
        if not any(s[0] in ("be", "fix") and s[1] == co for s in segs):
            return False
    return True


def exactness(p, pr):
    ex = p.executor(PTC)
    st = base_state(ex)
    a = pr.arbitrary(p, ex, st)
    proof = build(ex, st, pr.type, a["proof"])
    args = [ecpoint(st, d[1]) for d in a["args"]]
    finals = run(ex, st, verify_fn(pr), [proof, st.zkpcp] + args)
    chal = {}
    acc = rej = 0
    for f in finals:
        if f.out[0] == "panic":
            p.add("verifier does not panic", not f.pc.feasible(), "%s at %s; path: %s" % (f.out[1], f.out[2], show_pc(f.pc)))
            continue
        if not f.pc.feasible():
            continue
        r = f.out[1]
        if is_accept(r):
            acc += 1
            for q in a["eqs"]:
                p.holds("ensures accepted => equation", f, q, "accepted without this equation")
            for c, req in a["chals"]:
                i = c.single_atom()
                h = f.pc.sub.z.get(i)
                if h is None or coverage_of(h) is None:
                    p.add("ensures accepted => challenge is a digest", False, "challenge %r is %r" % (c, h))
                    continue
                p.add("ensures accepted => challenge is a digest", True)
                for nm, e in req.items():
                    p.add("ensures the digest covers " + nm, covers(p, f, h, e), "transcript: %r" % (transcript_bytes(h),))
                old = chal.setdefault(i, (f, h))
    if not p.add("vacuity: some proof is accepted", acc > 0, "no accepting path"):
        return
    for f in finals:
        if f.out[0] == "panic" or is_accept(f.out[1]) or not f.pc.feasible():
            continue
        rej += 1
        r = f.out[1]
        c = f.pc.clone()
        for q in a["eqs"]:
            c.add(q)
        # the digest as the rejecting path computes it: same transcript, equations applied
        for i, (g, h) in chal.items():
            c.add(f_eq(Poly.atom(i), raw_digest(ex, f, g, i)))
        res = c.refuted()
        p.add("ensures rejected => some condition fails", res, "valid transcript rejected; path: %s" % show_pc(f.pc))
    p.add("vacuity: some proof is rejected", rej > 0, "no rejecting path")
    frames_ok(p, "modifies nothing (verifier)", finals)
    extraction(p, pr, a)


def raw_digest(ex, f, g, i):
    """The challenge term compared on the accepting path g, before substitution."""
    for lit in g.pc.lits:
        if lit not in (True, False) and lit[0] == "eq" and (i,) in lit[1].t:
            k = lit[1].t[(i,)]
            rest = Poly({m: c for m, c in lit[1].t.items() if m != (i,)})
            rest = rest if k == -1 else -rest
            if coverage_of(rest) is not None:
                return rest
    # compared with something the challenge was already known to be equal to
    for lit in g.pc.lits:
        if lit not in (True, False) and lit[0] in ("eq", "cong") and isinstance(lit[1], Poly):
            ds = [a for a in sorted(lit[1].atoms()) if ATOMS[a].kind == "sha256"]
            ms = [a for a in sorted(lit[1].atoms()) if coverage_of(Poly.atom(a)) is not None]
            if len(ms) == 1:
                return Poly.atom(ms[0])
            if len(ds) == 1:
                return t_mod(Poly.atom(ds[0]), N)
    raise Unsupported("challenge comparison not found")


def extraction(p, pr, a):
    """Special soundness, from the equations alone."""
    pc = PC()
    nm = pr.name
    if nm == "GSPFS":
        B, A, T_, = evar("B"), evar("A"), evar("T")
        s1, s2, c1, c2 = (ivar(n) for n in ("s1", "s2", "c1", "c2"))
        d = var("d", 1, N - 1)       # c1 - c2, invertible
        pc.add(f_cong(c1 - c2 - d))
        pc.add(f_cong(s1 * B + c1 * A - T_))
        pc.add(f_cong(s2 * B + c2 * A - T_))
        w = (s2 - s1) * t_inv(d, N)
        p.add("lemma: two transcripts give the secret", lemma(pc, [f_cong(d * A - (s2 - s1) * B)], d, A, w * B), "A = w*B does not follow")
    elif nm == "Equivalence":
        B1, B2, R1, R2, U, V = (evar(n) for n in ("B1", "B2", "R1", "R2", "U", "V"))
        s1, s2, c1, c2 = (ivar(n) for n in ("s1", "s2", "c1", "c2"))
        d = var("d", 1, N - 1)
        pc.add(f_cong(c1 - c2 - d))
        for s, c in ((s1, c1), (s2, c2)):
            pc.add(f_cong(s * B1 - U - c * R1))
            pc.add(f_cong(s * B2 - V - c * R2))
        w = (s1 - s2) * t_inv(d, N)
        p.add("lemma: two transcripts give one secret for both", lemma(pc, [], d, R1, w * B1) and lemma(pc, [], d, R2, w * B2))
    elif nm == "Consistency":
        CM, Tok, PK, T1, T2 = (evar(n) for n in ("CM", "Tok", "PK", "T1", "T2"))
        c1, c2, a1, a2, b1, b2 = (ivar(n) for n in ("c1", "c2", "a1", "a2", "b1", "b2"))
        d = var("d", 1, N - 1)
        pc.add(f_cong(c1 - c2 - d))
        for c, x, y in ((c1, a1, b1), (c2, a2, b2)):
            pc.add(f_cong(x + y * H_EXP - T1 - c * CM))
            pc.add(f_cong(y * PK - T2 - c * Tok))
        i = t_inv(d, N)
        p.add("lemma: two transcripts give value and one randomness",
              lemma(pc, [], d, CM, (a1 - a2) * i + (b1 - b2) * i * H_EXP) and lemma(pc, [], d, Tok, (b1 - b2) * i * PK))
    elif nm == "Disjunctive":
        # c = c1 + c2 differs, so c1 or c2 differs; that side gives its secret
        B, R, T1 = evar("B"), evar("R"), evar("T")
        c1, c2, s1, s2 = (ivar(n) for n in ("c1", "c2", "s1", "s2"))
        d = var("d", 1, N - 1)
        pc.add(f_cong(c1 - c2 - d))
        pc.add(f_cong(s1 * B - T1 - c1 * R))
        pc.add(f_cong(s2 * B - T1 - c2 * R))
        p.add("lemma: a side whose share differs gives its secret", lemma(pc, [], d, R, (s1 - s2) * t_inv(d, N) * B))
    elif nm in ("ABC", "Inequality"):
        CM, Tok, B, C, T1, T2 = (evar(n) for n in ("CM", "Tok", "B", "C", "T1", "T2"))
        c1, c2, j1, j2, k1, k2, l1, l2 = (ivar(n) for n in ("c1", "c2", "j1", "j2", "k1", "k2", "l1", "l2"))
        d = var("d", 1, N - 1)
        pc.add(f_cong(c1 - c2 - d))
        for c, j, k, l in ((c1, j1, k1, l1), (c2, j2, k2, l2)):
            pc.add(f_cong(c * CM + T1 - j - k * Tok))
            pc.add(f_cong(c * C + T2 - j * B - l * H_EXP))
        i = t_inv(d, N)
        p.add("lemma: CM opens to v, C commits to v times B's value",
              lemma(pc, [], d, CM, (j1 - j2) * i + (k1 - k2) * i * Tok) and lemma(pc, [], d, C, (j1 - j2) * i * B + (l1 - l2) * i * H_EXP))


def lemma(pc, hyps, d, lhs, rhs):
    """lhs = rhs modulo N, shown by multiplying with the invertible d"""
    # express c1 through d
    g = toN(pc.norm(toN((lhs - rhs) * d), N))
    return g == ZERO or pc.quick(f_cong((lhs - rhs) * d)) is True


def nil_and_consistent(p, pr):
    """C29: results are (true, nil) or (false, err); nil proofs are rejected."""
    ex = p.executor(PTC)
    st = base_state(ex)
    a = pr.arbitrary(p, ex, st)
    proof = build(ex, st, pr.type, a["proof"])
    args = [ecpoint(st, d[1]) for d in a["args"]]
    for what, pf in (("any proof", proof), ("nil proof", NIL)):
        finals = run(ex, st, verify_fn(pr), [pf, st.zkpcp] + args)
        n = 0
        for f in finals:
            if not f.pc.feasible():
                continue
            n += 1
            if f.out[0] == "panic":
                p.add("%s %s: no panic" % (pr.name, what), False, "%s at %s; path: %s" % (f.out[1], f.out[2], show_pc(f.pc)))
                continue
            consistent(p, ex, "%s %s: " % (pr.name, what), f, pf is NIL)
        p.add("%s %s: vacuity: some path" % (pr.name, what), n > 0)


def consistent(p, ex, name, f, must_reject):
    b, e = f.out[1]
    e = ex.resolve(f, e)
    bt = b if b in (True, False) else f.pc.entails(b)
    good = (bt is True and e is NIL and not must_reject) or (bt is False and isinstance(e, Iface))
    p.add(name + "ensures (true, nil) or (false, error)", good, "returns (%r, %r) on path %s" % (b, e, show_pc(f.pc)))


def rng_failure(p, pr):
    for side in pr.sides:
        if side == "other":
            continue
        tag = pr.name + ("" if side is None else "[side %s]" % side) + ": "
        ex = p.executor(PTC, rand="fail")
        st = base_state(ex)
        s = pr.setup(p, ex, st, side)
        finals = run(ex, st, pr.new, s.newargs)
        n = 0
        for f in finals:
            if not f.ghost.get("failed") or not f.pc.feasible():
                continue
            n += 1
            if f.out[0] == "panic":
                p.add(tag + "a failed draw does not panic", False, "%s at %s" % (f.out[1], f.out[2]))
                continue
            proof, e = f.out[1]
            p.add(tag + "ensures error and no proof after a failed draw", isinstance(e, Iface) and is_zero_struct(ex, f, proof),
                  "returned %r, %r after draw %d failed" % (proof, e, len(f.ghost.get("draws", ()))))
        p.add(tag + "vacuity: draws can fail", n > 0, "no draw was made")


def freeze(p_, cache):
    """replace digests by constants of their own"""
    sub = {}
    for i in p_.atoms():
        if ATOMS[i].kind in ("sha256", "sha512"):
            sub[i] = cache.setdefault(i, var("chal", 0, N - 1))
    if not sub:
        return p_
    return subst_atoms(p_, sub)


def frozen(x, cache):
    x = toN(x)
    x = freeze(x, cache)
    # digests under inverses
    sub = {}
    for i in x.atoms():
        if ATOMS[i].kind == "inv":
            y = frozen(ATOMS[i].args[0], cache)
            if y != ATOMS[i].args[0]:
                sub[i] = t_inv(y, N)
    return toN(subst_atoms(x, sub)) if sub else x


def masking(p, pr):
    for side in pr.sides:
        if side == "other":
            continue
        tag = pr.name + ("" if side is None else "[side %s]" % side) + ": "
        ex = p.executor(PTC)
        st = base_state(ex)
        s = pr.setup(p, ex, st, side)
        finals = [f for f in run(ex, st, pr.new, s.newargs) if f.out[0] == "ret" and f.out[1][1] is NIL and f.pc.feasible()]
        p.add(tag + "vacuity: a proof is created", len(finals) > 0)
        for f in finals:
            fs = unpack(ex, f, "ABCProof" if pr.type == "InequalityProof" else pr.type, f.out[1][0])
            reduced(p, tag, f, fs)
            draws = f.ghost.get("draws", ())
            p.add(tag + "every mask is drawn from the full range", all(m == N for _, m in draws), "ranges %r" % ([small(m) for _, m in draws],))
            outs = pr.outputs(fs) + [x[1] for x in pr.ptouts(fs)]
            bijective(p, tag, f, outs, [d for d, _ in draws])


def reduced(p, tag, f, fs, pre=""):
    for k, v in fs.items():
        if isinstance(v, dict):
            reduced(p, tag, f, v, pre + k + ".")
        elif isinstance(v, Poly):
            p.add(tag + "%s%s is reduced modulo the order" % (pre, k), within(v, 0, N - 1) or f.pc.entails(f_and(f_le(ZERO, v), f_lt(v, P_(N)))) is True,
                  "%s = %r" % (k, v))


def bijective(p, tag, f, outs, draws):
    cache = {}
    outs = [frozen(f.pc.norm(o), cache) for o in outs]
    ids = [d.single_atom() for d in draws]
    if not p.add(tag + "as many masks as published values", len(ids) == len(outs), "%d draws for %d values" % (len(ids), len(outs))):
        return
    left, todo = list(ids), list(outs)
    progress = True
    while left and progress:
        progress = False
        for o in todo:
            hit = [i for i in left if i in deep_atoms_poly(o)]
            if len(hit) != 1 or not o.atoms() & set(hit):
                continue
            a = coeff(o, hit[0])
            if a is None:
                continue
            a = toN(f.pc.norm(a, N))
            if a == ZERO or f.pc.entails(f_not(f_cong(a))) is not True:
                continue
            todo.remove(o)
            left.remove(hit[0])
            progress = True
            break
    if not left:
        p.add(tag + "masks -> published values is one-to-one", True)
        return
    rows = []
    for o in todo:
        row = [coeff(o, i) for i in left]
        if any(r is None for r in row) or any(i in deep_atoms_poly(r) for r in row for i in left):
            p.add(tag + "masks -> published values is one-to-one", False, "not affine in the masks: %r" % (o,))
            return
        rows.append(row)
    d = det(rows)
    d = toN(f.pc.norm(d, N))
    ok = d != ZERO and f.pc.entails(f_not(f_cong(d))) is True
    p.add(tag + "masks -> published values is one-to-one", ok, "determinant %r may vanish; values %r" % (d, todo))


def coeff(o, i):
    """coefficient of an atom that occurs linearly, and nowhere else"""
    r = ZERO
    for m, c in o.t.items():
        if i in m:
            if m.count(i) > 1:
                return None
            mm = list(m)
            mm.remove(i)
            r = r + Poly({tuple(mm): c})
    for k in o.atoms():
        if k != i and i in deep_atoms(k):
            return None
    return r


def det(rows):
    n = len(rows)
    if n == 0:
        return ONE
    # expand along the row with fewest entries
    k = min(range(n), key=lambda r: sum(1 for x in rows[r] if x.t))
    r = ZERO
    for j, x in enumerate(rows[k]):
        if not x.t:
            continue
        m = [[y for jj, y in enumerate(row) if jj != j] for i, row in enumerate(rows) if i != k]
        t = x * det(m)
        r = r + (t if (k + j) % 2 == 0 else -t)
    return toN(r)
