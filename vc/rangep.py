"""Contracts of the range proof."""
from .proto import *

RNEW = ZK + ".NewRangeProof"
RVER = "(*%s.RangeProof).Verify" % ZK
BITS = 40


def bits_value(n=BITS):
    bs = [Poly.atom(mk_atom("var", ("bit%d" % i, 0), 0, 1, True)) for i in range(n)]
    v = ZERO
    for i, b in enumerate(bs):
        v = v + b * (1 << i)
    return bs, v


class shannon_on:
    def __enter__(self):
        T.SHANNON[0] = True

    def __exit__(self, *a):
        T.SHANNON[0] = False


def range_domain(p):
    """values outside 0..2^40-1 are refused"""
    for name, cond in (("value >= 2^40", lambda v: f_le(P_(1 << BITS), v)), ("value < 0", lambda v: f_lt(v, ZERO))):
        ex = p.executor(PTC)
        st = base_state(ex)
        v = ivar("value")
        st.pc.add(cond(v))
        finals = run(ex, st, RNEW, [st.zkpcp, big(st, v)])
        n = 0
        for f in finals:
            if not f.pc.feasible():
                continue
            n += 1
            if f.out[0] == "panic":
                p.add(name + ": no panic", False, "%s at %s" % f.out[1:])
                continue
            pf, vt, e = f.out[1]
            p.add(name + ": ensures error and no proof", isinstance(e, Iface) and is_zero_struct(ex, f, pf), "returned %r %r" % (pf, e))
        p.add(name + ": vacuity", n > 0)
        frames_ok(p, name + ": modifies nothing", finals)


def prove_all(p, rand="ok", value=None):
    ex = p.executor(PTC, merge=True, rand=rand, digest_unit=True, max_steps=3000000, max_states=20000)
    st = base_state(ex)
    bs, v = bits_value()
    if value is not None:
        v = P_(value)
    finals = run(ex, st, RNEW, [st.zkpcp, big(st, v)])
    return ex, bs, v, finals


def range_completeness(p):
    with shannon_on():
        ex, bs, v, finals = prove_all(p)
        ok = 0
        for f in finals:
            if f.out[0] == "panic":
                p.add("prover does not panic", not f.pc.feasible(), "%s at %s; path: %s" % (f.out[1], f.out[2], show_pc(f.pc)))
                continue
            pf, vt, e = f.out[1]
            if e is not NIL:
                e = ex.resolve(f, e)
                if negligible(f):
                    p.notes.add("a digest that is 0 modulo N is taken not to occur")
                    continue
                p.add("ensures a proof for every value in range", not f.pc.feasible(), "error on path %s" % show_pc(f.pc))
                continue
            ok += 1
            r = f.pc.norm(ex.big(f, vt))
            comm = ecpoint(f, v + r * H_EXP)
            for g in run(ex, f, RVER, [pf, f.zkpcp, comm]):
                if g.out[0] == "panic":
                    p.add("verifier does not panic", not g.pc.feasible(), "%s at %s" % (g.out[1], g.out[2]))
                    continue
                if not g.pc.feasible():
                    continue
                p.add("ensures Verify(New(v)) = true for the commitment under the returned randomness", is_accept(g.out[1]),
                      "result %r, path %s" % (g.out[1], show_pc(g.pc)))
                rc = races(g)
                p.add("goroutines of the verifier write only memory of their own", not rc, "%r" % (rc[:3],), "frame")
            rc = races(f)
            p.add("goroutines of the prover write only memory of their own", not rc, "%r" % (rc[:3],), "frame")
        p.add("vacuity: a proof is created", ok > 0)
        frames_ok(p, "modifies nothing", finals)


TUPLE = ZK + ".rangeProofTuple"
RT = ZK + ".RangeProof"


def range_input(ex, st, n, nilC=None, nilS=None):
    """A proof with n entries that are arbitrary points and integers."""
    e0, agg = ivar("ProofE"), evar("Aggregate")
    C = [evar("C%d" % i) for i in range(n)]
    S = [ivar("S%d" % i) for i in range(n)]
    tt = ex.prog.under(ex.prog.byname[RT])["f"]
    et = ex.prog.tname(ex.prog.under([f for f in tt if f["n"] == "ProofTuples"][0]["t"])["e"])
    tup = []
    for i in range(n):
        c = StructV([NIL, NIL]) if i == nilC else ecpoint(st, C[i])
        tup.append(mkstruct(ex, et, C=c, S=NIL if i == nilS else big(st, S[i])))
    sl = NILSLICE if n == 0 else Slice(st.new(ArrV(tup), "input"), ZERO, P_(n), P_(n))
    pf = st.new(mkstruct(ex, RT, ProofAggregate=ecpoint(st, agg), ProofE=big(st, e0), ProofTuples=sl), "input")
    comm = evar("comm")
    return pf, ecpoint(st, comm), e0, agg, C, S, comm


def seg_values(segs):
    return [s[1] if s[0] in ("be", "fix") else None for s in segs]


def digest_atom(i):
    return ATOMS[i].kind == "sha256"


def range_exact(p, n):
    ex = p.executor(PTC, max_states=20000, max_steps=3000000)
    st = base_state(ex)
    pf, commp, e0, agg, C, S, comm = range_input(ex, st, n)
    tag = "n=%d: " % n
    total = ZERO
    for c in C:
        total = total + c
    eqs = [f_cong(total - agg), f_cong(total - comm)]
    finals = run(ex, st, RVER, [pf, st.zkpcp, commp])
    acc = rej = 0
    dig = None
    for f in finals:
        if f.out[0] == "panic":
            p.add(tag + "verifier does not panic", not f.pc.feasible(), "%s at %s; path: %s" % (f.out[1], f.out[2], show_pc(f.pc)))
            continue
        rc = races(f)
        p.add(tag + "goroutines write only memory of their own", not rc, "%r" % (rc[:3],), "frame")
        if not is_accept(f.out[1]) or not f.pc.feasible():
            continue
        acc += 1
        for q, nm in zip(eqs, ("aggregate", "commitment")):
            p.holds(tag + "ensures accepted => entries add up to the " + nm, f, q)
        h = raw_digest(ex, f, f, e0.single_atom())
        dig = h
        if not p.add(tag + "ensures accepted => challenge is a digest", h.is_const() or coverage_of(h) is not None, "challenge is %r" % (h,)):
            continue
        if n == 0:
            continue
        vals = seg_values(transcript_bytes(h))
        ok = len(vals) == 2 * n
        p.add(tag + "ensures the digest is over %d points" % n, ok, "%d values in the transcript" % len(vals))
        if not ok:
            continue
        for i in range(n):
            R = point_of(vals[2 * i], vals[2 * i + 1])
            d = None
            if R is not None:
                ds = [a for a in R.atoms() if digest_atom(a)]
                if len(ds) == 1:
                    d = ds[0]
            want = None
            if d is not None:
                tot = S[i] * H_EXP - e0 * (C[i] - (1 << i))
                inner = seg_values(ATOMS[d].args[0])
                norm = f.pc.norm
                want = norm(R - Poly.atom(d) * C[i], N) == ZERO and len(inner) == 2 and all(x == y or norm(x) == norm(y) for x, y in zip(inner, (xc(tot), yc(tot))))
            p.add(tag + "ensures entry %d: ring point is H(s*H - e0*(C - 2^%d*G))*C" % (i, i), want is True, "ring point %r" % (R,))
    if not p.add(tag + "vacuity: some proof is accepted", acc > 0, "no accepting path"):
        return
    for f in finals:
        if f.out[0] == "panic" or is_accept(f.out[1]) or not f.pc.feasible():
            continue
        rej += 1
        consistent(p, ex, tag, f, False)
        c = f.pc.clone()
        for q in eqs:
            c.add(q)
        lits = [l for l in f.pc.lits if l not in (True, False)]
        neg = f_not(f_eq(e0, dig))
        ok = any(l == neg for l in lits)
        p.add(tag + "ensures rejected => some condition fails", ok or c.refuted() is True, "valid transcript rejected; path: %s" % show_pc(f.pc))
    p.add(tag + "vacuity: some proof is rejected", rej > 0)
    frames_ok(p, tag + "modifies nothing", finals)


def range_rejects(p):
    """too many or missing entries"""
    for name, n, kw in (("entry 0 without point", 1, dict(nilC=0)), ("entry 0 without scalar", 1, dict(nilS=0)),
                        ("entry 1 without point", 2, dict(nilC=1)), ("entry 2 without scalar", 3, dict(nilS=2)),
                        ("entry 17 without point", 40, dict(nilC=17)), ("entry 39 without scalar", 40, dict(nilS=39)),
                        ("nil proof", None, None), ("more than 64 entries", -1, None)):
        ex = p.executor(PTC, max_states=20000, max_steps=3000000)
        st = base_state(ex)
        if n is None:
            pf, commp = NIL, ecpoint(st, evar("comm"))
        elif n == -1:
            pf, commp = range_input(ex, st, 65)[:2]
            m = var("entries", 65, 1 << 40)
            i = [f["n"] for f in prog_fields(ex.prog, RT)].index("ProofTuples")
            v = st.heap[pf.obj]
            st.heap[pf.obj] = v.set(i, Slice(v.f[i].ptr, ZERO, m, m))
        else:
            pf, commp = range_input(ex, st, n, **kw)[:2]
        finals = run(ex, st, RVER, [pf, st.zkpcp, commp])
        k = 0
        for f in finals:
            if not f.pc.feasible():
                continue
            k += 1
            if f.out[0] == "panic":
                p.add(name + ": no panic", False, "%s at %s" % f.out[1:])
            else:
                consistent(p, ex, name + ": ", f, True)
        p.add(name + ": vacuity", k > 0)


def range_accept_exact(p, ns):
    for n in ns:
        range_exact(p, n)


def range_masking(p):
    with shannon_on():
        ex, bs, v, finals = prove_all(p)
        finals = [f for f in finals if f.out[0] == "ret" and f.out[1][2] is NIL and f.pc.feasible()]
        p.add("Range: vacuity: a proof is created", len(finals) > 0)
        for f in finals:
            pf = ex.load(f, ex.resolve(f, f.out[1][0]))
            e0 = f.pc.norm(ex.big(f, field(ex, RT, pf, "ProofE")))
            p.add("Range: ProofE is reduced modulo the order", within(e0, 0, N - 1), "%r" % (e0,))
            sl = ex.resolve(f, field(ex, RT, pf, "ProofTuples"))
            draws = f.ghost.get("draws", ())
            p.add("Range: every mask is drawn from the full range", all(m == N for _, m in draws), "%r" % ([small(m) for _, m in draws][:3],))
            ids = {d.single_atom() for d, _ in draws}
            used = set()
            ts = ex.elems(f, sl)
            p.add("Range: one entry per bit", len(ts) == BITS)
            et = ex.prog.tname(ex.prog.under([q for q in prog_fields(ex.prog, RT) if q["n"] == "ProofTuples"][0]["t"])["e"])
            for i, t in enumerate(ts):
                S = f.pc.norm(ex.big(f, field(ex, et, t, "S")))
                p.add("Range: S[%d] is reduced modulo the order" % i, within(S, 0, N - 1), "%r" % (S,))
                C = exp_of(ex, f, *ex.resolve(f, field(ex, et, t, "C")).f)
                for c in (ZERO, ONE):
                    b = bs[i].single_atom()
                    outs = [toN(T._SHSUB[0](x, b, c)) for x in (C, toN(S))]
                    # digests with several 0/1 atoms are names: the overall challenge
                    mine = []
                    cache = {}
                    outs = [frozen(o, cache) for o in outs]
                    for o in outs:
                        for a in o.atoms():
                            if a in ids and a not in mine:
                                mine.append(a)
                    p.add("Range: entry %d uses masks of its own" % i, not (used & {(a, c) for a in mine}) and not any((a, ONE - c) in used and False for a in mine))
                    used |= {(a, c) for a in mine}
                    bijective(p, "Range[entry %d, bit %s]: " % (i, c), f, outs, [Poly.atom(a) for a in mine])


def range_rng(p):
    # every index with either bit, next to either bit
    for value in (0, 2 ** BITS - 1, 0xAAAAAAAAAA, 0x5555555555, 0xCCCCCCCCCC, 0x3333333333):
        range_rng_value(p, value)


def range_rng_value(p, value):
    with shannon_on():
        ex, bs, v, finals = prove_all(p, rand="fail", value=value)
        n = 0
        for f in finals:
            if f.out[0] == "panic":
                p.add("Range: a failed draw does not panic", not f.pc.feasible(), "%s at %s; path: %s" % (f.out[1], f.out[2], show_pc(f.pc)))
                continue
            pf, vt, e = f.out[1]
            fl = f.ghost.get("failed", 0)
            if e is NIL:
                if not f.pc.feasible():
                    continue
                p.holds("Range: ensures a proof is returned only when no draw failed", f, f_eq(P_(fl), ZERO))
            else:
                n += 1
                p.add("Range: ensures an error comes without proof", is_zero_struct(ex, f, pf) and ex.resolve(f, vt) is NIL, "%r" % (pf,))
            rc = races(f)
            p.add("Range: goroutines write only memory of their own", not rc, "%r" % (rc[:3],), "frame")
        p.add("Range: vacuity: draws can fail", n > 0)
