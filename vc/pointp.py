"""Contracts of the point operations and commitments (C01, C05)."""
from .proto import *

PED = dict(PTC)


def iff(a, b):
    return f_or(f_and(a, b), f_and(f_not(a), f_not(b)))


def frames(p, name, finals):
    """nothing that existed before the call was written"""
    bad = [w for f in finals for w in f.writes if f.out[0] != "panic" or True]
    p.add(name + "modifies nothing that existed before the call", not bad, "writes to %s" % [(w[2], w[3]) for w in bad[:4]])


def live(p, name, finals, okpanic=None):
    out = []
    for f in finals:
        if not f.pc.feasible():
            continue
        if f.out[0] == "panic":
            if okpanic and okpanic(f):
                continue
            p.add(name + "does not panic", False, "%s at %s; path: %s" % (f.out[1], f.out[2], show_pc(f.pc)))
            continue
        out.append(f)
    p.add(name + "vacuity: the function returns on some path", bool(out), "no path returns")
    return out


def result_point(p, name, f, ex, want):
    r = ex.resolve(f, f.out[1])
    if any(isnil(ex, f, v) for v in r.f):
        p.add(name, False, "nil coordinate on path: %s" % show_pc(f.pc))
        return
    p.holds(name, f, f_cong(exp_of(ex, f, *r.f) - want), "the result is %r" % (r,))


def point_op(p, what):
    ex = p.executor(CURVE)
    if what == "Equal":
        st = base_state(ex)
        v = [ivar(n) for n in ("X1", "Y1", "X2", "Y2")]
        a, b = StructV([big(st, v[0]), big(st, v[1])]), StructV([big(st, v[2]), big(st, v[3])])
        fs = run(ex, st, "(%s.ECPoint).Equal" % ZK, [a, b])
        for f in live(p, "", fs):
            p.holds("ensures result <=> both coordinates are equal", f, iff(f.out[1], f_and(f_eq(v[0], v[2]), f_eq(v[1], v[3]))))
        frames(p, "", fs)
        return
    st = base_state(ex)
    a, b, s = evar("P1"), evar("P2"), ivar("s")
    fn, args, want = {
        "Mult": ("Mult", [ecpoint(st, a), big(st, s)], a * s),
        "Mult of G": ("Mult", [ecpoint(st, ONE), big(st, s)], s),
        "Mult of H": ("Mult", [ecpoint(st, H_EXP), big(st, s)], H_EXP * s),
        "Add": ("Add", [ecpoint(st, a), ecpoint(st, b)], a + b),
        "Sub": ("Sub", [ecpoint(st, a), ecpoint(st, b)], a - b),
        "Neg": ("Neg", [ecpoint(st, a)], -a),
    }[what]
    fs = run(ex, st, ZP + "." + fn, [st.zkpcp] + args)
    for f in live(p, "", fs):
        result_point(p, "ensures the result is the group element", f, ex, want)
    frames(p, "", fs)
    # the same object passed as both operands
    if what in ("Add", "Sub"):
        ex = p.executor(CURVE)
        st = base_state(ex)
        P1 = ecpoint(st, a)
        fs = run(ex, st, ZP + "." + fn, [st.zkpcp, P1, P1])
        for f in live(p, "[same operand] ", fs):
            result_point(p, "[same operand] ensures the result is the group element", f, ex, 2 * a if what == "Add" else ZERO)
        frames(p, "[same operand] ", fs)


def commit_op(p, what):
    ex = p.executor(PED)
    st = base_state(ex)
    v, r, e, k = ivar("v"), ivar("r"), evar("C"), evar("K")
    com = v + r * H_EXP
    if what == "PedCommitR":
        fs = run(ex, st, ZK + ".PedCommitR", [st.zkpcp, big(st, v), big(st, r)])
        for f in live(p, "", fs):
            result_point(p, "ensures result = v*G + r*H", f, ex, com)
    elif what == "PedCommit":
        fs = run(ex, st, ZK + ".PedCommit", [st.zkpcp, big(st, v)])
        n = 0
        for f in live(p, "", fs):
            pt, rr, err = f.out[1]
            if err is NIL:
                n += 1
                q = ex.resolve(f, pt)
                p.holds("ensures result = v*G + r*H for the returned r", f, f_cong(exp_of(ex, f, *q.f) - v - ex.big(f, rr) * H_EXP))
            else:
                p.add("ensures err != nil only when the random source fails", bool(f.ghost.get("failed")), "error without failure")
                p.add("ensures no randomness is returned with an error", ex.resolve(f, rr) is NIL, "randomness returned with an error")
        p.add("vacuity: a commitment is made", n > 0, "none")
    elif what == "Open":
        fs = run(ex, st, ZK + ".Open", [st.zkpcp, big(st, v), big(st, r), ecpoint(st, e)])
        for f in live(p, "", fs):
            p.holds("ensures result <=> C = v*G + r*H", f, iff(f.out[1], f_cong(e - com)), "result %r" % (f.out[1],))
    elif what == "CommitR":
        fs = run(ex, st, ZK + ".CommitR", [st.zkpcp, ecpoint(st, k), big(st, r)])
        for f in live(p, "", fs):
            result_point(p, "ensures result = r*K", f, ex, r * k)
    elif what == "VerifyR":
        fs = run(ex, st, ZK + ".VerifyR", [st.zkpcp, ecpoint(st, e), ecpoint(st, k), big(st, r)])
        for f in live(p, "", fs):
            p.holds("ensures result <=> C = r*K", f, iff(f.out[1], f_cong(e - r * k)), "result %r" % (f.out[1],))
    elif what == "KeyGen":
        fs = run(ex, st, ZK + ".KeyGen", [st.curve, ecpoint(st, k)])
        for f in live(p, "", fs, lambda f: f.ghost.get("failed")):
            pt, sk = f.out[1]
            q = ex.resolve(f, pt)
            s = ex.big(f, sk)
            p.holds("ensures public key = secret * base", f, f_cong(exp_of(ex, f, *q.f) - s * k))
            p.holds("ensures 0 <= secret < N", f, f_and(f_le(ZERO, s), f_lt(s, P_(N))))
    frames(p, "", fs)
