"""Machine-integer operations on terms."""
from .terms import *
from . import terms as T
from .logic import *


def t_blen(p):
    """number of bytes of the minimal big-endian encoding of p >= 0"""
    if p.is_const():
        return Poly.const((p.cval().bit_length() + 7) // 8)
    lo, hi = iv(p)
    l = ((lo or 0).bit_length() + 7) // 8 if lo is not None and lo >= 0 else 0
    h = None if hi is None else (hi.bit_length() + 7) // 8
    if l == h:
        return Poly.const(l)
    return Poly.atom(mk_atom("blen", (p,), l, h))


def t_bitlen(p):
    """number of bits of p >= 0"""
    if p.is_const():
        return Poly.const(abs(p.cval()).bit_length())
    lo, hi = iv(p)
    return Poly.atom(mk_atom("bitlen", (p,), (lo or 0).bit_length() if (lo or 0) >= 0 else 0, None if hi is None else max(hi, 0).bit_length()))


REBUILD["bitlen"] = lambda rw, a: t_bitlen(rw(a.args[0], None))
REBUILD["blen"] = lambda rw, a: t_blen(rw(a.args[0], None))


def t_quo(p, M):
    """floor(p / M), M a positive constant"""
    p = P_(p)
    if M == 1:
        return p
    out, rest = {}, {}
    for m, c in p.t.items():
        if c % M == 0:
            out[m] = c // M
        else:
            rest[m] = c
    q = Poly(out)
    r = Poly(rest)
    if not r.t:
        return q
    lo, hi = iv(r)
    if lo is not None and hi is not None and lo // M == hi // M:
        return q + lo // M
    # a constant that crosses: keep the constant part in [0, M)
    c = r.cval()
    if c < 0 or c >= M:
        k = c // M
        r = r - k * M
        q = q + k
        lo, hi = iv(r)
        if lo is not None and hi is not None and lo // M == hi // M:
            return q + lo // M
    # nested quotients
    a = r.single_atom()
    if a is not None and ATOMS[a].kind == "quo":
        return q + t_quo(ATOMS[a].args[0], ATOMS[a].args[1] * M)
    a = (r - 7).single_atom() if M == 8 else None
    if a is not None and ATOMS[a].kind == "bitlen":
        return q + t_blen(ATOMS[a].args[0])
    at = Poly.atom(mk_atom("quo", (r, M), None if lo is None else lo // M, None if hi is None else hi // M))
    # the remainder is in range
    note_iv(r - at * M, 0, M - 1)
    return q + at


REBUILD["low"] = lambda rw, a: t_low(rw(a.args[0], None), a.args[1])


def expand_low(p, memo=None):
    """Write the named remainders as differences."""
    memo = {} if memo is None else memo
    r = ZERO
    for m, c in p.t.items():
        x = Poly.const(c)
        for i in m:
            y = memo.get(i)
            if y is None:
                a = ATOMS[i]
                if a.kind == "low":
                    y = expand_low(a.args[0], memo) - expand_low(t_quo(a.args[0], 1 << a.args[1]), memo) * (1 << a.args[1])
                else:
                    y = Poly.atom(i)
                memo[i] = y
            x = x * y
        r = r + x
    return r


REBUILD["quo"] = lambda rw, a: t_quo(rw(a.args[0], None), a.args[1])


LIMB = [False]      # keep remainders as names (word arithmetic)


def t_low(p, k):
    """p modulo 2^k"""
    p = P_(p)
    if within(p, 0, (1 << k) - 1):
        return p
    if LIMB[0]:
        return Poly.atom(mk_atom("low", (p, k), 0, (1 << k) - 1))
    r = p - t_quo(p, 1 << k) * (1 << k)
    note_iv(r, 0, (1 << k) - 1)
    return r


def wrap(p, bits, signed):
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
    if within(p, lo, hi):
        return p
    if signed:
        h = 1 << (bits - 1)
        return t_low(p + h, bits) - h
    return t_low(p, bits)


def nonneg(p):
    lo, _ = iv(p)
    return lo is not None and lo >= 0


def support(p):
    """(a, b): all set bits of the non-negative term are at positions in [a, b)"""
    lo, hi = iv(p)
    if lo is None or lo < 0 or hi is None:
        return None
    a = None
    for c in p.t.values():
        k = (c & -c).bit_length() - 1
        a = k if a is None else min(a, k)
    return (a or 0, hi.bit_length())


def t_and(p, q):
    p, q = P_(p), P_(q)
    if p.is_const():
        p, q = q, p
    if q.is_const():
        mask = q.cval()
        if mask < 0 or not nonneg(p):
            raise Unsupported("and with negative operand")
        if p.is_const():
            return Poly.const(p.cval() & mask)
        hi = iv(p)[1]
        if hi is not None:
            mask &= (1 << hi.bit_length()) - 1
        r = ZERO
        a = 0
        while mask >> a:
            if not (mask >> a) & 1:
                a += 1
                continue
            b = a
            while (mask >> b) & 1:
                b += 1
            r = r + t_low(t_quo(p, 1 << a), b - a) * (1 << a)
            a = b
        return r
    if not (nonneg(p) and nonneg(q)):
        raise Unsupported("and of signed terms")
    if p == q:
        return p
    # 0/1 values
    if within(p, 0, 1) and within(q, 0, 1):
        return note_iv(p * q, 0, 1)
    his = [x for x in (iv(p)[1], iv(q)[1]) if x is not None]
    a, b = sorted([p, q], key=lambda t: t.key())
    return Poly.atom(mk_atom("and", (a, b), 0, min(his) if his else None))


def sign_term(p):
    a = p.single_atom()
    if a is None or p != Poly.atom(a):
        return False
    return ATOMS[a].kind == "sgn" or ATOMS[a].kind == "or" and within(p, -1, 1) and all(sign_term(x) for x in ATOMS[a].args)


def t_or(p, q):
    p, q = P_(p), P_(q)
    if p.is_const() and q.is_const():
        return Poly.const(p.cval() | q.cval())
    if p == ZERO:
        return q
    if q == ZERO:
        return p
    s, t = support(p), support(q)
    if s and t and (s[1] <= t[0] or t[1] <= s[0]):
        return p + q
    if p == q:
        return p
    if sign_term(p) and sign_term(q):
        # outcomes of comparisons: -1, 0 or 1; the result is one of those, and 0 iff both are
        lo = 0 if nonneg(p) and nonneg(q) else -1
        a, b = sorted([p, q], key=lambda t: t.key())
        return Poly.atom(mk_atom("or", (a, b), lo, 1))
    if within(p, 0, 1) and within(q, 0, 1):
        return note_iv(p + q - p * q, 0, 1)
    if q.is_const() or p.is_const():
        if p.is_const():
            p, q = q, p
        return p + q - t_and(p, q)
    if not (nonneg(p) and nonneg(q)):
        raise Unsupported("or of signed terms")
    hi = None
    if iv(p)[1] is not None and iv(q)[1] is not None:
        hi = (1 << max(iv(p)[1].bit_length(), iv(q)[1].bit_length())) - 1
    a, b = sorted([p, q], key=lambda t: t.key())
    return Poly.atom(mk_atom("or", (a, b), 0, hi))


def t_xor(p, q):
    p, q = P_(p), P_(q)
    if p.is_const() and q.is_const():
        return Poly.const(p.cval() ^ q.cval())
    if p == q:
        return ZERO
    if p == ZERO:
        return q
    if q == ZERO:
        return p
    if sign_term(p) or sign_term(q):
        raise Unsupported("exclusive or of comparison results")
    s, t = support(p), support(q)
    if s and t and (s[1] <= t[0] or t[1] <= s[0]):
        return p + q
    if within(p, 0, 1) and within(q, 0, 1):
        return note_iv(p + q - 2 * p * q, 0, 1)
    if not (nonneg(p) and nonneg(q)):
        raise Unsupported("xor of signed terms")
    if q.is_const() or p.is_const():
        if p.is_const():
            p, q = q, p
        return p + q - 2 * t_and(p, q)
    hi = None
    if iv(p)[1] is not None and iv(q)[1] is not None:
        hi = (1 << max(iv(p)[1].bit_length(), iv(q)[1].bit_length())) - 1
    a, b = sorted([p, q], key=lambda t: t.key())
    return Poly.atom(mk_atom("xor", (a, b), 0, hi))


REBUILD["and"] = lambda rw, a: t_and(rw(a.args[0], None), rw(a.args[1], None))
REBUILD["or"] = lambda rw, a: t_or(rw(a.args[0], None), rw(a.args[1], None))
REBUILD["xor"] = lambda rw, a: t_xor(rw(a.args[0], None), rw(a.args[1], None))


def all_ones(p, q):
    """p = 2^k - 1 for a conjunction of words of k bits"""
    if q.is_const() and (q.cval() + 1) & q.cval() == 0:
        a = p.single_atom()
        if a is not None and ATOMS[a].kind == "and" and p == Poly.atom(a):
            x, y = ATOMS[a].args
            if within(x, 0, q.cval()) and within(y, 0, q.cval()):
                return f_and(all_ones(x, q), all_ones(y, q))
    return f_eq(p, q)


def bit_eq(p):
    """p = 0 for terms made of bitwise atoms"""
    a = p.single_atom()
    if a is not None:
        at = ATOMS[a]
        if at.kind == "or":
            return f_and(bit_eq(at.args[0]), bit_eq(at.args[1]))
        if at.kind == "xor":
            return f_eq(at.args[0], at.args[1])
    # sums of non-negative terms: every monomial with positive coefficient
    return f_eq(p)
