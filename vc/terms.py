"""Terms of the verification conditions.

Integers are polynomials over interned atoms with integer coefficients.  An atom
is a variable, or an application of an uninterpreted / partially interpreted
function to canonical arguments (reduction modulo a constant, quotients, group
coordinates, digests ...).  Two terms that are provably equal by ring reasoning
have the same representation.
"""
from functools import lru_cache

P = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141


class Unsupported(Exception):
    """The construct is outside the verifier's reach: the obligation stays undecided."""


class Atom:
    __slots__ = ("id", "kind", "args", "lo", "hi", "boolean", "info")

    def __repr__(self):
        return atom_str(self.id)


ATOMS = []
_INTERN = {}


def mk_atom(kind, args, lo=None, hi=None, boolean=False, info=None):
    key = (kind, args)
    i = _INTERN.get(key)
    if i is not None:
        return i
    a = Atom()
    a.id = len(ATOMS)
    a.kind, a.args, a.lo, a.hi, a.boolean, a.info = kind, args, lo, hi, boolean, info
    ATOMS.append(a)
    _INTERN[key] = a.id
    return a.id


_FRESH = [0]


def fresh_id():
    _FRESH[0] += 1
    return _FRESH[0]


def var(name, lo=None, hi=None, boolean=False):
    """A fresh variable."""
    return Poly.atom(mk_atom("var", (name, fresh_id()), lo, hi, boolean))


def named(name, lo=None, hi=None, boolean=False):
    """The variable of that name (same name, same variable)."""
    return Poly.atom(mk_atom("var", (name, 0), lo, hi, boolean))


def _mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    m = list(m1) + list(m2)
    m.sort()
    out = []
    for x in m:
        if out and out[-1] == x and ATOMS[x].boolean:
            continue
        out.append(x)
    return tuple(out)


class Poly:
    __slots__ = ("t", "_h", "_key", "_iv")

    def __init__(self, t):
        self.t = t
        self._h = None
        self._key = None
        self._iv = None

    @staticmethod
    def const(c):
        return Poly({(): c}) if c else ZERO

    @staticmethod
    def atom(i):
        return Poly({(i,): 1})

    def key(self):
        if self._key is None:
            self._key = tuple(sorted(self.t.items()))
        return self._key

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def __eq__(self, o):
        if isinstance(o, int):
            return self.is_const() and self.cval() == o
        return isinstance(o, Poly) and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        return self.t.get((), 0)

    def single_atom(self):
        """The atom if the term is exactly one atom, else None."""
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == 1 and len(m) == 1:
                return m[0]
        return None

    def __add__(self, o):
        o = P_(o)
        if not o.t:
            return self
        if not self.t:
            return o
        a, b = (self.t, o.t) if len(self.t) >= len(o.t) else (o.t, self.t)
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + c
            if v:
                r[m] = v
            else:
                del r[m]
        return Poly(r)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-P_(o))

    def __rsub__(self, o):
        return P_(o) - self

    def __mul__(self, o):
        o = P_(o)
        if not self.t or not o.t:
            return ZERO
        if o.is_const():
            c0 = o.cval()
            return Poly({m: c * c0 for m, c in self.t.items()})
        if self.is_const():
            return o * self
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = _mono_mul(m1, m2)
                v = r.get(m, 0) + c1 * c2
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        return Poly(r)

    __rmul__ = __mul__

    def mod(self, M):
        r = {}
        for m, c in self.t.items():
            c %= M
            if c:
                r[m] = c
        return Poly(r)

    def atoms(self):
        s = set()
        for m in self.t:
            s.update(m)
        return s

    def __repr__(self):
        return poly_str(self)


ZERO = Poly({})
ONE = Poly({(): 1})


def P_(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, int):
        return Poly.const(x)
    raise Unsupported("not an integer term: %r" % (x,))


def small(c):
    if c is None:
        return "oo"
    for nm, v in (("N", N), ("P", P)):
        if c == v:
            return nm
    if abs(c) > 1 << 64:
        if c > 0 and c & (c - 1) == 0:
            return "2^%d" % (c.bit_length() - 1)
        return hex(c)
    return str(c)


def poly_str(p, depth=0):
    if not p.t:
        return "0"
    out = []
    for m, c in sorted(p.t.items())[:12]:
        ms = "*".join(atom_str(i, depth + 1) for i in m)
        if not ms:
            out.append(small(c))
        elif c == 1:
            out.append(ms)
        else:
            out.append(small(c) + "*" + ms)
    if len(p.t) > 12:
        out.append("...(%d terms)" % len(p.t))
    return " + ".join(out)


def arg_str(a, depth):
    if depth > 6:
        return "..."
    if isinstance(a, Poly):
        return poly_str(a, depth)
    if isinstance(a, tuple):
        return "[" + ",".join(arg_str(x, depth + 1) for x in a) + "]"
    if isinstance(a, int):
        return small(a)
    return str(a)


def atom_str(i, depth=0):
    a = ATOMS[i]
    if a.kind == "var":
        return str(a.args[0]) + ("" if a.args[1] == 0 else "#%d" % a.args[1])
    return a.kind + "(" + ",".join(arg_str(x, depth + 1) for x in a.args) + ")"


# ---------------------------------------------------------------- intervals

IVTAB = {}  # poly key -> (lo, hi): bounds known for a whole term


def iv_cases(p):
    """bounds by cases on a 0/1 atom that multiplies other atoms"""
    for m in p.t:
        if len(m) > 1:
            for i in m:
                if ATOMS[i].boolean:
                    a, b = [iv(subst_atoms(p, {i: c})) for c in (ZERO, ONE)]
                    lo = None if a[0] is None or b[0] is None else min(a[0], b[0])
                    hi = None if a[1] is None or b[1] is None else max(a[1], b[1])
                    return lo, hi
    return None


def iv(p):
    """Sound bounds (lo, hi) of the term, None for unbounded."""
    if p._iv is None:
        p._iv = _iv(p)
        if SHANNON[0] and len(p.t) <= 12:
            k = iv_cases(p)
            if k:
                p._iv = meet(p._iv, k)
        k = IVTAB.get(p)
        if k:
            p._iv = meet(p._iv, k)
    return p._iv


def meet(a, b):
    lo = a[0] if b[0] is None else b[0] if a[0] is None else max(a[0], b[0])
    hi = a[1] if b[1] is None else b[1] if a[1] is None else min(a[1], b[1])
    return lo, hi


def note_iv(p, lo, hi):
    old = IVTAB.get(p, (None, None))
    IVTAB[p] = meet(old, (lo, hi))
    p._iv = None
    return p


def _mono_iv(m):
    """Bounds of a monomial, squares are non-negative."""
    lo, hi = 1, 1
    i = 0
    while i < len(m):
        j = i
        while j < len(m) and m[j] == m[i]:
            j += 1
        e = j - i
        a = ATOMS[m[i]]
        alo, ahi = a.lo, a.hi
        if alo is None or ahi is None:
            if e % 2 == 0:
                alo, ahi = 0, None
            elif alo is not None and alo >= 0:
                alo, ahi = alo ** e, None
            else:
                alo = ahi = None
        elif e > 1:
            c = [alo ** e, ahi ** e]
            l, h = min(c), max(c)
            if alo < 0 < ahi and e % 2 == 0:
                l = 0
            alo, ahi = l, h
        # multiply
        if lo is not None and hi is not None and alo is not None and ahi is not None:
            c = (lo * alo, lo * ahi, hi * alo, hi * ahi)
            lo, hi = min(c), max(c)
        elif lo is not None and lo >= 0 and alo is not None and alo >= 0:
            lo = lo * alo
            hi = None
        else:
            lo = hi = None
        i = j
    return lo, hi


def _iv(p):
    lo = hi = 0
    for m, c in p.t.items():
        if not m:
            l = h = c
        else:
            l, h = _mono_iv(m)
            if c > 0:
                l, h = (None if l is None else l * c), (None if h is None else h * c)
            else:
                l, h = (None if h is None else h * c), (None if l is None else l * c)
        lo = None if lo is None or l is None else lo + l
        hi = None if hi is None or h is None else hi + h
    return lo, hi


def within(p, lo, hi):
    a, b = iv(p)
    return a is not None and b is not None and lo <= a and b <= hi


# ---------------------------------------------------------------- case expansion on 0/1 atoms
#
# With merging on, a function of one 0/1 atom b is kept as b*f(1) + (1-b)*f(0), so that
# equal functions have equal representations.  Digests over several 0/1 atoms are names.

SHANNON = [False]
_BOOLS = {}
NAMES = set()
_SHSUB = [None]


def bools(i):
    r = _BOOLS.get(i)
    if r is None:
        a = ATOMS[i]
        if a.boolean:
            r = frozenset((i,))
        elif a.kind == "var":
            r = frozenset()
        else:
            s = set()

            def walk(x):
                if isinstance(x, Poly):
                    for j in x.atoms():
                        s.update(bools(j))
                elif isinstance(x, tuple):
                    for y in x:
                        walk(y)
            walk(a.args)
            if len(s) > 1 and a.kind.startswith("sha"):
                NAMES.add(i)
                s = set()
            r = frozenset(s)
        _BOOLS[i] = r
    return r


def bools_of(*ps):
    s = set()
    for p in ps:
        for i in p.atoms():
            s |= bools(i)
    return s


def shannon(ps, mk):
    """mk(*ps), expanded on the only 0/1 atom in ps; None if there is not exactly one"""
    if not SHANNON[0]:
        return None
    s = bools_of(*ps)
    if len(s) != 1:
        return None
    b, = s
    v = [mk(*[_SHSUB[0](p, b, c) for p in ps]) for c in (ZERO, ONE)]
    if v[0] == v[1]:
        return v[0]
    B = Poly.atom(b)
    return (ONE - B) * v[0] + B * v[1]


# ---------------------------------------------------------------- modular terms

def expand_mod(p, M):
    """Replace atoms that are congruent modulo M to simpler terms, coefficients modulo M."""
    todo = [i for i in p.atoms() if ATOMS[i].kind == "mod" and ATOMS[i].args[1] % M == 0]
    while todo:
        sub = {i: ATOMS[i].args[0] for i in todo}
        p = subst_atoms(p, sub).mod(M)
        todo = [i for i in p.atoms() if ATOMS[i].kind == "mod" and ATOMS[i].args[1] % M == 0]
    p = p.mod(M)
    return reduce_inv(p, M)


def _divide(m, d):
    """monomial m without the factors of d, None if d does not divide m"""
    m = list(m)
    for x in d:
        if x not in m:
            return None
        m.remove(x)
    return tuple(m)


def reduce_inv(p, M):
    """q * inv(q) = 1: rewrites inv(q) times the leading monomial of q."""
    invs = [i for i in p.atoms() if ATOMS[i].kind == "inv" and ATOMS[i].args[1] == M]
    for i in invs:
        q = ATOMS[i].args[0]
        lm = max(q.t, key=lambda m: (len(m), m))
        if not lm:
            continue
        c0 = pow(q.t[lm], -1, M)
        # lm * inv = c0 * (1 - rest * inv)
        rest = Poly({m: c for m, c in q.t.items() if m != lm})
        rep = (Poly.const(c0) - rest * Poly.atom(i) * c0).mod(M)
        full = tuple(sorted(lm + (i,)))
        for _ in range(200):
            hit = None
            for m in p.t:
                d = _divide(m, full) if i in m else None
                if d is not None:
                    hit = (m, d)
                    break
            if hit is None:
                break
            c = p.t[hit[0]]
            p = (Poly({m: k for m, k in p.t.items() if m != hit[0]}) + rep * Poly({hit[1]: c})).mod(M)
    return p


def subst_atoms(p, sub):
    """Substitute terms for atoms (top level only)."""
    if not any(i in sub for i in p.atoms()):
        return p
    r = ZERO
    plain = {}
    pw = {}
    for m, c in p.t.items():
        if any(i in sub for i in m):
            q = Poly({tuple(i for i in m if i not in sub): c})
            for i in m:
                if i in sub:
                    q = q * sub[i]
            r = r + q
        else:
            plain[m] = c
    return r + Poly(plain)


def t_mod(p, M):
    """p modulo a positive constant (Euclidean)."""
    p = P_(p)
    if p.is_const():
        return Poly.const(p.cval() % M)
    if within(p, 0, M - 1):
        return p
    q = expand_mod(p, M)
    if q.is_const():
        return q
    a = q.single_atom()
    if a is not None and within(q, 0, M - 1):
        return q
    r = shannon((q,), lambda x: t_mod(x, M))
    if r is not None:
        return r
    return Poly.atom(mk_atom("mod", (q, M), 0, M - 1))


def t_inv(p, M):
    q = expand_mod(P_(p), M)
    if q.is_const():
        return Poly.const(pow(q.cval(), -1, M))
    r = shannon((q,), lambda x: t_inv(x, M))
    if r is not None:
        return r
    # the inverse of an inverse, and signs
    a = q.single_atom()
    if a is not None and ATOMS[a].kind == "inv":
        return t_mod(ATOMS[a].args[0], M)
    return Poly.atom(mk_atom("inv", (q, M), 1, M - 1))


def toN(p):
    return expand_mod(P_(p), N)


def canon_sign(e):
    """(e', s) with e = s*e' modulo N and e' the representative of {e, -e}."""
    e = toN(e)
    if not e.t:
        return e, 1
    m = min(e.t)
    if e.t[m] > N // 2:
        return (-e).mod(N), -1
    return e, 1


def xc(e):
    """x coordinate of e*G; 0 for the identity."""
    e, _ = canon_sign(e)
    if not e.t:
        return ZERO
    r = shannon((e,), xc)
    if r is not None:
        return r
    return Poly.atom(mk_atom("xc", (e,), 0, P - 1))


def yc(e):
    e, s = canon_sign(e)
    if not e.t:
        return ZERO
    r = shannon((e if s == 1 else toN(-e),), yc)
    if r is not None:
        return r
    y = Poly.atom(mk_atom("yc", (e,), 0, P - 1))
    return y if s == 1 else t_mod(-y, P)


def point_of(x, y):
    """The exponent e with (x, y) = e*G, if the terms show one."""
    if x.is_const() and y.is_const() and x.cval() == 0 and y.cval() == 0:
        return ZERO
    a = x.single_atom()
    if a is None or ATOMS[a].kind != "xc":
        return None
    e = ATOMS[a].args[0]
    if y == yc(e):
        return e
    if y == yc(-e):
        return toN(-e)
    return None
