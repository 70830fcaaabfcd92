"""Formulas, path conditions and their decision procedures.

Literals:  ("eq", p)       p = 0 over the integers
           ("le", p)       p <= 0
           ("cong", p, M)  p = 0 modulo M
           ("pred", name, args)
Formulas:  True, False, literals, ("not", f), ("and", f...), ("or", f...)
"""
from math import gcd
import z3
from .terms import *
from . import terms as T

STATS = {"z3_calls": 0, "z3_time": 0.0, "ring": 0, "interval": 0}


def f_not(f):
    if f is True:
        return False
    if f is False:
        return True
    if f[0] == "not":
        return f[1]
    if f[0] == "le":
        return f_le(-f[1] + 1)
    if f[0] == "and":
        return f_or(*[f_not(x) for x in f[1:]])
    if f[0] == "or":
        return f_and(*[f_not(x) for x in f[1:]])
    return ("not", f)


def f_and(*fs):
    out = []
    for f in fs:
        if f is False:
            return False
        if f is True:
            continue
        if f[0] == "and":
            out += [x for x in f[1:] if x not in out]
        elif f not in out:
            out.append(f)
    if not out:
        return True
    return out[0] if len(out) == 1 else ("and",) + tuple(out)


def f_or(*fs):
    out = []
    for f in fs:
        if f is True:
            return True
        if f is False:
            continue
        if f[0] == "or":
            out += [x for x in f[1:] if x not in out]
        elif f not in out:
            out.append(f)
    if not out:
        return False
    return out[0] if len(out) == 1 else ("or",) + tuple(out)


def f_pred(name, *args):
    return ("pred", name, tuple(args))


def f_ite(c, a, b):
    return f_or(f_and(c, a), f_and(f_not(c), b))


def _sgn_split(p):
    """p = c*sgn(q) + d -> (c, q, d)"""
    if len(p.t) > 2:
        return None
    c = d = 0
    q = None
    for m, k in p.t.items():
        if not m:
            d = k
        elif len(m) == 1 and ATOMS[m[0]].kind == "sgn":
            c, q = k, ATOMS[m[0]].args[0]
        else:
            return None
    return None if q is None else (c, q, d)


def _bitlen_split(p):
    """p = c*bitlen(x) + d, c = 1 or -1 -> (c, x, d); bitlen is taken of non-negative terms only"""
    if len(p.t) > 2 or not p.t:
        return None
    m = max(p.t)
    if len(m) != 1 or abs(p.t[m]) != 1 or ATOMS[m[0]].kind != "bitlen" or (len(p.t) == 2 and () not in p.t):
        return None
    d = p.cval()
    return None if abs(d) > 1 << 16 else (p.t[m], ATOMS[m[0]].args[0], d)


def t_sgn(p):
    p = P_(p)
    lo, hi = iv(p)
    if p.is_const():
        c = p.cval()
        return Poly.const((c > 0) - (c < 0))
    if lo is not None and lo > 0:
        return ONE
    if hi is not None and hi < 0:
        return -ONE
    l = 0 if lo is not None and lo >= 0 else -1
    h = 0 if hi is not None and hi <= 0 else 1
    return Poly.atom(mk_atom("sgn", (p,), l, h))


def f_eq(p, q=None):
    p = P_(p)
    if q is not None:
        p = p - P_(q)
    if p.is_const():
        return p.cval() == 0
    lo, hi = iv(p)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return False
    s = _sgn_split(p)
    if s:
        c, x, d = s
        if d % c:
            return False
        v = -d // c
        if v == 0:
            return f_eq(x)
        if v == 1:
            return f_lt(ZERO, x)
        if v == -1:
            return f_lt(x, ZERO)
        return False
    s = _bitlen_split(p)
    if s:
        k = -s[2] * s[0]
        return f_eq(s[1]) if k == 0 else False if k < 0 else f_and(f_le(P_(1 << (k - 1)), s[1]), f_lt(s[1], P_(1 << k)))
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if len(m) == 1:
            at = ATOMS[m[0]]
            if at.kind == "or":
                return f_and(f_eq(at.args[0]), f_eq(at.args[1]))
            if at.kind == "xor":
                return f_eq(at.args[0], at.args[1])
        elif len(m) > 1:
            return f_or(*[f_eq(Poly.atom(i)) for i in sorted(set(m))])
    # common content
    g = 0
    for m, c in p.t.items():
        if m:
            g = gcd(g, c)
    if g > 1:
        if p.cval() % g:
            return False
        p = Poly({m: c // g for m, c in p.t.items()})
    if p.t[max(p.t)] < 0:
        p = -p
    g = _group_eq(p)
    if g is not None:
        return g
    for m, c in p.t.items():
        if len(m) == 1 and abs(c) == 1 and ATOMS[m[0]].kind == "mod":
            a, M = ATOMS[m[0]].args
            q = Poly({k: -v * c for k, v in p.t.items() if k != m})
            if M in (N, T.P) and within(q, 0, M - 1):
                i = q.single_atom()
                if i is not None and ATOMS[i].kind == "var":
                    continue
                return f_cong(a - q, M)
    # 0/1 atom: b = 0 or b = 1
    if len(p.t) == 2 and () in p.t:
        m = max(p.t)
        if len(m) == 1 and ATOMS[m[0]].boolean and p.t[m] == 1 and p.t[()] == -1:
            return ("not", ("eq", Poly.atom(m[0])))
    return ("eq", p)


def _coord(p):
    """(kind, e, c) if the term is c*coordinate of a symbolic point or a negated y"""
    if len(p.t) != 1:
        return None
    (m, c), = p.t.items()
    if len(m) != 1:
        return None
    a = ATOMS[m[0]]
    if a.kind in ("xc", "yc"):
        return a.kind, a.args[0], c
    if a.kind == "mod" and a.args[1] == P:
        q = a.args[0]
        i = (-q).mod(P).single_atom()
        if i is not None and ATOMS[i].kind == "yc":
            return "yc", toN(-ATOMS[i].args[0]), c
    return None


def _group_eq(p):
    """Coordinates of group elements: facts about a prime-order group without
    points with x = 0 or y = 0."""
    if len(p.t) == 1:
        k = _coord(p)
        if k:
            return f_cong(k[1])
    if len(p.t) == 2:
        ks = [_coord(Poly({m: c})) for m, c in p.t.items()]
        if all(ks) and ks[0][0] == ks[1][0] and ks[0][2] == -ks[1][2]:
            a, b = ks[0][1], ks[1][1]
            if ks[0][0] == "xc":
                return f_or(f_cong(a - b), f_cong(a + b))
            if toN(a - b) == ZERO:
                return True
            if toN(a + b) == ZERO:
                return f_cong(a)
    return None


def _without(m, x):
    m = list(m)
    m.remove(x)
    return m


def f_cong(p, M=N):
    p = expand_mod(P_(p), M)
    if not p.t:
        return True
    if p.is_const():
        return p.cval() % M == 0
    if M in (N, T.P):
        com = set.intersection(*[set(m) for m in p.t])
        for x in com:
            # an inverse is a unit
            if ATOMS[x].kind == "inv" and ATOMS[x].args[1] == M:
                return f_cong(Poly({tuple(sorted(_without(m, x))): c for m, c in p.t.items()}), M)
        c = p.t[max(p.t)]
        if c != 1:
            i = pow(c, -1, M)
            p = Poly({m: k * i % M for m, k in p.t.items()})
        # monomial: product of atoms is zero iff one of them is
        if len(p.t) == 1:
            (m, c), = p.t.items()
            ats = sorted(set(m))
            if len(ats) > 1:
                return f_or(*[f_cong(Poly.atom(i), M) for i in ats])
            p = Poly.atom(ats[0])
            a = ATOMS[ats[0]]
            if a.kind == "inv" and a.args[1] == M:
                return False
            if a.kind == "var" and within(p, 1, M - 1):
                return False
        elif M == T.P and len(p.t) == 2 and () in p.t and len(max(p.t)) == 2 and len(set(max(p.t))) == 1 and \
                pow(-p.t[()], (M - 1) // 2, M) == M - 1:
            return False        # the constant is not a square
        elif M == T.P:
            # common factors
            com = None
            for m in p.t:
                com = list(m) if com is None else [x for x in set(com) & set(m)]
                if not com:
                    break
            if com:
                x = com[0]
                q = {}
                for m, c in p.t.items():
                    l = list(m)
                    l.remove(x)
                    q[tuple(l)] = c
                return f_or(f_cong(Poly.atom(x), M), f_cong(Poly(q), M))
    return ("cong", p, M)


def f_le(p, q=None):
    """p <= q (or p <= 0)"""
    p = P_(p)
    if q is not None:
        p = p - P_(q)
    if p.is_const():
        return p.cval() <= 0
    lo, hi = iv(p)
    if hi is not None and hi <= 0:
        return True
    if lo is not None and lo > 0:
        return False
    s = _sgn_split(p)
    if s:
        c, x, d = s
        # c*s + d <= 0 for s in -1, 0, 1
        ok = [v for v in (-1, 0, 1) if c * v + d <= 0]
        if len(ok) == 3:
            return True
        if not ok:
            return False
        t = tuple(ok)
        return {(-1,): f_lt(x, ZERO), (-1, 0): f_le(x, ZERO), (0, 1): f_le(ZERO, x),
                (1,): f_lt(ZERO, x)}[t]
    g = 0
    for m, c in p.t.items():
        if m:
            g = gcd(g, c)
    if g > 1:
        c0 = p.cval()
        p = Poly({m: c // g for m, c in p.t.items() if m}) + (-((-c0) // g))
        # ceil(c0/g): g*r + c0 <= 0 <=> r <= floor(-c0/g) <=> r - floor(-c0/g) <= 0
    s = _bitlen_split(p)
    if s:
        c, x, d = s
        if c > 0:       # at most -d bits
            return f_lt(x, P_(1 << -d)) if d <= 0 else False
        return f_le(P_(1 << (d - 1)), x) if d > 0 else True
    if len(p.t) <= 2 and max(len(m) for m in p.t) == 1:
        m = max(p.t)
        if ATOMS[m[0]].boolean:
            k, d = p.t[m], p.cval()
            vals = [v for v in (0, 1) if k * v + d <= 0]
            if len(vals) == 2:
                return True
            if not vals:
                return False
            return f_eq(Poly.atom(m[0]), vals[0])
        # zero test of a bounded-below term: x <= 0 with x >= 0
    lo, hi = iv(p)
    if lo == 0:
        return f_eq(p)
    return ("le", p)


def f_lt(p, q):
    return f_le(P_(p) + 1, q)


# ------------------------------------------------------------ rewriting of terms

REBUILD = {}


def rebuild(kind):
    def deco(fn):
        REBUILD[kind] = fn
        return fn
    return deco


REBUILD["mod"] = lambda rw, a: t_mod(rw(a.args[0], a.args[1]), a.args[1])
REBUILD["inv"] = lambda rw, a: t_inv(rw(a.args[0], a.args[1]), a.args[1])
REBUILD["xc"] = lambda rw, a: xc(rw(a.args[0], N))
REBUILD["yc"] = lambda rw, a: yc(rw(a.args[0], N))
REBUILD["sgn"] = lambda rw, a: t_sgn(rw(a.args[0], None))


class Subst:
    """Simultaneous substitution; z: exact, n: {modulus: {atom: term}}."""

    def __init__(self, z=None, n=None):
        self.z = dict(z or {})
        self.n = {k: dict(v) for k, v in (n or {}).items()}
        self.memo = {}

    def empty(self):
        return not self.z and not any(self.n.values())

    def atom(self, i, M):
        k = (i, M)
        r = self.memo.get(k)
        if r is None:
            r = self._atom(i, M)
            self.memo[k] = r
        return r

    def _atom(self, i, M):
        if i in self.z:
            return self.z[i]
        if M is not None and M in self.n and i in self.n[M]:
            return self.n[M][i]
        a = ATOMS[i]
        if a.kind == "var":
            return None
        if T.SHANNON[0] and not T.bools(i) and i in T.NAMES:
            return None
        fn = REBUILD.get(a.kind)
        if fn is None:
            return self.generic(a, i)
        q = fn(self.term, a)
        if q == Poly.atom(i):
            return None
        return q

    def generic(self, a, i):
        args = tuple(self.arg(x) for x in a.args)
        if args == a.args:
            return None
        return Poly.atom(mk_atom(a.kind, args, a.lo, a.hi, a.boolean, a.info))

    def arg(self, x):
        if isinstance(x, Poly):
            return self.term(x, None)
        if isinstance(x, tuple):
            return tuple(self.arg(y) for y in x)
        return x

    def term(self, p, M=None):
        if self.empty():
            return p
        sub = {}
        for i in p.atoms():
            r = self.atom(i, M)
            if r is not None:
                sub[i] = r
        if not sub:
            return p
        q = subst_atoms(p, sub)
        return expand_mod(q, M) if M is not None else q

    def lit(self, f):
        if f is True or f is False:
            return f
        k = f[0]
        if k == "eq":
            return f_eq(self.term(f[1]))
        if k == "le":
            return f_le(self.term(f[1]))
        if k == "cong":
            # atoms reduced modulo M are expanded, exact and modular substitution apply
            return f_cong(self.term(expand_mod(f[1], f[2]), f[2]), f[2])
        if k == "not":
            return f_not(self.lit(f[1]))
        if k == "and":
            return f_and(*[self.lit(x) for x in f[1:]])
        if k == "or":
            return f_or(*[self.lit(x) for x in f[1:]])
        if k == "pred":
            return ("pred", f[1], self.arg(f[2]))
        raise Unsupported("literal %r" % (f,))


class _ShSubst(Subst):
    """b := c, not inside names"""

    def __init__(self, b, c):
        Subst.__init__(self, {b: c})
        self.b = b

    def _atom(self, i, M):
        if i == self.b:
            return self.z[i]
        if self.b not in bools(i):
            return None
        return Subst._atom(self, i, M)


_SHS = {}


def _shsub(p, b, c):
    k = (b, c.cval())
    s = _SHS.get(k)
    if s is None:
        s = _SHS[k] = _ShSubst(b, c)
    return s.term(p)


T._SHSUB[0] = _shsub


@lru_cache(maxsize=None)
def deep_atoms(i):
    s = {i}
    a = ATOMS[i]

    def walk(x):
        if isinstance(x, Poly):
            for j in x.atoms():
                s.update(deep_atoms(j))
        elif isinstance(x, tuple):
            for y in x:
                walk(y)
    if a.kind != "var":
        walk(a.args)
    return frozenset(s)


@lru_cache(maxsize=200000)
def lit_atoms(f):
    s = set()
    for x in f[1:]:
        if isinstance(x, Poly):
            s |= deep_atoms_poly(x)
        elif isinstance(x, tuple) and x and isinstance(x[0], str):
            s |= lit_atoms(x)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, Poly):
                    s |= deep_atoms_poly(y)
                elif isinstance(y, tuple):
                    s |= lit_atoms(("t",) + y)
    return frozenset(s)


def deep_atoms_poly(p):
    s = set()
    for i in p.atoms():
        s |= deep_atoms(i)
    return s


class PC:
    """Path condition with its solved equations."""

    def __init__(self):
        self.lits = []       # as added
        self.cur = []        # rewritten
        self.sub = Subst()
        self.dead = False
        self.prio = ()

    def clone(self):
        c = PC.__new__(PC)
        c.lits = list(self.lits)
        c.cur = list(self.cur)
        c.sub = self.sub
        c.dead = self.dead
        c.prio = self.prio
        return c

    def add(self, f):
        """Assume f. Returns False if the path became infeasible (syntactically)."""
        if self.dead:
            return False
        self.lits.append(f)
        self._add(self.sub.lit(f))
        return not self.dead

    def _add(self, f):
        if f is True:
            return
        if f is False:
            self.dead = True
            return
        if f[0] == "and":
            for x in f[1:]:
                self._add(self.sub.lit(x))
                if self.dead:
                    return
            return
        if f in self.cur:
            return
        if f_not(f) in self.cur:
            self.dead = True
            return
        if f[0] == "eq" and self._solve_eq(f[1]):
            return
        if f[0] == "not" and f[1][0] == "eq":
            i = f[1][1].single_atom()
            if i is not None and ATOMS[i].kind == "var" and ATOMS[i].boolean:
                self._install(z={i: ONE})
                return
        if f[0] == "cong" and self._solve_cong(f[1], f[2]):
            return
        if f[0] == "or":
            # unit propagation
            rest = [x for x in f[1:] if self.quick(x) is not False]
            if len(rest) < len(f) - 1:
                return self._add(f_or(*rest))
        self.cur.append(f)

    def _install(self, z=None, n=None, M=None):
        s = Subst(self.sub.z, self.sub.n)
        new = Subst(z, {M: n} if n else None)
        for k in s.z:
            s.z[k] = new.term(s.z[k])
        for m in s.n:
            for k in s.n[m]:
                s.n[m][k] = new.term(s.n[m][k], m)
        if z:
            s.z.update(z)
        if n:
            s.n.setdefault(M, {}).update(n)
        self.sub = s
        old, self.cur = self.cur, []
        ch = set(z or ()) | set(n or ())
        keep = [f for f in old if not (lit_atoms(f) & ch)]
        if len(keep) < len(old):
            old = [f for f in old if lit_atoms(f) & ch]
            self.cur = keep
        else:
            self.cur, old = old, []
        for f in old:
            self._add(s.lit(f))
            if self.dead:
                return

    def _solve_eq(self, p):
        best = None
        for m, c in p.t.items():
            if len(m) == 1 and abs(c) == 1:
                i = m[0]
                a = ATOMS[i]
                if a.kind not in ("var",):
                    continue
                rest = Poly({k: v for k, v in p.t.items() if k != m})
                if i in deep_atoms_poly(rest):
                    continue
                rhs = rest if c == -1 else -rest
                pr = (0 if rhs.is_const() else 1, i * -1)
                if best is None or pr < best[0]:
                    best = (pr, i, rhs)
        if best is None:
            return False
        _, i, rhs = best
        # bounds of the eliminated variable survive as literals
        a = ATOMS[i]
        keep = []
        lo, hi = iv(rhs)
        if a.lo is not None and (lo is None or lo < a.lo):
            keep.append(f_le(P_(a.lo), rhs))
        if a.hi is not None and (hi is None or hi > a.hi):
            keep.append(f_le(rhs, P_(a.hi)))
        if a.boolean and not rhs.is_const():
            return False
        self._install(z={i: rhs})
        for f in keep:
            self._add(self.sub.lit(f))
        return True

    def _solve_cong(self, p, M):
        if M not in (N, T.P):
            return False
        best = None
        for m, c in p.t.items():
            if len(m) == 1:
                i = m[0]
                if ATOMS[i].kind != "var" or ATOMS[i].boolean:
                    continue
                rest = Poly({k: v for k, v in p.t.items() if k != m})
                if i in deep_atoms_poly(rest):
                    continue
                nm = str(ATOMS[i].args[0])
                pr = (0 if nm.startswith("e_") else 1, -i)
                if best is None or pr < best[0]:
                    best = (pr, i, (rest * (-pow(c, -1, M))).mod(M))
        if best is None:
            return False
        self._install(n={best[1]: best[2]}, M=M)
        # a variable that is also used as an integer keeps its congruence
        self.cur.append(("cong", p, M)) if False else None
        return True

    # ---------------------------------------------------------------- queries
    def norm(self, p, M=None):
        if M is not None:
            p = expand_mod(P_(p), M)
        return self.sub.term(P_(p), M)

    def quick(self, f):
        """True / False / None without a solver."""
        f = self.sub.lit(f)
        return self._quick(f)

    def _quick(self, f):
        if f is True or f is False:
            return f
        if f[0] == "and":
            r = [self._quick(x) for x in f[1:]]
            if all(x is True for x in r):
                return True
            if any(x is False for x in r):
                return False
            return None
        if f[0] == "or":
            r = [self._quick(x) for x in f[1:]]
            if any(x is True for x in r):
                return True
            if all(x is False for x in r):
                return False
            if f in self.cur:
                return True
            return None
        if f in self.cur:
            return True
        if f_not(f) in self.cur:
            return False
        return None

    def entails(self, f, solver=True):
        """True: f follows. False: f is refuted. None: neither is known."""
        if self.dead:
            return True
        q = self.quick(f)
        if q is not None or not solver:
            return q
        f = self.sub.lit(f)
        # splitting on disjunctions of congruences in the path
        if not arithmetic(f) and not any(arithmetic(x) for x in self.cur):
            return self._split(f)
        r = self.smt(f_not(f))
        if r == "unsat":
            return True
        r2 = self.smt(f)
        if r2 == "unsat":
            return False
        if T.SHANNON[0]:
            return None
        return self._split(f)

    def _split(self, f, depth=0):
        """Case split on disjunctions in the path (and on the goal's)."""
        if depth > 4:
            return None
        for d in self.cur:
            if d[0] == "or":
                res = []
                for x in d[1:]:
                    c = self.clone()
                    c.cur.remove(d)
                    c._add(x)
                    if c.dead:
                        continue
                    q = c.quick(f)
                    res.append(q if q is not None else c._split(f, depth + 1))
                if res and all(r is True for r in res):
                    return True
                if res and all(r is False for r in res):
                    return False
                return None
        if f[0] == "or":
            # a or b: assume not a, show b
            for k in range(1, len(f)):
                c = self.clone()
                others = f_or(*[x for j, x in enumerate(f) if j > 0 and j != k])
                c._add(c.sub.lit(f_not(f[k])))
                if c.dead:
                    return True
                q = c.quick(others)
                if q is True:
                    return True
        return None

    def refuted(self, depth=0):
        """The path condition is shown to be unsatisfiable."""
        if self.dead:
            return True
        if depth == 0 and not self.feasible():
            return True
        if depth > 6:
            return False
        for d in self.cur:
            if d[0] == "or":
                for x in d[1:]:
                    c = self.clone()
                    c.cur.remove(d)
                    c._add(c.sub.lit(x))
                    if not c.refuted(depth + 1):
                        return False
                return True
        return depth > 0 and not self.feasible()

    def feasible(self):
        if self.dead:
            return False
        if any(arithmetic(x) for x in self.cur):
            if self.smt(True) == "unsat":
                return False
        return True

    def smt(self, f, model=False, timeout=4000):
        import time
        t0 = time.time()
        enc = Z3Enc()
        s = z3.SolverFor("QF_LIA")
        s.set("timeout", timeout)
        for x in self.cur:
            s.add(enc.f(x))
        if f is not True:
            s.add(enc.f(f))
        for x in enc.side:
            s.add(x)
        r = s.check()
        STATS["z3_calls"] += 1
        STATS["z3_time"] += time.time() - t0
        if model and r == z3.sat:
            return "sat", enc.read(s.model())
        return str(r)


def arithmetic(f):
    if f is True or f is False:
        return False
    if f[0] in ("eq", "le"):
        return True
    if f[0] in ("not",):
        return arithmetic(f[1])
    if f[0] in ("and", "or"):
        return any(arithmetic(x) for x in f[1:])
    return False


class Z3Enc:
    """Linear encoding: non-linear monomials are abstracted by bounded variables."""

    def __init__(self):
        self.vars = {}
        self.side = []
        self.preds = {}

    def mono(self, m):
        v = self.vars.get(m)
        if v is None:
            v = z3.Int("m" + "_".join(map(str, m)))
            self.vars[m] = v
            lo, hi = T._mono_iv(m)
            if lo is not None:
                self.side.append(v >= lo)
            if hi is not None:
                self.side.append(v <= hi)
            if len(m) == 1:
                a = ATOMS[m[0]]
                if a.kind == "mod":
                    q = z3.Int("q%d" % m[0])
                    self.side.append(v == self.p(a.args[0]) - q * a.args[1])
                elif a.kind == "quo":
                    x = self.p(a.args[0])
                    self.side.append(v * a.args[1] <= x)
                    self.side.append(x < v * a.args[1] + a.args[1])
                elif a.kind == "low":
                    from .bits import t_quo
                    self.side.append(v == self.p(a.args[0]) - self.p(t_quo(a.args[0], 1 << a.args[1])) * (1 << a.args[1]))
                elif a.kind == "blen":
                    x = a.args[0]
                    lo, hi = iv(x)
                    e = self.p(x)
                    pos = z3.BoolVal(True) if lo is not None and lo >= 0 else e >= 0
                    for k, c in ((0, 1), (1, 256), (31, 256 ** 31), (32, 256 ** 32)):
                        self.side.append(z3.Implies(pos, (v <= k) == (e < c)))
                elif a.kind == "sgn":
                    e = self.p(a.args[0])
                    self.side.append(v == z3.If(e > 0, 1, z3.If(e < 0, -1, 0)))
            elif all(ATOMS[i].boolean for i in m):
                for i in m:
                    self.side.append(v <= self.mono((i,)))
                self.side.append(v >= z3.Sum([self.mono((i,)) for i in m]) - (len(m) - 1))
        return v

    def p(self, p):
        ts = [self.mono(m) * c if m else z3.IntVal(c) for m, c in p.t.items()]
        if not ts:
            return z3.IntVal(0)
        e = ts[0] if len(ts) == 1 else z3.Sum(ts)
        k = T.IVTAB.get(p)
        if k and not p.is_const():
            if k[0] is not None:
                self.side.append(e >= k[0])
            if k[1] is not None:
                self.side.append(e <= k[1])
        return e

    def f(self, f):
        if f is True or f is False:
            return z3.BoolVal(f)
        k = f[0]
        if k == "eq":
            return self.p(f[1]) == 0
        if k == "le":
            return self.p(f[1]) <= 0
        if k == "cong":
            b = self.preds.get(f)
            if b is None:
                b = z3.Bool("c%d" % len(self.preds))
                self.preds[f] = b
                self.side.append(z3.Implies(b, self.p(f[1]) == f[2] * z3.Int("k%d" % len(self.preds))))
                if within(f[1], -f[2] + 1, f[2] - 1):
                    self.side.append(z3.Implies(self.p(f[1]) == 0, b))
            return b
        if k == "not":
            return z3.Not(self.f(f[1]))
        if k == "and":
            return z3.And(*[self.f(x) for x in f[1:]])
        if k == "or":
            return z3.Or(*[self.f(x) for x in f[1:]])
        if k == "pred":
            b = self.preds.get(f)
            if b is None:
                b = z3.Bool("p%d" % len(self.preds))
                self.preds[f] = b
            return b
        raise Unsupported("smt %r" % (f,))

    def read(self, m):
        out = {}
        for mono, v in self.vars.items():
            x = m.eval(v)
            if len(mono) == 1 and z3.is_int_value(x):
                out[mono[0]] = x.as_long()
        return out
