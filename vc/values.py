"""Run-time values of the symbolic executor."""
from .terms import *
from .logic import *
from .bits import *


class Nil:
    def __repr__(self):
        return "nil"


NIL = Nil()


class Ptr:
    __slots__ = ("obj", "path")

    def __init__(self, obj, path=()):
        self.obj, self.path = obj, path

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj == o.obj and self.path == o.path

    def __hash__(self):
        return hash((self.obj, self.path))

    def __repr__(self):
        return "&%s%s" % (self.obj, "".join(".%s" % (p,) for p in self.path))


class Slice:
    __slots__ = ("ptr", "off", "len", "cap")

    def __init__(self, ptr, off, len, cap):
        self.ptr, self.off, self.len, self.cap = ptr, P_(off), P_(len), P_(cap)

    def __eq__(self, o):
        return isinstance(o, Slice) and (self.ptr, self.off, self.len, self.cap) == (o.ptr, o.off, o.len, o.cap)

    def __hash__(self):
        return hash((self.ptr, self.off, self.len))

    def __repr__(self):
        return "slice(%r,%r,%r)" % (self.ptr, self.off, self.len)


NILSLICE = Slice(None, 0, 0, 0)


class Iface:
    __slots__ = ("t", "v")

    def __init__(self, t, v):
        self.t, self.v = t, v

    def __eq__(self, o):
        return isinstance(o, Iface) and self.t == o.t and self.v == o.v

    def __hash__(self):
        return hash((self.t, self.v))

    def __repr__(self):
        return "iface(%s,%r)" % (self.t, self.v)


class StructV:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = tuple(f)

    def __eq__(self, o):
        return isinstance(o, StructV) and self.f == o.f

    def __hash__(self):
        return hash(self.f)

    def set(self, i, v):
        return StructV(self.f[:i] + (v,) + self.f[i + 1:])

    def __repr__(self):
        return "{" + ", ".join(map(repr, self.f)) + "}"


class ArrV:
    """Array with elements of a non-byte type. pend: pending writes at the index of a
    received message (see channels)."""
    __slots__ = ("e", "pend")

    def __init__(self, e, pend=()):
        self.e, self.pend = tuple(e), tuple(pend)

    def __eq__(self, o):
        return isinstance(o, ArrV) and self.e == o.e and self.pend == o.pend

    def __hash__(self):
        return hash(self.e)

    def set(self, i, v):
        return ArrV(self.e[:i] + (v,) + self.e[i + 1:], self.pend)

    def __repr__(self):
        return "[%d]{%s}" % (len(self.e), ", ".join(map(repr, self.e[:4])))


class HexS:
    """A string of hexadecimal digits d (terms with values from 0 to 15)."""
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = tuple(d)

    def __eq__(self, o):
        return isinstance(o, HexS) and self.d == o.d

    def __hash__(self):
        return hash(self.d)

    def __repr__(self):
        return "hex%r" % (self.d,)


class SymArr:
    """Array of symbolic length whose element i is gen(i) (read only)."""

    def __init__(self, name, n, gen):
        self.name, self.n, self.gen = name, n, gen

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)


class Opq:
    """A value about which nothing is known (strings in messages, errors)."""
    __slots__ = ("k",)

    def __init__(self, k):
        self.k = k

    def __eq__(self, o):
        return isinstance(o, Opq) and self.k == o.k

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return "?%s" % (self.k,)


class FuncV:
    __slots__ = ("n", "bind")

    def __init__(self, n, bind=()):
        self.n, self.bind = n, tuple(bind)

    def __eq__(self, o):
        return isinstance(o, FuncV) and (self.n, self.bind) == (o.n, o.bind)

    def __hash__(self):
        return hash(self.n)

    def __repr__(self):
        return "func %s" % self.n


class BigV:
    """math/big.Int: its mathematical value."""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = P_(v)

    def __eq__(self, o):
        return isinstance(o, BigV) and self.v == o.v

    def __hash__(self):
        return hash(self.v)

    def __repr__(self):
        return "big(%r)" % self.v


class BytesV:
    """Contents of a byte array: sequence of segments."""
    __slots__ = ("segs",)

    def __init__(self, segs):
        self.segs = tuple(segs)

    def __eq__(self, o):
        return isinstance(o, BytesV) and self.segs == o.segs

    def __hash__(self):
        return hash(self.segs)

    def __repr__(self):
        return "bytes%r" % (self.segs,)


class ModelV:
    """State of a library object: kind and immutable data."""
    __slots__ = ("kind", "d")

    def __init__(self, kind, d):
        self.kind, self.d = kind, d

    def __eq__(self, o):
        return isinstance(o, ModelV) and self.kind == o.kind and self.d == o.d

    def __hash__(self):
        return hash((self.kind, self.d))

    def __repr__(self):
        return "%s%r" % (self.kind, self.d)


class FV:
    """Abstract field element: value modulo P, magnitude, normalised?"""
    __slots__ = ("v", "mag", "norm", "tag")

    def __init__(self, v, mag, norm, tag=None):
        self.v, self.mag, self.norm, self.tag = P_(v).mod(T.P), mag, norm, tag

    def __eq__(self, o):
        return isinstance(o, FV) and (self.v, self.mag, self.norm, self.tag) == (o.v, o.mag, o.norm, o.tag)

    def __hash__(self):
        return hash((self.v, self.mag, self.norm))

    def __repr__(self):
        return "F(%r,%s%s)" % (self.v, self.mag, ",n" if self.norm else "")


class IteV:
    """v1 if the 0/1 term g is 1, else v2."""
    __slots__ = ("g", "a", "b")

    def __init__(self, g, a, b):
        self.g, self.a, self.b = g, a, b

    def __eq__(self, o):
        return isinstance(o, IteV) and (self.g, self.a, self.b) == (o.g, o.a, o.b)

    def __hash__(self):
        return hash((self.g, self.a, self.b))

    def __repr__(self):
        return "ite(%r,%r,%r)" % (self.g, self.a, self.b)


def ite(g, a, b):
    while isinstance(a, IteV) and (a.g == g or a.g == 1 - g):
        a = a.a if a.g == g else a.b
    while isinstance(b, IteV) and (b.g == g or b.g == 1 - g):
        b = b.b if b.g == g else b.a
    if a == b and type(a) is type(b):
        return a
    if isinstance(a, Poly) and isinstance(b, Poly):
        return g * a + (1 - g) * b
    if isinstance(a, BigV) and isinstance(b, BigV):
        return BigV(ite(g, a.v, b.v))
    if isinstance(a, StructV) and isinstance(b, StructV) and len(a.f) == len(b.f):
        return StructV(ite(g, x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, ArrV) and isinstance(b, ArrV) and len(a.e) == len(b.e) and a.pend == b.pend:
        return ArrV([ite(g, x, y) for x, y in zip(a.e, b.e)], a.pend)
    if isinstance(a, Slice) and isinstance(b, Slice) and a.ptr == b.ptr:
        return Slice(a.ptr, ite(g, a.off, b.off), ite(g, a.len, b.len), ite(g, a.cap, b.cap))
    if isinstance(a, BytesV) and isinstance(b, BytesV) and len(a.segs) == len(b.segs) and \
            all(x[0] == y[0] and (x == y or x[0] == "b") for x, y in zip(a.segs, b.segs)):
        return BytesV([x if x == y else ("b", ite(g, x[1], y[1])) for x, y in zip(a.segs, b.segs)])
    if isinstance(a, (bool, tuple)) and isinstance(b, (bool, tuple)) and (a in (True, False) or a[0] in ("eq", "le", "cong", "not", "and", "or", "pred")):
        gl = f_eq(g, ONE)
        return f_or(f_and(gl, a), f_and(f_not(gl), b))
    if isinstance(a, FV) and isinstance(b, FV) and a.tag is None and b.tag is None:
        return FV(ite(g, a.v, b.v), max(a.mag, b.mag), a.norm and b.norm)
    return IteV(g, a, b)


# ---------------------------------------------------------------- byte sequences

def vilen(p):
    """size of the variable-length encoding"""
    if within(p, 0, 0xfc):
        return ONE
    return Poly.atom(mk_atom("vilen", (p,), 1, 9))


REBUILD["vilen"] = lambda rw, a: vilen(rw(a.args[0], None))


def fits256(v):
    lo, hi = iv(v)
    return lo is not None and hi is not None and lo > -(1 << 256) and hi < 1 << 256


for _k, _n in (("intlen", 1), ("ptlen", 2)):
    REBUILD[_k] = lambda rw, a, k=_k[:-3]: seglen((k,) + tuple(rw(x, None) for x in a.args))


def t_derlen(v):
    if v.is_const():
        return Poly.const(v.cval().bit_length() // 8 + 1)
    lo, hi = iv(v)
    return Poly.atom(mk_atom("derlen", (v,), (lo or 0).bit_length() // 8 + 1, None if hi is None else hi.bit_length() // 8 + 1))


REBUILD["derlen"] = lambda rw, a: t_derlen(rw(a.args[0], None))


def seglen(s):
    k = s[0]
    if k == "b":
        return ONE
    if k == "be":
        return t_blen(s[1])
    if k == "fix":
        return Poly.const(s[2])
    if k == "raw":
        return s[3]
    if k == "z":
        return s[1]
    if k == "vi":
        return vilen(s[1])
    if k == "di":       # the shortest two's complement encoding of a non-negative integer
        return t_derlen(s[1])
    if k == "int":      # a signed integer as WriteBigInt writes it
        return Poly.atom(mk_atom("intlen", (s[1],), 2, 34)) if fits256(s[1]) else Poly.atom(mk_atom("intlen", (s[1],), 2, None))
    if k == "pt":       # a point as WriteECPoint writes it
        return Poly.atom(mk_atom("ptlen", (s[1], s[2]), 2, 66 if fits256(s[1]) and fits256(s[2]) else None))
    if k == "cut":      # the first s[1] bytes of a segment that is longer
        return s[1]
    raise Unsupported("segment " + k)


def seqlen(segs):
    r = ZERO
    for s in segs:
        r = r + seglen(s)
    return r


def norm_segs(segs):
    """Drop empty segments."""
    out = []
    for s in segs:
        if s[0] == "be" and s[1].is_const():
            c = s[1].cval()
            n = (c.bit_length() + 7) // 8
            for k in range(n):
                out.append(("b", Poly.const((c >> (8 * (n - 1 - k))) & 255)))
            continue
        if s[0] == "be" and t_blen(s[1]).is_const():
            s = ("fix", s[1], t_blen(s[1]).cval())
            if not s[2]:
                continue
        if s[0] == "fix" and s[1].is_const():
            c, n = s[1].cval(), s[2]
            for k in range(n):
                out.append(("b", Poly.const((c >> (8 * (n - 1 - k))) & 255)))
            continue
        if seglen(s) == ZERO:
            continue
        if s[0] == "raw" and out and out[-1][0] == "raw" and out[-1][1] == s[1] and out[-1][2] + out[-1][3] == s[2]:
            out[-1] = ("raw", s[1], out[-1][2], out[-1][3] + s[3])
            continue
        if s[0] == "be" and out and out[-1][0] == "z" and (out[-1][1] + t_blen(s[1])).is_const():
            out[-1] = ("fix", s[1], (out[-1][1] + t_blen(s[1])).cval())
            continue
        out.append(s)
    return tuple(out)


def same_bytes(pc, a, b):
    """The sequences are equal on every path below pc, however they are put together; False: not shown."""
    def flat(segs):
        out = []
        for s in norm_segs(segs):
            s = tuple(pc.norm(x) if isinstance(x, Poly) else x for x in s)
            if s[0] == "z" and s[1].is_const() and s[1].cval() <= 64:
                out += [("b", ZERO)] * s[1].cval()
            elif not (not seglen(s).is_const() and pc.entails(f_eq(seglen(s))) is True):
                out.append(s)
        return list(norm_segs(out))

    def eq(x, y):
        return x == y or pc.entails(f_eq(x - y)) is True
    a, b = flat(a), flat(b)
    while a and b:
        x, y = a[0], b[0]
        if x == y or x[0] == y[0] and len(x) == len(y) and all(u == v or (isinstance(u, Poly) and isinstance(v, Poly) and eq(u, v)) for u, v in zip(x[1:], y[1:])):
            a.pop(0)
            b.pop(0)
            continue
        pa, pb = [a.pop(0)], [b.pop(0)]
        while True:
            try:
                d = seqlen(pa) - seqlen(pb)
                if eq(d, ZERO):
                    break
                if b and pc.entails(f_le(ZERO, d)) is True:
                    pb.append(b.pop(0))
                elif a and pc.entails(f_le(d, ZERO)) is True:
                    pa.append(a.pop(0))
                else:
                    return False
            except Unsupported:
                return False
        try:
            if not eq(seq_val(pa), seq_val(pb)):
                return False
        except Unsupported:
            return False
    try:
        return eq(seqlen(a + b), ZERO)
    except Unsupported:
        return False


def split_seg(s, k):
    """Split segment s after k bytes (k a term strictly inside)."""
    if s[0] == "raw":
        return ("raw", s[1], s[2], k), ("raw", s[1], s[2] + k, s[3] - k)
    if s[0] == "z":
        return ("z", k), ("z", s[1] - k)
    if s[0] == "fix" and k.is_const():
        n, c = s[2], k.cval()
        lowm = 256 ** (n - c)
        hi = t_quo(s[1], lowm)
        return ("fix", hi, c), ("fix", s[1] - hi * lowm, n - c)
    raise Unsupported("split of segment %r at %r" % (s, k))


def is_zeros(s):
    return s[0] == "z" or s == ("b", ZERO)


def split_segs(segs, at, pc=None):
    """(prefix, suffix) of the sequence at position `at`."""
    acc = ZERO
    pre = []
    segs = list(segs)
    while segs:
        d = at - acc
        if d == ZERO:
            break
        s = segs[0]
        n = seglen(s)
        if d == n:
            pre.append(s)
            segs.pop(0)
            acc = at
            break
        diff = d - n
        if nonneg(diff) or (pc is not None and pc.entails(f_le(n, d)) is True):
            pre.append(s)
            segs.pop(0)
            acc = acc + n
            continue
        if pc is not None and pc.entails(f_eq(d)) is True:
            acc = at
            break
        if nonneg(-diff) or (pc is not None and pc.entails(f_le(d, n)) is True):
            a, b = split_seg(s, d)
            pre.append(a)
            segs[0] = b
            acc = at
            break
        k = 0
        while k < len(segs) and is_zeros(segs[k]):
            k += 1
        if k > 1:
            segs[:k] = [("z", seqlen(segs[:k]))]
            continue
        raise Unsupported("position %r in %r" % (at, s))
    if acc != at:
        if pc is None or pc.entails(f_eq(acc, at)) is not True:
            raise Unsupported("position %r beyond end" % (at,))
    return norm_segs(pre), norm_segs(segs)


def seq_val(segs):
    """big-endian integer value of the sequence"""
    segs = norm_segs(segs)
    v = ZERO
    first = True
    for s in segs:
        n = seglen(s)
        if s[0] == "b":
            x = s[1]
        elif s[0] in ("be", "fix", "di"):
            x = s[1]
        elif s[0] == "z":
            x = ZERO
        elif s[0] == "raw":
            hi = iv(s[3])[1]
            hi = 256 ** hi - 1 if hi is not None and (hi <= 64 or s[3].is_const()) else None
            x = Poly.atom(mk_atom("rawval", (s[1], s[2], s[3]), 0, hi))
        else:
            raise Unsupported("value of segment " + s[0])
        if first or v == ZERO:
            v = x
        elif n.is_const():
            v = v * (256 ** n.cval()) + x
        else:
            v = Poly.atom(mk_atom("beval", (segs,), 0, None))
            return v
        first = False
    if within(v, 0, 0) is False:
        n = seqlen(segs)
        if n.is_const() and not v.is_const() and v.single_atom() is None:
            note_iv(v, 0, 256 ** n.cval() - 1)
    return v


def sub_segs(rw, segs):
    out = []
    for s in segs:
        out.append(tuple(rw(x) if isinstance(x, Poly) else x for x in s))
    return norm_segs(out)


def t_hash(alg, segs, bits):
    segs = norm_segs(segs)
    ps = [x for s in segs for x in s if isinstance(x, Poly)]

    def mk(*qs):
        it = iter(qs)
        return t_hash(alg, [tuple(next(it) if isinstance(x, Poly) else x for x in s) for s in segs], bits)
    r = shannon(ps, mk)
    if r is not None:
        return r
    return Poly.atom(mk_atom(alg, (norm_segs(segs),), 0, (1 << bits) - 1))


for _alg in ("sha256", "sha512"):
    REBUILD[_alg] = lambda rw, a: t_hash(a.kind, sub_segs(lambda x: rw(x, None), a.args[0]), a.hi.bit_length())
