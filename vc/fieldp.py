"""Contracts of the field arithmetic on its ten words (C04)."""
from .proto import *
from . import bits as _bits

FT = BT + ".fieldVal"
FM = "(*%s)." % FT
MAX = 30                       # largest magnitude a value may have
MULMAX = 16                    # largest magnitude of a factor (8 is documented)
B = [(1 << 26) - 1] * 9 + [(1 << 22) - 1]
B[2] = (1 << 26) + (1 << 21)   # the product leaves a carry in word 2


def limbs(name, m):
    return [var("%s%d" % (name, i), 0, m * B[i]) for i in range(10)]


def nlimbs(name):
    return [var("%s%d" % (name, i), 0, (1 << (22 if i == 9 else 26)) - 1) for i in range(10)]


def value(ls):
    v = ZERO
    for i, l in enumerate(ls):
        v = v + l * (1 << (26 * i))
    return v


def put(st, ls, meta="input"):
    return st.new(StructV([ArrV(ls)]), meta)


def words(st, p):
    v = st.heap[p.obj]
    return list(v.f[0].e)


class Limb:
    def __enter__(self):
        self.old = _bits.LIMB[0]
        _bits.LIMB[0] = True

    def __exit__(self, *a):
        _bits.LIMB[0] = self.old


def residual(st, diff):
    """diff modulo P with the remainders written out"""
    r = _bits.expand_low(diff).mod(T.P)
    return Poly({m: (c if c <= T.P // 2 else c - T.P) for m, c in r.t.items()})


def cong(p, name, st, diff):
    r = residual(st, st.pc.norm(diff))
    if not r.t:
        return p.add(name, True)
    z = 0
    ok = st.pc.entails(f_eq(r))
    return p.add(name, ok is True, "the difference is %s modulo the field prime on the path %s" % (str(r)[:300], show_pc(st.pc)[:500]), "z3")


def bounded(p, name, st, ls, bs):
    for i, (l, b) in enumerate(zip(ls, bs)):
        if within(l, 0, b):
            p.add(name, True)
            continue
        ok = st.pc.entails(f_and(f_le(ZERO, l), f_le(l, P_(b))))
        p.add(name, ok is True, "word %d has bounds %s, the limit is %d" % (i, iv(l), b), "z3")


def go(p, fn, mk, name="", maxst=200):
    """run with the word semantics; mk(st) gives (args, watched objects)"""
    with Limb():
        nw = []
        ex = p.executor({}, nowrap=nw, max_states=maxst)
        st = State()
        args, watch = mk(st)
        before = {o.obj: st.heap[o.obj] for o in watch}
        fs = [f for f in run(ex, st, FM + fn, args) if f.pc.feasible()]
        out = []
        for f in fs:
            if f.out[0] == "panic":
                p.add(name + "does not panic", False, f.out[1])
                continue
            out.append(f)
            for o in watch:
                p.add(name + "modifies only the receiver", f.heap[o.obj] == before[o.obj], "%s is changed" % o.obj)
        own = [x.obj for x in args[:2 if fn == "PutBytes" else 1] if isinstance(x, Ptr)]
        bad = [w for f in fs for w in f.writes if w[0] not in own]
        p.add(name + "modifies nothing but the receiver", not bad, "writes to %s" % [(w[2], w[3]) for w in bad[:4]])
        p.add(name + "vacuity: the function returns", bool(out), "no path")
        p.add(name + "no intermediate word wraps around", not nw, "; ".join("%d-bit: bounds %s: %s" % x for x in nw[:3]))
        return ex, out


def result(p, name, f, recv):
    p.add(name + "ensures the receiver is returned", f.out[1] == recv, "returns %r" % (f.out[1],))
    return words(f, recv)


NONE = [var("old%d" % i, 0, (1 << 32) - 1) for i in range(10)]


def mul(p, fn):
    """product and square, every pattern of aliasing"""
    pats = {"Mul2": ("xyz", "xxy", "xyx", "xyy", "xxx"), "Mul": ("xy", "xx"), "SquareVal": ("xy", "xx"), "Square": ("x",)}[fn]
    for pat in pats:
        nm = "[%s] " % pat
        X, Y = limbs("a", MULMAX), limbs("b", MULMAX)
        objs = {}

        def mk(st):
            vals = {}
            ops = pat[1:] if fn in ("Mul2", "SquareVal") else pat
            seq = iter([X, Y])
            for ch in ops:
                if ch not in vals:
                    vals[ch] = next(seq)
            for ch in pat:
                objs[ch] = objs.get(ch) or put(st, vals.get(ch, NONE))
            objs["v"] = [vals[ch] for ch in ops]
            return [objs[ch] for ch in pat], [objs[ch] for ch in set(pat) if ch != pat[0]]
        ex, fs = go(p, fn, mk, nm)
        for f in fs:
            r = result(p, nm, f, objs[pat[0]])
            with Limb():
                v = objs["v"]
                want = value(v[0]) * value(v[-1])
                cong(p, nm + "ensures the value is the product modulo the field prime", f, value(r) - want)
                bounded(p, nm + "ensures magnitude 1", f, r, B)


def linear(p, fn):
    """additions, negation, small multiples: exact on the words' value"""
    def case(nm, mk, want, mag, alias=()):
        objs = {}

        def mk2(st):
            args, o = mk(st)
            objs["r"] = args[0]
            return args, [x for x in o if x != args[0]]
        ex, fs = go(p, fn, mk2, nm)
        for f in fs:
            r = result(p, nm, f, objs["r"])
            with Limb():
                cong(p, nm + "ensures the value modulo the field prime", f, value(r) - want)
                bounded(p, nm + "ensures the magnitude", f, r, [mag * b for b in B])
    for a, b in ([(MAX - 1, 1), (1, MAX - 1), (MAX // 2, MAX // 2), (MAX - 5, 5), (9, MAX - 9)] if fn.startswith("Add") and fn != "AddInt" else [(0, 0)]):
        X, Y = limbs("a", a or 1), limbs("b", b or 1)
        if fn == "Add":
            def mk(st):
                o = [put(st, X), put(st, Y)]
                return o, o
            case("[%d+%d] " % (a, b), mk, value(X) + value(Y), a + b)
            if a == b:
                def mk(st):
                    o = put(st, X)
                    return [o, o], []
                case("[same] ", mk, 2 * value(X), a + b)
        elif fn == "Add2":
            for pat in ("xyz", "xxy", "xyx", "xyy", "xxx"):
                if pat in ("xyy", "xxx") and a != b:
                    continue

                def mk(st, pat=pat):
                    vals, o = {}, {}
                    seq = iter([X, Y])
                    for ch in pat[1:]:
                        if ch not in vals:
                            vals[ch] = next(seq)
                    for ch in pat:
                        o[ch] = o.get(ch) or put(st, vals.get(ch, NONE))
                    return [o[ch] for ch in pat], [o[ch] for ch in set(pat)]
                case("[%s %d+%d] " % (pat, a, b), mk, value(X) + (value(Y) if pat[1] != pat[2] else value(X)), a + b)
    if fn == "AddInt":
        X, k = limbs("a", MAX - 1), var("k", 0, (1 << 26) - 1)

        def mk(st):
            o = put(st, X)
            return [o, k], []
        case("", mk, value(X) + k, MAX)
    elif fn == "MulInt":
        for k in range(0, MAX + 1):
            m = MAX // k if k else MAX
            X = limbs("a", m)

            def mk(st):
                o = put(st, X)
                return [o, P_(k)], []
            case("[by %d] " % k, mk, k * value(X), max(1, m * k))
    elif fn in ("Negate", "NegateVal"):
        for m in range(1, MAX):
            X = limbs("a", m)
            if fn == "Negate":
                def mk(st):
                    o = put(st, X)
                    return [o, P_(m)], []
                case("[magnitude %d] " % m, mk, -value(X), m + 1)
            else:
                def mk(st):
                    o = [put(st, NONE), put(st, X)]
                    return o + [P_(m)], o
                case("[magnitude %d] " % m, mk, -value(X), m + 1)
    elif fn == "Set":
        X = limbs("a", MAX)

        def mk(st):
            o = [put(st, NONE), put(st, X)]
            return o, o
        case("", mk, value(X), MAX)
    elif fn == "SetInt":
        k = var("k", 0, (1 << 26) - 1)

        def mk(st):
            o = put(st, NONE)
            return [o, k], []
        case("", mk, k, 1)


def setters(p):
    ob = {}

    def mk(st):
        ob["r"] = put(st, NONE)
        return [ob["r"]], []
    ex, fs = go(p, "Zero", mk, "Zero: ")
    for f in fs:
        p.add("Zero: ensures all words are 0", all(w == ZERO for w in words(f, ob["r"])), "%r" % words(f, ob["r"]))
    by = [var("y%d" % i, 0, 255) for i in range(32)]
    want = ZERO
    for y in by:
        want = want * 256 + y

    def mk(st):
        ob["r"] = put(st, NONE)
        b = st.new(BytesV([("b", y) for y in by]), "input")
        return [ob["r"], b], [b]
    ex, fs = go(p, "SetBytes", mk, "SetBytes: ")
    for f in fs:
        r = result(p, "SetBytes: ", f, ob["r"])
        with Limb():
            d = _bits.expand_low(value(r) - want)
            p.add("SetBytes: ensures the value of the words is that of the bytes", not d.t, "difference %s" % str(d)[:300])
            bounded(p, "SetBytes: ensures words of 26 and 22 bits", f, r, [(1 << 26) - 1] * 9 + [(1 << 22) - 1])
    for n in range(0, 35):
        want = ZERO
        for y in by[:min(n, 32)]:
            want = want * 256 + y
        bn = [var("y%d" % i, 0, 255) for i in range(32, n)]

        def mk(st):
            ob["r"] = put(st, NONE)
            b = st.new(BytesV([("b", y) for y in (by + bn)[:n]]), "input")
            return [ob["r"], Slice(b, ZERO, P_(n), P_(n))], [b]
        nm = "SetByteSlice of %d bytes: " % n
        ex, fs = go(p, "SetByteSlice", mk, nm)
        for f in fs:
            r = result(p, nm, f, ob["r"])
            with Limb():
                d = _bits.expand_low(value(r) - want)
                p.add(nm + "ensures the value of the words is that of the first 32 bytes", not d.t, "difference %s" % str(d)[:300])
                bounded(p, nm + "ensures words of 26 and 22 bits", f, r, [(1 << 26) - 1] * 9 + [(1 << 22) - 1])
    for n in range(0, 69):
        # the digits of the bytes y, the first of which has one digit if n is odd
        by = [var("y%d" % i, 0, 15 if n % 2 and i == 0 else 255) for i in range((n + 1) // 2)]
        digits = [(k, y) for y in by for k in ("hi", "lo")][n % 2:]
        want = ZERO
        for y in by[:32]:
            want = want * 256 + y

        def mk(st):
            ob["r"] = put(st, NONE)
            return [ob["r"], HexS(digits)], []
        nm = "SetHex of %d digits: " % n
        ex, fs = go(p, "SetHex", mk, nm)
        for f in fs:
            r = result(p, nm, f, ob["r"])
            with Limb():
                d = _bits.expand_low(value(r) - want)
                p.add(nm + "ensures the value of the words is that of the first 32 bytes", not d.t, "difference %s" % str(d)[:300])
                bounded(p, nm + "ensures words of 26 and 22 bits", f, r, [(1 << 26) - 1] * 9 + [(1 << 22) - 1])


def encode(p):
    """PutBytes and Bytes of words below 2^26 (2^22)"""
    X = nlimbs("a")
    for fn in ("PutBytes", "Bytes"):
        ob = {}

        def mk(st):
            ob["f"] = put(st, X)
            if fn == "Bytes":
                return [ob["f"]], [ob["f"]]
            ob["b"] = st.new(BytesV([("b", var("o%d" % i, 0, 255)) for i in range(32)]), "input")
            return [ob["f"], ob["b"]], [ob["f"]]
        ex, fs = go(p, fn, mk, fn + ": ")
        for f in fs:
            o = ob["b"] if fn == "PutBytes" else f.out[1]
            with Limb():
                segs = f.heap[o.obj].segs
                v = ZERO
                for s in segs:
                    if s[0] != "b":
                        raise Unsupported("segment " + s[0])
                    v = v * 256 + s[1]
                d = _bits.expand_low(v - value(X))
                p.add(fn + ": ensures 32 bytes", len(segs) == 32, "%d" % len(segs))
                p.add(fn + ": ensures the bytes encode the value", not d.t, "difference %s" % str(d)[:300])
                for s in segs:
                    p.add(fn + ": ensures bytes", within(s[1], 0, 255), "bounds %s" % (iv(s[1]),))


def predicates(p):
    X, Y = nlimbs("a"), nlimbs("b")
    ob = {}

    def mk1(st):
        ob["a"] = put(st, X)
        return [ob["a"]], [ob["a"]]

    def mk2(st):
        a, b = put(st, X), put(st, Y)
        return [a, b], [a, b]
    ex, fs = go(p, "IsZero", mk1, "IsZero: ")
    for f in fs:
        with Limb():
            allz = f_and(*[f_eq(x) for x in X])
            p.holds("IsZero: ensures result <=> all words are 0", f, iff(f.out[1], allz))
    ex, fs = go(p, "Equals", mk2, "Equals: ")
    for f in fs:
        with Limb():
            p.holds("Equals: ensures result <=> all words agree", f, iff(f.out[1], f_and(*[f_eq(x, y) for x, y in zip(X, Y)])))
    ex, fs = go(p, "IsOdd", mk1, "IsOdd: ")
    for f in fs:
        with Limb():
            par = t_low(X[0], 1)
            p.holds("IsOdd: ensures result <=> word 0 is odd", f, iff(f.out[1], f_eq(par, ONE)))
    # unnormalised: zero words have the value zero
    U = limbs("u", MAX)

    def mk3(st):
        ob["a"] = put(st, U)
        return [ob["a"]], [ob["a"]]
    ex, fs = go(p, "IsZero", mk3, "IsZero of any words: ")
    for f in fs:
        with Limb():
            p.holds("IsZero of any words: ensures result => all words are 0", f, f_or(f_not(f.out[1]) if f.out[1] not in (True, False) else not f.out[1], f_and(*[f_eq(x) for x in U])))


def iff(a, b):
    return f_or(f_and(a, b), f_and(f_not(a), f_not(b)))


def normalize(p):
    for m in (1, MAX):
        nm = "[magnitude %d] " % m
        X = limbs("a", m)
        ob = {}

        def mk(st):
            ob["a"] = put(st, X)
            return [ob["a"]], []
        ex, fs = go(p, "Normalize", mk, nm)
        for f in fs:
            r = result(p, nm, f, ob["a"])
            with Limb():
                cong(p, nm + "ensures the value is unchanged modulo the field prime", f, value(r) - value(X))
                bounded(p, nm + "ensures words of 26 and 22 bits", f, r, [(1 << 26) - 1] * 9 + [(1 << 22) - 1])
                ok = f.pc.entails(f_lt(value(r), P_(T.P)))
                p.add(nm + "ensures the value is below the field prime", ok is True, "path %s" % show_pc(f.pc)[:600], "z3")
