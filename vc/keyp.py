"""Keys, signatures, encryption (C30-C33)."""
from .wirep import *
from .scalarp import kbytes, entry_phis, force_phis

KEY = {}
PUB, PRIV = BT + ".PublicKey", BT + ".PrivateKey"
B65, B33 = 65, 33


def low1(v):
    return t_low(v, 1)


def key_exec(p, C=None, **opts):
    ex = p.executor(C or {}, **opts)
    return ex, base_state(ex)


def rawv(name, off, n):
    return seq_val((("raw", name, P_(off), P_(n)),))


def fixed(f, segs, want):
    """the segments are exactly `want`, a list of ("b", v) and ("fix", v, n); "" or what differs"""
    segs = list(norm_segs(segs))
    for w in want:
        if w[0] == "b":
            if not segs or segs[0][0] != "b" or (segs[0][1] != w[1] and f.pc.entails(f_eq(segs[0][1] - w[1])) is not True):
                return "%r where %r belongs" % (segs[:1], w)
            segs.pop(0)
            continue
        have, part = ZERO, []
        while segs and f.pc.entails(f_eq(have - w[2])) is not True:
            have = have + seglen(segs[0])
            part.append(segs.pop(0))
        if f.pc.entails(f_eq(have - w[2])) is not True:
            return "%r where %d bytes belong" % (part, w[2])
        while part and (part[0][0] == "z" or part[0] == ("b", ZERO)):
            part.pop(0)
        v = seq_val(part)
        if v != w[1] and f.pc.entails(f_eq(v - w[1])) is not True:
            return "%r where %r belongs" % (v, w[1])
    if segs and f.pc.entails(f_eq(seqlen(segs))) is True:
        return ""
    return "%r left over" % (segs,) if segs else ""


@contract(KEY, BT + ".paddedAppend", "requires len(src) <= size; ensures dst, then the value of src in size bytes")
def _(ex, st, a, ins):
    size, src = ex.resolve(st, a[0]), ex.bytes_of(st, a[2])
    if not size.is_const() or st.pc.entails(f_le(seqlen(src), size)) is not True:
        return INLINE
    t = ex.new_bytes(st, [("fix", seq_val(src), size.cval())])
    return ex.append(st, a[1], t, ins)


def pubkey(ex, st, x, y, meta="input"):
    return st.new(StructV([st.curve, big(st, x, meta), big(st, y, meta)]), meta)


def key_parts(ex, f, k):
    k = ex.resolve(f, k)
    if k is NIL:
        return None
    s = ex.load(f, k)
    return ex.resolve(f, field(ex, "crypto/ecdsa.PublicKey", s, "Curve")), [bigs(ex, f, field(ex, "crypto/ecdsa.PublicKey", s, n)) for n in "XY"]


def rhs(x):
    return x * x * x + 7


def root(x):
    """the candidate square root of x^3 + 7"""
    return Poly.atom(mk_atom("pow", (expand_mod(rhs(x), T.P), (T.P + 1) // 4, T.P), 0, T.P - 1))


def on_curve(x, y):
    return f_cong(y * y - rhs(x), T.P)


def parse_pubkey(p):
    """ParsePubKey on arbitrary bytes: accepts exactly the encodings of points, returns the point"""
    for length in (0, B33, B65, None):
        ex, st = key_exec(p, CURVE)
        if length is None:
            L = var("L", 1, 1 << 40)
            st.pc.add(f_not(f_eq(L, P_(B33))))
            st.pc.add(f_not(f_eq(L, P_(B65))))
            tag = "other lengths: "
        else:
            L = P_(length)
            tag = "%d bytes: " % length
        s = Slice(st.new(BytesV([("raw", "in", ZERO, L)]), "input"), ZERO, L, L) if length != 0 else NILSLICE
        x, b0 = rawv("in", 1, 32), rb(0)
        y = rawv("in", 33, 32)
        r = root(x)
        if length == B65:
            good = f_and(f_or(f_eq(b0 - 4), f_and(f_eq(b0 - 6), f_eq(low1(y))), f_and(f_eq(b0 - 7), f_eq(low1(y) - 1))),
                         f_lt(x, P_(T.P)), f_lt(y, P_(T.P)), on_curve(x, y))
        elif length == B33:
            good = f_and(f_or(f_and(f_eq(b0 - 2)), f_and(f_eq(b0 - 3), f_not(f_eq(r)))), f_lt(x, P_(T.P)), on_curve(x, r))
        else:
            good = False
        if good is not False:
            # x = P apart from the others: it is as if x were 0, and 7 is not a square
            g = st.clone()
            segs = norm_segs((("raw", "in", ZERO, ONE), ("fix", P_(T.P), 32)) + ((("raw", "in", P_(33), P_(32)),) if length == B65 else ()))
            for f in live(p, tag + "x = P: ", run(ex, g, BT + ".ParsePubKey", [Slice(g.new(BytesV(segs), "input"), ZERO, L, L), st.curve.v])):
                p.add(tag + "x = P: refused", iserr(f.out[1][1]) and ex.resolve(f, f.out[1][0]) is NIL, "accepted on path %s" % show_pc(f.pc))
            st.pc.add(ne(x - T.P))
        fs = run(ex, st, BT + ".ParsePubKey", [s, st.curve.v])
        n = 0
        for f in live(p, tag, fs):
            k, err = f.out[1]
            if iserr(err):
                p.add(tag + "no key with an error", ex.resolve(f, k) is NIL, "%r" % (k,))
                if good is not False:
                    p.holds(tag + "refuses only what encodes no point", f, f_not(good))
                continue
            n += 1
            if good is False:
                p.add(tag + "refused", False, "accepted on path %s" % show_pc(f.pc))
                continue
            q = key_parts(ex, f, k)
            p.add(tag + "a key without an error", q is not None and None not in q[1], "nil without an error")
            if q is None or None in q[1]:
                continue
            c, (kx, ky) = q
            p.add(tag + "ensures the curve is the one given", c == st.curve, "%r" % (c,))
            p.holds(tag + "accepts only encodings of points on the curve", f, good)
            p.holds(tag + "ensures the x coordinate", f, f_eq(kx - x), "x is %r" % (kx,))
            if length == B65:
                p.holds(tag + "ensures the y coordinate", f, f_eq(ky - y), "y is %r" % (ky,))
            else:
                bit = low1(b0)
                p.holds(tag + "ensures the root of the right parity", f, f_and(imp(f_eq(low1(r) - bit), f_eq(ky - r)), imp(ne(low1(r) - bit), f_eq(ky - (T.P - r)))), "y is %r" % (ky,))
        p.add(tag + "vacuity: accepts and refuses", n > 0 or good is False, "nothing is accepted")
        frames(p, tag, fs)


def pub_formats(x, y, bit=None):
    bit = low1(y) if bit is None else P_(bit)
    return (("Uncompressed", [("b", P_(4)), ("fix", x, 32), ("fix", y, 32)]),
            ("Compressed", [("b", 2 + bit), ("fix", x, 32)]),
            ("Hybrid", [("b", 6 + bit), ("fix", x, 32), ("fix", y, 32)]))


def serialize_pubkey(p):
    """the three encodings, for all coordinates below P"""
    x, y = var("x", 0, T.P - 1), var("y", 0, T.P - 1)
    for name, want in pub_formats(x, y):
        ex, st = key_exec(p, KEY)
        k = pubkey(ex, st, x, y)
        fs = run(ex, st, "(*%s).Serialize%s" % (PUB, name), [k])
        for f in live(p, name + ": ", fs):
            s = ex.resolve(f, f.out[1])
            d = fixed(f, ex.bytes_of(f, s), want)
            p.add(name + ": ensures the encoding", not d, d)
            p.add(name + ": ensures a new array", f.meta.get(s.ptr.obj) == "fresh", "")
        frames(p, name + ": ", fs)


def padded(p):
    """paddedAppend: destination, zeros, source; for all lengths up to the size"""
    x = var("x", 0, (1 << 256) - 1)
    n = var("n", 0, 64)
    ex, st = key_exec(p)
    d = st.new(BytesV([("raw", "dst", ZERO, n), ("z", P_(128) - n)]))
    src = st.new(BytesV([("be", x)]), "input")
    m = t_blen(x)
    fs = run(ex, st, BT + ".paddedAppend", [P_(32), Slice(d, ZERO, n, P_(128)), Slice(src, ZERO, m, m)])
    for f in live(p, "", fs):
        s = ex.resolve(f, f.out[1])
        segs = norm_segs(ex.bytes_of(f, s))
        ok = segs[:1] == (("raw", "dst", ZERO, n),)
        rest = segs[1:] if ok else segs
        ok = ok or f.pc.entails(f_eq(n)) is True
        d = fixed(f, rest, [("fix", x, 32)])
        p.add("ensures destination, then 32 bytes of the value", ok and not d, d or "%r" % (segs,))


def roundtrip_pubkey(p):
    """parsing an encoding of a point gives the point"""
    x = var("x", 0, T.P - 1)
    r = root(x)
    for yname, y in (("the computed root", r), ("the other root", P_(T.P) - r)):
        for name, want, bit in [(n, w, b) for b in (0, 1) for n, w in pub_formats(x, y, b)]:
            ex, st = key_exec(p, CURVE)
            st.pc.add(f_not(f_eq(r)))
            st.pc.add(on_curve(x, r))
            st.pc.add(f_eq(low1(y) - bit))
            segs = norm_segs(want)
            m = seqlen(segs)
            tag = "%s, %s, parity %d: " % (name, yname, bit)
            fs = run(ex, st, BT + ".ParsePubKey", [Slice(st.new(BytesV(segs), "input"), ZERO, m, m), st.curve.v])
            for f in live(p, tag, fs):
                k, err = f.out[1]
                p.add(tag + "is accepted", not iserr(err), "error on path %s" % show_pc(f.pc))
                if iserr(err):
                    continue
                c, (kx, ky) = key_parts(ex, f, k)
                p.holds(tag + "reads back", f, f_and(f_eq(kx - x), f_eq(ky - y)), "%r, %r" % (kx, ky))
            b = Slice(st.new(BytesV(segs), "input"), ZERO, m, m)
            for f in live(p, tag, run(ex, st.clone(), BT + ".IsCompressedPubKey", [b])):
                p.add(tag + "compressed exactly if it says so", f.out[1] is (name == "Compressed"), "%r" % (f.out[1],))


def private_key(p):
    """encoding and construction of private keys; equality of public keys"""
    d = var("d", 1, N - 1)
    ex, st = key_exec(p, KEY)
    k = privkey(ex, st, d)
    fs = run(ex, st, "(*%s).Serialize" % PRIV, [k])
    for f in live(p, "Serialize: ", fs):
        e = fixed(f, ex.bytes_of(f, f.out[1]), [("fix", d, 32)])
        p.add("Serialize: ensures the 32 byte value", not e, e)
    frames(p, "Serialize: ", fs)
    for what in ("PubKey", "ToECDSA"):
        ex, st = key_exec(p, KEY)
        k = privkey(ex, st, d)
        for f in live(p, what + ": ", run(ex, st, "(*%s).%s" % (PRIV, what), [k])):
            r = ex.resolve(f, f.out[1])
            p.add(what + ": ensures the key itself", r.obj == k.obj and (what == "PubKey" or r.path == k.path), "%r" % (r,))
            if what == "PubKey":
                c, (kx, ky) = key_parts(ex, f, r)
                p.add("PubKey: ensures its point", (kx, ky) == (xc(d), yc(d)) and c == st.curve, "%r" % (kx,))
    ex, st = key_exec(p, CURVE)
    s, v, n = kbytes(st, "pk")
    fs = run(ex, st, BT + ".PrivKeyFromBytes", [st.curve, s])
    for f in live(p, "PrivKeyFromBytes: ", fs):
        a, b = f.out[1]
        D = ex.load(f, ex.resolve(f, a))
        p.holds("PrivKeyFromBytes: ensures the value of the bytes", f, f_eq(bigs(ex, f, field(ex, "crypto/ecdsa.PrivateKey", D, "D")) - v))
        for w in (b, ex.resolve(f, a)):
            w = ex.resolve(f, w)
            if w == ex.resolve(f, a) and w != ex.resolve(f, b):
                q = field(ex, "crypto/ecdsa.PrivateKey", D, "PublicKey")
                c, X, Y = [field(ex, "crypto/ecdsa.PublicKey", q, m) for m in ("Curve", "X", "Y")]
            else:
                q = ex.load(f, ex.resolve(f, b))
                c, X, Y = [field(ex, "crypto/ecdsa.PublicKey", q, m) for m in ("Curve", "X", "Y")]
            p.holds("PrivKeyFromBytes: ensures the public key of the value", f, f_cong(exp_of(ex, f, X, Y) - v))
            p.add("PrivKeyFromBytes: ensures the curve", ex.resolve(f, c) == st.curve, "%r" % (c,))
    frames(p, "PrivKeyFromBytes: ", fs)
    ex, st = key_exec(p)
    v = [var(c, 0, T.P - 1) for c in ("x1", "y1", "x2", "y2")]
    a, b = pubkey(ex, st, *v[:2]), pubkey(ex, st, *v[2:])
    fs = run(ex, st, "(*%s).IsEqual" % PUB, [a, b])
    for f in live(p, "IsEqual: ", fs):
        p.holds("IsEqual: ensures equality of both coordinates", f, iff(f.out[1], f_and(f_eq(v[0] - v[2]), f_eq(v[1] - v[3]))))
    frames(p, "IsEqual: ", fs)


def privkey(ex, st, d, meta="input"):
    pk = StructV([st.curve, big(st, xc(d), meta), big(st, yc(d), meta)])
    return st.new(mkstruct(ex, "crypto/ecdsa.PrivateKey", PublicKey=pk, D=big(st, d, meta)), meta)


def compressed(p):
    """IsCompressedPubKey on arbitrary bytes"""
    ex, st = key_exec(p)
    L = var("L", 0, 1 << 40)
    fs = run(ex, st, BT + ".IsCompressedPubKey", [Slice(st.new(BytesV([("raw", "in", ZERO, L)]), "input"), ZERO, L, L)])
    for f in live(p, "", fs):
        p.holds("ensures 33 bytes beginning with 2 or 3", f, iff(f.out[1], f_and(f_eq(L - 33), f_or(f_eq(rb(0) - 2), f_eq(rb(0) - 3)))))
    frames(p, "", fs)


# ---------------------------------------------------------------- signature encodings
SIG = BT + ".Signature"
DER = {}


def canonicalize(p):
    """canonicalizeInt: the shortest encoding with a clear top bit, for all integers below 2^256;
    canonicalPadding accepts it"""
    for n in range(0, 33):
        for topbit in (0, 1):
            if n == 0:
                if topbit:
                    continue
                v = ZERO
            else:
                lo = 256 ** (n - 1) if not topbit else 128 * 256 ** (n - 1)
                v = var("v%d" % n, lo, 128 * 256 ** (n - 1) - 1 if not topbit else 256 ** n - 1)
            ex, st = key_exec(p)
            fs = run(ex, st, BT + ".canonicalizeInt", [big(st, v)])
            tag = "%d bytes, top bit %d: " % (n, topbit)
            want = ([("b", ZERO)] if topbit or n == 0 else []) + ([("fix", v, n)] if n else [])
            for f in live(p, tag, fs):
                s = ex.resolve(f, f.out[1])
                d = fixed(f, ex.bytes_of(f, s), want)
                p.add(tag + "ensures the shortest encoding that is not negative", not d and s.len == seqlen(want), d or "length %r" % (s.len,))
                g = f.clone()
                g.out = None
                for h in live(p, tag + "padding: ", run(ex, g, BT + ".canonicalPadding", [s])):
                    p.add(tag + "is found canonical", h.out[1] is NIL, "%r" % (h.out[1],))
            frames(p, tag, fs)


def minimal(off, n):
    """the bytes in[off .. off+n) are the shortest encoding of a non-negative integer"""
    a, b = rb(off), rb(off + 1)
    return f_and(f_le(a, P_(0x7f)), f_or(f_eq(n - 1), f_not(f_eq(a)), f_le(P_(0x80), b)))


def padding(p):
    """canonicalPadding on arbitrary bytes: negative, excessively padded, or fine"""
    n = var("n", 1, 300)
    ex, st = key_exec(p)
    s = Slice(st.new(BytesV([("raw", "in", ZERO, n)]), "input"), ZERO, n, n)
    fs = run(ex, st, BT + ".canonicalPadding", [s])
    neg = f_le(P_(0x80), rb(0))
    for f in live(p, "", fs):
        r = f.out[1]
        names = {BT + ".errNegativeValue": neg, BT + ".errExcessivelyPaddedValue": f_and(f_not(neg), f_not(minimal(0, n)))}
        if r is NIL:
            p.holds("nil only for the shortest encoding", f, minimal(0, n))
            continue
        e = r.v.k[1] if isinstance(r, Iface) and isinstance(r.v, Opq) else None
        p.add("the error is one of the two", e in names, "%r" % (r,))
        if e in names:
            p.holds("ensures the right error", f, names[e], "%s on path %s" % (e, show_pc(f.pc)))
    frames(p, "", fs)


@contract(DER, BT + ".canonicalizeInt", "requires a non-negative integer; ensures its shortest encoding with a clear top bit, in a new array")
def _(ex, st, a, ins):
    v = ex.big(st, a[0])
    lo, hi = iv(v)
    if lo is None or lo < 0 or hi is None or hi >= MAXI:
        return INLINE
    return ex.new_bytes(st, [("di", v)])


@contract(DER, BT + ".canonicalPadding", "ensures nil for the shortest encoding of a non-negative integer, and one of two errors otherwise")
def _(ex, st, a, ins):
    segs = norm_segs(ex.bytes_of(st, a[0]))
    if len(segs) == 1 and segs[0][0] == "di":
        return NIL
    return INLINE


def signature(ex, st, r, s, meta="input"):
    return st.new(mkstruct(ex, SIG, R=big(st, r, meta), S=big(st, s, meta)), meta)


def sig_parts(ex, f, v):
    s = ex.load(f, ex.resolve(f, v))
    return [bigs(ex, f, field(ex, SIG, s, n)) for n in "RS"]


def der(r, s):
    lr, ls = t_derlen(r), t_derlen(s)
    return (("b", P_(0x30)), ("b", 4 + lr + ls), ("b", P_(2)), ("b", lr), ("di", r), ("b", P_(2)), ("b", ls), ("di", s))


def serialize_sig(p):
    """Serialize: the shortest encoding of r and of the smaller one of s and N - s"""
    r = var("r", 1, N - 1)
    for tag, s, w in (("low s: ", var("s", 1, HALF), None), ("high s: ", var("s2", HALF + 1, N - 1), 1)):
        ex, st = key_exec(p, DER)
        k = signature(ex, st, r, s)
        fs = run(ex, st, "(*%s).Serialize" % SIG, [k])
        want = norm_segs(der(r, s if w is None else P_(N) - s))
        for f in live(p, tag, fs):
            segs = norm_segs(ex.bytes_of(f, f.out[1]))
            p.add(tag + "ensures the encoding", same_segs(f, segs, want), "%r, not %r" % (segs, want))
        frames(p, tag, fs)


def same_segs(f, a, b):
    return same_bytes(f.pc, a, b)


def parse_call(ex, st, strict, s):
    return run(ex, st, BT + (".ParseDERSignature" if strict else ".ParseSignature"), [s, st.curve])


def parse_sig(p, strict):
    """parsing arbitrary bytes; bytes after the announced length are not part of the encoding"""
    ex, st = key_exec(p, CURVE)
    L = var("L", 0, 1 << 40)
    s = Slice(st.new(BytesV([("raw", "in", ZERO, L)]), "input"), ZERO, L, L)
    fs = parse_call(ex, st, strict, s)
    lr = rb(3)
    ls = rb(lr + 5)
    r, sv = rawv("in", 4, lr), rawv("in", lr + 6, ls)
    form = f_and(f_le(P_(8), L), f_eq(rb(0) - 0x30), f_le(rb(1) + 2, L), f_eq(rb(2) - 2), f_le(ONE, lr), f_le(lr + 7, rb(1) + 2),
                 f_eq(rb(lr + 4) - 2), f_le(ONE, ls), f_eq(lr + ls + 6, rb(1) + 2))
    rng = f_and(f_le(ONE, r), f_le(r, P_(N - 1)), f_le(ONE, sv), f_le(sv, P_(N - 1)))
    mini = f_and(minimal(4, lr), minimal(lr + 6, ls))
    good = f_and(form, rng, mini) if strict else f_and(form, rng)
    n = 0
    for f in live(p, "", fs):
        v, err = f.out[1]
        if iserr(err):
            p.add("no signature with an error", ex.resolve(f, v) is NIL, "%r" % (v,))
            if strict:
                p.holds("refuses only what is not a shortest encoding in the range", f, f_not(good), "path %s" % show_pc(f.pc))
            continue
        n += 1
        R, S = sig_parts(ex, f, v)
        p.add("components without an error", R is not None and S is not None, "nil")
        for c, w in zip("RS", (R, S)):
            p.holds("ensures 1 <= %s < N" % c, f, f_and(f_le(ONE, w), f_le(w, P_(N - 1))))
        p.holds("accepts only the encoding of two integers", f, form)
        if strict:
            p.holds("accepts only shortest encodings", f, mini)
        p.holds("ensures R", f, f_eq(R - r), "%r" % (R,))
        p.holds("ensures S", f, f_eq(S - sv), "%r" % (S,))
    p.add("vacuity: something is accepted", n > 0, "")
    frames(p, "", fs)


def roundtrip_sig(p):
    """parsing what Serialize writes gives r and the smaller one of s and N - s"""
    r, s = var("r", 1, N - 1), var("s", 1, HALF)
    R = ("raw", "rest", ZERO, var("R", 0, 1 << 40))
    for strict in (True, False):
        for tail in ((), (R,)):
            tag = ("strict" if strict else "lenient") + (", data after it: " if tail else ": ")
            ex, st = key_exec(p, {**CURVE, **DER})
            segs = norm_segs(der(r, s) + tail)
            m = seqlen(segs)
            fs = parse_call(ex, st, strict, Slice(st.new(BytesV(segs), "input"), ZERO, m, m))
            for f in live(p, tag, fs):
                v, err = f.out[1]
                p.add(tag + "is accepted", not iserr(err), "error on path %s" % show_pc(f.pc))
                if not iserr(err):
                    a, b = sig_parts(ex, f, v)
                    p.holds(tag + "reads back", f, f_and(f_eq(a - r), f_eq(b - s)), "%r, %r" % (a, b))
            frames(p, tag, fs)


def sig_equal(p):
    ex, st = key_exec(p)
    v = [var(c, 0, N - 1) for c in ("r1", "s1", "r2", "s2")]
    fs = run(ex, st, "(*%s).IsEqual" % SIG, [signature(ex, st, *v[:2]), signature(ex, st, *v[2:])])
    for f in live(p, "", fs):
        p.holds("ensures equality of both components", f, iff(f.out[1], f_and(f_eq(v[0] - v[2]), f_eq(v[1] - v[3]))))
    frames(p, "", fs)


# ---------------------------------------------------------------- signing and recovery
SIGN = dict(CURVE)


def hash_arg(st, short, name="hash"):
    n = var(name + ".len", 0, 32) if short else var(name + ".len", 33, 1 << 40)
    return Slice(st.new(BytesV([("raw", name, ZERO, n)]), "input"), ZERO, n, n), n


def hash_val(name, n, short):
    """the integer a hash stands for: its first 32 bytes"""
    return seq_val(norm_segs((("raw", name, ZERO, n if short else P_(32)),)))


def hash_to_int(p):
    for short in (True, False):
        ex, st = key_exec(p)
        h, n = hash_arg(st, short)
        fs = run(ex, st, BT + ".hashToInt", [h, st.curve])
        for f in live(p, "", fs):
            p.holds("ensures the value of the first 32 bytes", f, f_eq(ex.big(f, f.out[1]) - hash_val("hash", n, short)), "%r" % (f.out[1],))
        frames(p, "", fs)


@contract(SIGN, BT + ".nonceRFC6979", "ensures 1 <= result < N, determined by the key and the hash")
def _(ex, st, a, ins):
    d, h = ex.big(st, a[0]), norm_segs(ex.bytes_of(st, a[1]))
    return st.new(BigV(named("nonce(%s,%s)" % (d, h), 1, N - 1)))


def sign(p):
    """signRFC6979: r is the x coordinate of k*G modulo N, s*k = +-(e + r*d) modulo N, s at most N/2"""
    for short in (True, False):
        ex, st = key_exec(p, SIGN)
        d = var("d", 1, N - 1)
        h, n = hash_arg(st, short)
        key = privkey(ex, st, d)
        fs = run(ex, st, "(*%s).Sign" % PRIV, [key, h])
        k = named("nonce(%s,%s)" % (d, norm_segs((("raw", "hash", ZERO, n),))), 1, N - 1)
        e = hash_val("hash", n, short)
        x = xc(k)
        cnt = 0
        for f in live(p, "", fs):
            v, err = f.out[1]
            p.add("draws no randomness", not f.ghost.get("draws"), "")
            if iserr(err):
                p.add("no signature with an error", ex.resolve(f, v) is NIL, "%r" % (v,))
                p.holds("an error only for r = 0 or s = 0", f, f_or(f_cong(e + x * d), f_cong(x)), "error on path %s" % show_pc(f.pc))
                continue
            cnt += 1
            r, s = sig_parts(ex, f, v)
            p.holds("ensures r is the x coordinate of k*G, reduced", f, f_or(f_and(f_eq(r - x), f_le(x, P_(N))), f_and(f_eq(r - x + N), f_le(P_(N), x))), "%r" % (r,))
            p.holds("ensures 1 <= s <= N/2", f, f_and(f_le(ONE, s), f_le(s, P_(HALF))), "%r" % (s,))
            p.holds("ensures the signature equation", f, f_or(f_cong(s * k - e - r * d), f_cong(s * k + e + r * d)), "%r" % (s,))
        p.add("vacuity: a signature is made", cnt > 0, "")
        frames(p, "", fs)


def hm(key, *msg):
    """HMAC-SHA256 of the message under a key of 32 bytes; both as values of 32 bytes, the message as segments"""
    return Poly.atom(mk_atom("hmac_sha256", (norm_segs((("fix", key, 32),)), norm_segs(msg)), 0, (1 << 256) - 1))


def f32(v):
    return ("fix", v, 32)


NONCE = {}


@contract(NONCE, BT + ".int2octets", "requires 0 <= v < 2^(8 rolen); ensures v in rolen bytes")
def _(ex, st, a, ins):
    v, n = ex.big(st, a[0]), ex.resolve(st, a[1])
    if not n.is_const() or st.pc.entails(f_and(f_le(ZERO, v), f_lt(v, P_(1 << 8 * n.cval())))) is not True:
        return INLINE
    return ex.new_bytes(st, [("fix", v, n.cval())])


def octets(p):
    """int2octets: the value in 32 bytes, for all values of at most 32 bytes"""
    for n in range(33):
        v = var("v%d" % n, 256 ** (n - 1), 256 ** n - 1) if n else ZERO
        ex, st = key_exec(p)
        fs = run(ex, st, BT + ".int2octets", [big(st, v), P_(32)])
        for f in live(p, "%d bytes: " % n, fs):
            s = ex.resolve(f, f.out[1])
            d = fixed(f, ex.bytes_of(f, s), [f32(v)])
            p.add("%d bytes: ensures the value in 32 bytes" % n, not d, d)
        frames(p, "%d bytes: " % n, fs)


def nonce(p):
    """nonceRFC6979: the first output of the HMAC generator seeded with key and hash that is in the range.
    Invariant of the loop: K, V are the state the generator has after the rejected candidates; proved for the start,
    and for one turn from an arbitrary state."""
    fn = BT + ".nonceRFC6979"
    for short in (True, False):
        tag = "hash of at most 32 bytes: " if short else "longer hash: "
        d = var("d", 1, N - 1)
        K, V = var("K", 0, (1 << 256) - 1), var("V", 0, (1 << 256) - 1)
        n = {"enter": 0, "again": 0}
        gen = {}

        def slices(ex, st, fr, want):
            """the two loop variables as byte slices with the given values, in either order"""
            ph = entry_phis(ex, st, fr)
            vals = [(r, ex.resolve(st, v)) for r, v in ph]
            if len(vals) != 2 or not all(isinstance(v, Slice) for _, v in vals):
                raise Unsupported("the loop has other variables than the state of the generator")
            got = [(r, norm_segs(ex.bytes_of(st, v))) for r, v in vals]
            out = {}
            for nm, w in want.items():
                for r, s in got:
                    if r not in out.values() and not fixed(st, s, [f32(w)]) and gen.get(nm, r) == r:
                        out[nm] = r
                        break
            if len(out) != 2:
                return None, "%r, not %r" % (got, want)
            return out, ""

        def hook(ex, st, fr):
            if fr.fn != fn or len(st.frames) != 1:
                return None
            loops = ex.prog.order(fn).loops
            if any(fr.block in b and h != fr.block for h, b in loops.items()):
                return None
            if fr.prev not in loops[fr.block]:
                if st.ghost.get("in"):
                    raise Unsupported("another loop")
                bx = [f32(d), f32(e if st.pc.entails(f_lt(e, P_(N))) is True else e - N)]
                k0, v0 = ZERO, seq_val([("b", ONE)] * 32)
                for b in (0, 1):
                    k0 = hm(k0, f32(v0), ("b", P_(b)), *bx)
                    v0 = hm(k0, f32(v0))
                o, why = slices(ex, st, fr, {"K": k0, "V": v0})
                p.add(tag + "invariant holds at the start", o is not None, why)
                if o is None:
                    return []
                n["enter"] += 1
                gen.update(o)
                st.ghost["in"] = 1
                st.ghost["bound"] = 1
                force_phis(ex, st, fr, [(r, ex.new_bytes(st, [f32({o["K"]: K, o["V"]: V}[r])])) for r, _ in entry_phis(ex, st, fr)])
                return [st]
            c = hm(K, f32(V))
            k1 = hm(K, f32(c), ("b", ZERO))
            o, why = slices(ex, st, fr, {"K": k1, "V": hm(k1, f32(c))})
            p.add(tag + "invariant is kept", o is not None, why)
            p.holds(tag + "only candidates outside the range are passed over", st, f_or(f_eq(c), f_le(P_(N), c)))
            n["again"] += 1
            return []
        ex, st = key_exec(p, NONCE, loop_hook=hook)
        h, ln = hash_arg(st, short)
        e = hash_val("hash", ln, short)
        fs = run(ex, st, fn, [big(st, d), h])
        m = 0
        for f in live(p, tag, fs):
            m += 1
            v = ex.big(f, f.out[1])
            p.holds(tag + "ensures 1 <= result < N", f, f_and(f_le(ONE, v), f_le(v, P_(N - 1))), "%r" % (v,))
            p.holds(tag + "ensures the first candidate in the range", f, f_eq(v - hm(K, f32(V))), "%r" % (v,))
            p.add(tag + "draws no randomness", not f.ghost.get("draws"), "")
        p.add(tag + "vacuity: returns, and goes round the loop", m > 0 and n["enter"] > 0 and n["again"] > 0, "%r %r" % (m, n))
        frames(p, tag, fs)


RECOVER = dict(SIGN)


VERIFY = dict(CURVE)


def accepts(r, s, e, q):
    """the signature equation: both components from 1 to N-1, and r the x coordinate of (e*G + r*Q)/s modulo N"""
    return f_and(f_le(ONE, r), f_le(r, P_(N - 1)), f_le(ONE, s), f_le(s, P_(N - 1)), f_cong(xc(t_mod(t_inv(s, N) * (e + r * q), N)) - r))


@contract(VERIFY, "crypto/ecdsa.Verify", "requires a key on the curve and a hash of at least one byte; ensures true exactly for the signature equation")
def _(ex, st, a, ins):
    k = ex.load(st, ex.resolve(st, a[0]))
    q = exp_of(ex, st, k.f[1], k.f[2])
    if q is None or ex.resolve(st, k.f[0]) != st.curve:
        raise Unsupported("verification with the key %r" % (k,))
    segs = norm_segs(ex.bytes_of(st, a[1]))
    n = seqlen(segs)
    if st.pc.entails(f_le(ONE, n)) is not True:
        raise Unsupported("verification of an empty hash")
    if st.pc.entails(f_le(n, P_(32))) is True:
        e = seq_val(segs)
    elif len(segs) == 1 and segs[0][0] == "raw" and st.pc.entails(f_le(P_(32), n)) is True:
        e = seq_val(norm_segs((("raw", segs[0][1], segs[0][2], P_(32)),)))
    else:
        raise Unsupported("verification of the hash %r" % (segs,))
    return accepts(ex.big(st, a[2]), ex.big(st, a[3]), e, q)


def verify(p):
    """Verify: true exactly for the signature equation"""
    for short in (True, False):
        tag = "short hash: " if short else "long hash: "
        ex, st = key_exec(p, VERIFY)
        r, s = [var(c, -(1 << 512), 1 << 512) for c in "rs"]
        q = var("q", 1, N - 1)
        h, n = hash_arg(st, short)
        st.pc.add(f_le(ONE, n))
        fs = run(ex, st, "(*%s).Verify" % SIG, [signature(ex, st, r, s), h, pubkey(ex, st, xc(q), yc(q))])
        want = accepts(r, s, hash_val("hash", n, short), q)
        for f in live(p, tag, fs):
            p.holds(tag + "ensures acceptance exactly for the signature equation", f, iff(f.out[1], want), "%r" % (f.out[1],))
        frames(p, tag, fs)


def rho(x, odd):
    """the exponent of the point with this x coordinate and parity of y"""
    return named("rho(%s,%d)" % (x, odd), 1, N - 1)


def square(x):
    return named("square(%s)" % (rhs(x),), 0, 1, True)


@contract(RECOVER, BT + ".decompressPoint", "requires 0 <= x < P; ensures the y of the given parity of a point of the curve, or an error if there is none; modifies nothing")
def _(ex, st, a, ins):
    x, odd = ex.big(st, a[1]), ex.resolve(st, a[2])
    if odd is not True and odd is not False:
        odd = ex.decide(st, odd)
    x = st.pc.norm(x)
    if st.pc.entails(f_and(f_le(ZERO, x), f_le(x, P_(T.P - 1)))) is not True:
        return INLINE
    at = x.single_atom()
    at = ATOMS[at] if at is not None else None
    if at is not None and at.kind == "xc" and st.pc.entails(f_not(f_cong(at.args[0]))) is True:
        k = at.args[0]
        y = yc(k)
        b = ex.decide(st, f_eq(low1(y) - int(odd)))
        return (st.new(BigV(y if b else yc(toN(-k)))), NIL)
    bad = st.clone()
    bad.pc.add(f_eq(square(x)))
    st.pc.add(f_eq(square(x) - 1))
    e = rho(x, odd)
    y = yc(e)
    st.pc.add(f_eq(low1(y) - int(odd)))
    st.ghost["points"] = st.ghost.get("points", ()) + ((x, y, e),)
    return [(st, (st.new(BigV(y)), NIL)), (bad, (NIL, new_err(bad, "not on the curve")))]


def decompress(p):
    """decompressPoint: the root of x^3 + 7 of the given parity, or an error if there is none"""
    p.add("lemma: -7 is not a cube, so no root is 0", T.P % 3 == 1 and pow(-7, (T.P - 1) // 3, T.P) != 1, "")
    for odd in (False, True):
        tag = "odd: " if odd else "even: "
        ex, st = key_exec(p)
        x = var("x", 0, T.P - 1)
        r = root(x)
        st.pc.add(f_not(f_eq(r)))
        fs = run(ex, st, BT + ".decompressPoint", [st.curve.v, big(st, x), odd])
        n = 0
        for f in live(p, tag, fs):
            y, err = f.out[1]
            if iserr(err):
                p.add(tag + "no coordinate with an error", ex.resolve(f, y) is NIL, "%r" % (y,))
                p.holds(tag + "an error only off the curve", f, f_not(on_curve(x, r)))
                continue
            n += 1
            y = ex.big(f, y)
            p.holds(tag + "ensures 0 <= y < P", f, f_and(f_le(ZERO, y), f_le(y, P_(T.P - 1))), "%r" % (y,))
            p.holds(tag + "ensures a point of the curve", f, on_curve(x, y), "%r" % (y,))
            p.holds(tag + "ensures the parity", f, f_eq(low1(y) - int(odd)), "%r" % (y,))
        p.add(tag + "vacuity: some x is accepted", n > 0, "")
        frames(p, tag, fs)




def recover(p):
    """recoverKeyFromSignature: Q with r*Q = s*R - e*G, for the point R the iteration names; an error only if there is
    no such point or Q is the identity"""
    for it in (0, 1, 2, 3, None):
        for checks in ((False, True) if it is not None else (False,)):
            for short in (True, False):
                tag = "%s%s, %s hash: " % ("iteration %d" % it if it is not None else "higher iterations", ", checked" if checks else "", "short" if short else "long")
                ex, st = key_exec(p, RECOVER)
                r, s = var("r", 1, N - 1), var("s", 1, N - 1)
                itv = P_(it) if it is not None else var("it", 4, 255)
                h, n = hash_arg(st, short)
                e = hash_val("hash", n, short)
                fs = run(ex, st, BT + ".recoverKeyFromSignature", [st.curve.v, signature(ex, st, r, s), h, itv, checks])
                cnt = 0
                for f in live(p, tag, fs):
                    k, err = f.out[1]
                    x = r + N * ((it or 0) // 2)
                    q = rho(f.pc.norm(x), (it or 0) & 1)
                    if iserr(err):
                        p.add(tag + "no key with an error", ex.resolve(f, k) is NIL, "%r" % (k,))
                        if it is not None:
                            p.holds(tag + "an error only without a point, or for the identity", f,
                                    f_or(f_le(P_(T.P), x), f_eq(square(f.pc.norm(x))), f_cong(s * q - e)), "path %s" % show_pc(f.pc))
                        continue
                    cnt += 1
                    if it is None:
                        p.add(tag + "refused", False, "accepted on path %s" % show_pc(f.pc))
                        continue
                    c, (X, Y) = key_parts(ex, f, k)
                    z = point_of(f.pc.norm(X), f.pc.norm(Y))
                    p.add(tag + "ensures a point", z is not None and c == st.curve, "%r" % (X,))
                    if z is not None:
                        p.holds(tag + "ensures x below P on the curve", f, f_and(f_lt(x, P_(T.P)), f_eq(square(f.pc.norm(x)) - 1)))
                        p.holds(tag + "ensures r*Q = s*R - e*G", f, f_cong(r * z - s * q + e), "%r" % (z,))
                        p.holds(tag + "ensures not the identity", f, f_not(f_cong(z)), "%r" % (z,))
                p.add(tag + "vacuity: a key is recovered", cnt > 0 or it is None, "")
                frames(p, tag, fs)


def solution(p):
    """for what Sign returns, one of the four iterations gives the key of the signer.  A nonce whose point has the x
    coordinate N is left out."""
    for short in (True, False):
        for over in (0, 1):
            for neg in (0, 1):
                for odd in (0, 1):
                    ex, st = key_exec(p, RECOVER)
                    d = var("d", 1, N - 1)
                    h, n = hash_arg(st, short)
                    e = hash_val("hash", n, short)
                    k = named("nonce(%s,%s)" % (d, norm_segs((("raw", "hash", ZERO, n),))), 1, N - 1)
                    x = xc(k)
                    r = x - N if over else x
                    g = e + r * d
                    v = t_mod(t_inv(k, N) * g, N)
                    # s*k = g, or s*k = -g: R is k*G or -k*G
                    s = P_(N) - v if neg else v
                    for c in (f_lt(P_(N), x) if over else f_lt(x, P_(N)), f_not(f_eq(r)), f_not(f_cong(x)), f_not(f_cong(g)),
                              f_lt(P_(HALF), v) if neg else f_le(v, P_(HALF)),
                              f_eq(low1(yc(k)) - (1 - odd if neg else odd))):       # y is not 0, and P is odd
                        st.pc.add(c)
                    it = 2 * over + odd
                    tag = "%s hash, r %s N, s %s, R %s: " % ("short" if short else "long", "is x -" if over else "is x below", "negated" if neg else "as it is", "odd" if odd else "even")
                    fs = run(ex, st, BT + ".recoverKeyFromSignature", [st.curve.v, signature(ex, st, r, s), h, P_(it), True])
                    for f in live(p, tag, fs):
                        key, err = f.out[1]
                        p.add(tag + "is recovered", not iserr(err), "error on path %s" % show_pc(f.pc))
                        if not iserr(err):
                            _, (X, Y) = key_parts(ex, f, key)
                            z = point_of(f.pc.norm(X), f.pc.norm(Y))
                            p.add(tag + "ensures a point", z is not None, "%r" % (X,))
                            if z is not None:
                                p.holds(tag + "ensures the key of the signer", f, f_cong(z - d), "%r" % (z,))


def compact_contracts(good, d, r0, s0, n):
    """recovery by iteration, as a function of signature, hash and iteration; the iteration `good` gives the signer's key"""
    C = dict(CURVE)
    C.update({k: v for k, v in list(KEY.items()) + list(NONCE.items()) if k in (BT + ".paddedAppend", BT + ".int2octets")})

    @contract(C, BT + ".recoverKeyFromSignature", "a function of signature, hash and iteration (proved by recover); one iteration gives the signer's key (proved by solution)")
    def _(ex, st, a, ins):
        r, s = sig_parts(ex, st, a[1])
        h, it = norm_segs(ex.bytes_of(st, a[2])), ex.resolve(st, a[3])
        if (st.pc.norm(r), st.pc.norm(s)) != (r0, s0) or h != norm_segs((("raw", "hash", ZERO, n),)):
            raise Unsupported("recovery for %r, %r, %r" % (r, s, h))
        if not it.is_const():
            raise Unsupported("iteration %r" % (it,))
        it = it.cval()
        st.ghost["its"] = st.ghost.get("its", ()) + (it,)
        if it == good:
            return (pubkey(ex, st, xc(d), yc(d), "fresh"), NIL)
        bad = st.clone()
        X, Y = [named("%s of iteration %d" % (c, it), 0, T.P - 1) for c in "XY"]
        return [(st, (pubkey(ex, st, X, Y, "fresh"), NIL)), (bad, (NIL, new_err(bad, "none")))]

    @contract(C, "(*%s).Sign" % PRIV, "as proved by sign")
    def _(ex, st, a, ins):
        bad = st.clone()
        bad.ghost["nosig"] = 1
        return [(st, (signature(ex, st, r0, s0, "fresh"), NIL)), (bad, (NIL, new_err(bad, "no signature")))]
    return C


def compact(p):
    """SignCompact: header for an iteration that gives the signer's key, r and s in 32 bytes each; RecoverCompact of that
    gives what the iteration gives, and the flag"""
    d, r, s = var("d", 1, N - 1), var("r", 1, N - 1), var("s", 1, HALF)
    for flag in (False, True):
        for good in range(4):
            tag = "%s, solution %d: " % ("compressed" if flag else "uncompressed", good)
            n = var("hash.len", 0, 1 << 40)
            C = compact_contracts(good, d, r, s, n)
            ex, st = key_exec(p, C)
            h = Slice(st.new(BytesV([("raw", "hash", ZERO, n)]), "input"), ZERO, n, n)
            fs = run(ex, st, BT + ".SignCompact", [st.curve.v, privkey(ex, st, d), h, flag])
            cnt = 0
            for f in live(p, tag, fs):
                b, err = f.out[1]
                if iserr(err):
                    p.add(tag + "no signature with an error", ex.resolve(f, b) in (NIL, NILSLICE), "%r" % (b,))
                    p.add(tag + "an error only if there is no signature", f.ghost.get("nosig") == 1, "error on path %s" % show_pc(f.pc))
                    continue
                cnt += 1
                sl = ex.resolve(f, b)
                segs = norm_segs(ex.bytes_of(f, sl))
                it = f.ghost["its"][-1]
                w = fixed(f, segs, [("b", P_(27 + it + 4 * flag)), f32(r), f32(s)])
                p.add(tag + "ensures header, r, s", not w, w)
                p.holds(tag + "ensures 65 bytes", f, f_eq(sl.len - 65))
                if it != good:
                    p.holds(tag + "ensures that the iteration gives the signer's key", f, f_and(*[f_eq(named("%s of iteration %d" % (c, it), 0, T.P - 1) - v) for c, v in (("X", xc(d)), ("Y", yc(d)))]))
                p.add(tag + "ensures a new array", f.meta.get(sl.ptr.obj) == "fresh", "")
            p.add(tag + "vacuity: a signature is made", cnt > 0, "")
            frames(p, tag, fs)
            ex, st = key_exec(p, C)
            segs = [("b", P_(27 + good + 4 * flag)), f32(r), f32(s)]
            h = Slice(st.new(BytesV([("raw", "hash", ZERO, n)]), "input"), ZERO, n, n)
            fs = run(ex, st, BT + ".RecoverCompact", [st.curve.v, Slice(st.new(BytesV(segs), "input"), ZERO, P_(65), P_(65)), h])
            for f in live(p, tag + "recovery: ", fs):
                key, c, er = f.out[1]
                p.add(tag + "is recovered", not iserr(er), "error on path %s" % show_pc(f.pc))
                if iserr(er):
                    continue
                _, (X, Y) = key_parts(ex, f, key)
                p.holds(tag + "recovers the key of the signer", f, f_and(f_eq(X - xc(d)), f_eq(Y - yc(d))), "%r" % (X,))
                p.add(tag + "recovers the flag", c is flag, "%r" % (c,))
            frames(p, tag + "recovery: ", fs)


def recover_bytes(p):
    """RecoverCompact on arbitrary bytes: one case for each header"""
    for b0 in list(range(256)) + [None]:
        ex, st = key_exec(p, RECOVER)
        tag = "header %d: " % b0 if b0 is not None else "other lengths: "
        ln = P_(65) if b0 is not None else var("L", 0, 1 << 40)
        segs = [("b", P_(b0)), ("raw", "in", ONE, P_(64))] if b0 is not None else [("raw", "in", ZERO, ln)]
        if b0 is None:
            st.pc.add(ne(ln - 65))
        h, n = hash_arg(st, True)
        fs = run(ex, st, BT + ".RecoverCompact", [st.curve.v, Slice(st.new(BytesV(segs), "input"), ZERO, ln, ln), h])
        cnt = 0
        good = b0 is not None and 27 <= b0 <= 34
        r, sv = rawv("in", 1, 32), rawv("in", 33, 32)
        e = hash_val("hash", n, True)
        for f in live(p, tag, fs):
            k, c, err = f.out[1]
            if iserr(err):
                p.add(tag + "no key with an error", ex.resolve(f, k) is NIL and c is False, "%r" % (k,))
                continue
            cnt += 1
            if not good:
                p.add(tag + "refused", False, "accepted on path %s" % show_pc(f.pc))
                continue
            p.holds(tag + "ensures r and s in the range", f, f_and(f_le(ONE, r), f_le(r, P_(N - 1)), f_le(ONE, sv), f_le(sv, P_(N - 1))))
            it, fl = (b0 - 27) & 3, b0 - 27 > 3
            _, (X, Y) = key_parts(ex, f, k)
            z = point_of(f.pc.norm(X), f.pc.norm(Y))
            p.add(tag + "ensures a point", z is not None, "%r" % (X,))
            if z is None:
                continue
            x = r + N * (it // 2)
            q = rho(f.pc.norm(x), it & 1)
            p.holds(tag + "ensures r*Q = s*R - e*G", f, f_cong(r * z - sv * q + e), "%r" % (z,))
            p.holds(tag + "ensures not the identity", f, f_not(f_cong(z)), "%r" % (z,))
            p.add(tag + "ensures the flag", c is fl, "%r" % (c,))
        p.add(tag + "vacuity: something is accepted", cnt > 0 or not good, "")
        frames(p, tag, fs)
