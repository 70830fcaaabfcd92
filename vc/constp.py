"""Initialisation: curve parameters, generators, precomputed tables (C06)."""
import base64, hashlib, zlib
from .fieldc import *
from .scalarp import Table

A1, B1 = 0x3086D221A7D46BCDE86C90E49284EB15, -0xE4437ED6010E88286F547FA90ABFE4C3
A2, B2 = 0x114CA50F7A8E2F3F657C1108D9D44CFD8, 0x3086D221A7D46BCDE86C90E49284EB15


def fresh_globals(ex):
    st = State()
    for n, t in ex.prog.globals.items():
        k = "g:" + n
        try:
            st.heap[k] = ex.zero(ex.prog.under(t)["e"])
        except (Unsupported, TypeError):
            st.heap[k] = None
        st.meta[k] = "global"
    return st


def package_init(p):
    """executor and state after the package initialisation of btcec"""
    reqs = []
    C = dict(FIELD)
    loaded = []
    for nm, fld in (("loadS256BytePoints", "bytePoints"), ("loadS256BytePointsH", "bytePointsH")):
        @contract(C, BT + "." + nm, "ensures the table of the multiples is set, returns nil (checked on the data)")
        def _(ex, st, a, ins, fld=fld):
            key = "g:" + BT + ".secp256k1"
            i = [f["n"] for f in prog_fields(ex.prog, BT + ".KoblitzCurve")].index(fld)
            t = st.new(Table(ONE if fld == "bytePoints" else H_EXP), "global")
            st.heap[key] = st.heap[key].set(i, t)
            return NIL

    @contract(C, FM + "SetHex", "requires valid hexadecimal digits; ensures their value")
    def _(ex, st, a, ins):
        import re
        if not isinstance(a[1], str) or not re.match("^[0-9a-fA-F]{1,64}$", a[1]):
            raise Unsupported("SetHex")
        return put(ex, st, a[0], mkfv(P_(int(a[1], 16)), 1, int(a[1], 16) < PP))
    imps = {i["fn"]["n"] for b in p.prog.funcs[BT + ".init"]["blocks"] for i in b["i"] if i["o"] == "call" and isinstance(i["fn"], dict) and i["fn"].get("n", "").endswith(".init")}
    for n in imps:
        C[n] = lambda ex, st, a, ins: None
    ex = p.executor(C, abstract_field=True, reqs=reqs)
    st = fresh_globals(ex)
    fs = live(p, "package initialisation: ", run(ex, st, BT + ".init", []))
    if len(fs) != 1:
        raise Unsupported("initialisation has several outcomes")
    s1 = fs[0]
    s1.out = None
    s1.frames = []
    return ex, s1, reqs, loaded


def init_btcec(p, ex_out=None):
    """package initialisation and S256 of btcec establish the curve parameters that the other properties assume"""
    ex, s1, reqs, loaded = package_init(p)
    fs = live(p, "S256: ", run(ex, s1, BT + ".S256", []))
    for f in fs:
        key = "g:" + BT + ".secp256k1"
        p.add("S256 returns the curve", f.out[1] == Ptr(key), "%r" % (f.out[1],))
        cv = f.heap[key]
        g = lambda n: field(ex, BT + ".KoblitzCurve", cv, n)
        par = ex.load(f, g("CurveParams"))
        pg = lambda n: field(ex, "crypto/elliptic.CurveParams", par, n)

        def want(name, got, v):
            try:
                got = ex.big(f, got) if not isinstance(got, Poly) else got
            except Panic:
                got = None
            p.add("%s is that of secp256k1" % name, got == P_(v), "%s is %r" % (name, got))
        want("P", pg("P"), PP)
        want("N", pg("N"), N)
        want("B", pg("B"), 7)
        want("Gx", pg("Gx"), GX)
        want("Gy", pg("Gy"), GY)
        want("BitSize", pg("BitSize"), 256)
        names = {x["n"] for x in prog_fields(ex.prog, BT + ".KoblitzCurve")}
        for n, v in (("q", (PP + 1) // 4), ("H", 1), ("halfOrder", N // 2), ("byteSize", 32)):
            if n in names:
                want(n, g(n), v)
        endo = ("lambda", "beta", "a1", "b1", "a2", "b2")
        if all(n in names for n in endo):
            la, a1, b1, a2, b2 = [ex.big(f, g(n)).cval() for n in endo if n != "beta"]
            be = fv(ex, f, g("beta"))
            bv = be.v.cval()
            d = dict(zip(endo, (la, bv, a1, b1, a2, b2)))
            other = (LAMBDA * LAMBDA % N, BETA * BETA % PP)
            p.add("lambda and beta are matching nontrivial cube roots of 1", (la, bv) in ((LAMBDA, BETA), other) and be.norm, repr(d), "computation")
            p.add("both lattice vectors annihilate lambda", (a1 + b1 * la) % N == 0 and (a2 + b2 * la) % N == 0 and a1 * b2 - a2 * b1 in (N, -N), repr(d), "computation")
            p.add("the lattice vectors are short", max(abs(v) for v in (a1, b1, a2, b2)) < 1 << 129, repr(d), "computation")
            if (la, bv, a1, b1, a2, b2) != (LAMBDA, BETA, A1, B1, A2, B2):
                p.undecided("endomorphism constants", "other valid constants than those assumed in C03: %r" % d)
        for n, base in (("bytePoints", ONE), ("bytePointsH", H_EXP)):
            if n in names:
                t = g(n)
                p.add("%s is the loaded table" % n, isinstance(t, Ptr) and f.heap[t.obj] == Table(base), "%r" % (t,))
        for n, v in (("fieldOne", 1),):
            k = "g:" + BT + "." + n
            if k in f.heap:
                x = fv(ex, f, f.heap[k])
                p.add("fieldOne is 1", x.v == P_(v) and x.norm, "%r" % (x,))
        if "g:" + BT + ".one" in f.heap:
            p.add("one is 1", ex.big(f, f.heap["g:" + BT + ".one"]) == ONE, "")
    p.add("requires: field contracts", not reqs, "; ".join(reqs[:3]))


def first_use(p):
    """S256 in the state after package initialisation, where the curve may not be set up yet: whatever it writes that
    others can see, it writes inside sync.Once"""
    ex, s1, reqs, loaded = package_init(p)
    s1.unsynced = []
    fs = live(p, "S256: ", run(ex, s1, BT + ".S256", []))
    for f in fs:
        bad = [w for w in f.unsynced if w[0] != "g:" + BT + ".initonce" and s1.meta.get(w[0], "fresh") != "fresh"]
        p.add("first use: S256 modifies the shared curve only under sync.Once", not bad, "writes to %s" % [(w[0], w[2]) for w in bad[:4]], "frame")
        f.out = None
        f.frames = []
        n = len(f.writes)
        for h in live(p, "S256 again: ", run(ex, f, BT + ".S256", [])):
            p.add("later use: S256 modifies nothing", len(h.writes) == n, "writes to %s" % [(w[0], w[3]) for w in h.writes[n:n + 4]], "frame")


def init_zk(p):
    """package initialisation of zksigma establishes the generators of TestCurve"""
    ex = p.executor(CURVE)
    st = base_state(ex)
    keys = [ZK + "." + n for n in ("TestCurve", "BigZero", "Zero")]
    for k in keys:
        st.heap["g:" + k] = ex.zero(ex.prog.under(ex.prog.globals[k])["e"])
    inits = [n for n in p.prog.funcs if n.startswith(ZK + ".init#")]
    calls = [i["fn"]["n"] for b in p.prog.funcs[ZK + ".init"]["blocks"] for i in b["i"] if i["o"] == "call" and isinstance(i["fn"], dict)]
    for n in set(calls):
        if n.endswith(".init"):
            ex.contracts[n] = lambda ex, st, a, ins: None
    ex.contracts["flag.Bool"] = lambda ex, st, a, ins: st.new(a[1], "global")
    st.heap["g:" + ZK + ".init$guard"] = False
    st.meta["g:" + ZK + ".init$guard"] = "global"
    p.add("the initialisers run", all(n in calls for n in inits), "%s" % (set(inits) - set(calls),))
    for f in live(p, "", run(ex, st, ZK + ".init", [])):
        tc = f.heap["g:" + ZK + ".TestCurve"]
        g = lambda n: field(ex, ZK + ".ZKPCurveParams", tc, n)
        p.add("C is the curve of btcec", g("C") == Iface(KC, Ptr("g:" + BT + ".secp256k1")), "%r" % (g("C"),))
        p.holds("G is the base point", f, f_cong(exp_of(ex, f, *g("G").f) - 1))
        p.holds("H is the base of the second table", f, f_cong(exp_of(ex, f, *g("H").f) - H_EXP))
        hp = g("HPoints")
        p.add("there are 64 range generators", hp.len == P_(64), "%r" % (hp.len,))
        for i in range(64):
            q = ex.load(f, Ptr(hp.ptr.obj, hp.ptr.path + ((hp.off + i).cval(),)))
            p.holds("HPoints[%d] is 2^%d G" % (i, i), f, f_cong(exp_of(ex, f, *q.f) - (1 << i)))
        bz = f.heap["g:" + ZK + ".BigZero"]
        p.add("BigZero is 0", ex.big(f, bz) == ZERO, "")
        z = f.heap["g:" + ZK + ".Zero"]
        p.add("Zero is (0, 0)", all(ex.big(f, c) == ZERO for c in z.f), "")
        p.add("DEBUG is off", ex.load(f, f.heap["g:" + ZK + ".DEBUG"]) is False, "")


def inverse_(a):
    return pow(a, -1, PP)


def aff_add(A, B):
    if A is None:
        return B
    if B is None:
        return A
    if A[0] == B[0]:
        if (A[1] + B[1]) % PP == 0:
            return None
        l = 3 * A[0] * A[0] * inverse_(2 * A[1]) % PP
    else:
        l = (B[1] - A[1]) * inverse_(B[0] - A[0]) % PP
    x = (l * l - A[0] - B[0]) % PP
    return x, (l * (A[0] - x) - A[1]) % PP


def h_point():
    """the published second generator: x = SHA-256(Gx + 2), even y"""
    x = int.from_bytes(hashlib.sha256((GX + 2).to_bytes(32, "big")).digest(), "big")
    y = pow(x ** 3 + 7, (PP + 1) // 4, PP)
    return x, (y if y % 2 == 0 else PP - y)


def table(p, which):
    """the data of a table: entry [i][b] represents b * 256^(31-i) times the base"""
    name = BT + "." + which
    strs = [i["v"]["str"] for b in p.prog.funcs[BT + ".init"]["blocks"] for i in b["i"]
            if i["o"] == "store" and isinstance(i["a"], dict) and i["a"].get("n") == name and isinstance(i["v"], dict) and "str" in i["v"]]
    p.functions.add(BT + ".init")
    if len(strs) != 1:
        raise Unsupported("the data of the table are not one constant")
    try:
        raw = zlib.decompress(base64.b64decode(strs[0], validate=False))
    except Exception as e:
        p.add("the data decode", False, str(e), "computation")
        return
    p.add("the data have 32*256 entries", len(raw) == 32 * 256 * 120, "%d bytes" % len(raw), "computation")
    if len(raw) != 32 * 256 * 120:
        return
    import struct
    w = struct.unpack("<%dI" % (len(raw) // 4), raw)
    base = (GX, GY) if which == "secp256k1BytePoints" else h_point()
    p.add("the base is on the curve", (base[1] ** 2 - base[0] ** 3 - 7) % PP == 0, "", "computation")
    lim = [b for b in (((1 << 26) - 1,) * 9 + ((1 << 22) - 1,))]
    lim[2] = (1 << 26) + (1 << 21)
    rows = [None] * 32
    cur = base
    for i in range(31, -1, -1):
        row = [None]
        for b in range(1, 257):
            row.append(aff_add(row[-1], cur))
        rows[i] = row
        cur = row[256]
    bad, big_, words0 = [], [], []
    for i in range(32):
        for b in range(256):
            o = (i * 256 + b) * 30
            c = [w[o:o + 10], w[o + 10:o + 20], w[o + 20:o + 30]]
            X, Y, Z = [sum(x << (26 * k) for k, x in enumerate(v)) for v in c]
            for k, v in enumerate(c):
                if any(x > 2 * l for x, l in zip(v, lim)) or (k == 2 and any(x > l for x, l in zip(v, lim))):
                    big_.append((i, b))
            q = rows[i][b]
            if q is None:
                if any(any(v) for v in c):
                    bad.append((i, b))
            else:
                Z2 = Z * Z % PP
                if Z % PP == 0 or (q[0] * Z2 - X) % PP or (q[1] * Z2 * Z - Y) % PP:
                    bad.append((i, b))
    p.add("every entry represents its multiple (identity by zero words)", not bad, "entries %s" % bad[:5], "computation")
    p.add("every entry has magnitude at most 2 (1 for z)", not big_, "entries %s" % big_[:5], "computation")
    if which == "secp256k1BytePointsH":
        p.add("the x coordinate of H is SHA-256 of Gx + 2, the even y", base[0] < PP and base[0] != GX and base[1] % 2 == 0, "", "computation")
