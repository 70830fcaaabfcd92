"""Encodings (C24, C25, C26): the wire package, points and integers, and every proof.

A buffer is a sequence of segments: ("vi", v) stands for the variable-length encoding of v, ("int", v) for what
WriteBigInt writes, ("pt", x, y) for what WriteECPoint writes, ("cut", k, segment...) for the first k bytes of a
segment that is longer, ("raw", name, offset, length) for arbitrary bytes.
"""
from .pointp import *
from .scalarp import entry_phis, force_phis

WI = "github.com/mit-dci/zksigma/wire"
FL = "(" + WI + ".binaryFreeList)."
M64 = (1 << 64) - 1
MAXI = 1 << 256
WIRE, CODEC = {}, {}


def imp(a, b):
    return f_or(f_not(a), b)


def ne(a):
    return f_not(f_eq(a))


# ---------------------------------------------------------------- free list
def freelist(ex, st, fr, ins):
    """non-blocking select on the free list.  Invariant: the buffers in it have capacity 8 and nobody else uses them."""
    ss = ins["states"]
    if ins["blocking"] or len(ss) != 1:
        raise Unsupported("select")
    s2 = st.clone()
    tail = () if ss[0]["send"] else (NIL,)

    def ret(s, v):
        f = s.frames[-1]
        f.env[ins["r"]] = v
        f.idx += 1
        return s
    if ss[0]["send"]:
        v = ex.val(st, fr, ss[0]["v"])
        if not isinstance(v, Slice) or v.ptr is None:
            raise Unsupported("free list of something else")
        bad = []
        if v.cap != P_(8) or v.off != ZERO:
            bad.append("a buffer of capacity %r at %r goes into the free list" % (v.cap, v.off))
        if st.meta.get(v.ptr.obj) != "fresh":
            bad.append("a buffer that is in use elsewhere goes into the free list")
        st.ghost["freelist"] = st.ghost.get("freelist", ()) + tuple(bad)
        # from here on another goroutine may use it
        st.heap[v.ptr.obj] = BytesV([("raw", "reused%d" % fresh_id(), ZERO, P_(8))])
        st.meta[v.ptr.obj] = RETURNED
        return [ret(st, (ZERO, False) + tail), ret(s2, (P_(-1), False) + tail)]
    L = var("buflen", 0, 8)
    o = st.new(BytesV([("raw", "old%d" % fresh_id(), ZERO, P_(8))]))
    return [ret(st, (ZERO, True, Slice(o, ZERO, L, P_(8)))), ret(s2, (P_(-1), False, NIL))]


def fl_ok(p, name, finals):
    bad = sorted({b for f in finals for b in f.ghost.get("freelist", ())})
    p.add(name + "the free list holds only unused buffers of capacity 8", not bad, "; ".join(bad[:3]))


def w_exec(p, C=None, **opts):
    ex = p.executor(C or {}, select=freelist, **opts)
    st = State()
    st.heap["g:" + WI + ".binarySerializer"] = Opq(("freelist",))
    st.meta["g:" + WI + ".binarySerializer"] = "global"
    for n in ("littleEndian", "bigEndian"):
        st.heap["g:" + WI + "." + n] = StructV([])
        st.meta["g:" + WI + "." + n] = "global"
    return ex, st


def rd_buf(st, segs, t="vc.reader"):
    o = st.new(ModelV("buf", norm_segs(segs)), "stream")
    return Iface(t, o), o


def stream_frames(p, name, finals):
    bad = [w for f in finals for w in f.writes if w[2] != "stream"]
    p.add(name + "writes nothing but the stream", not bad, "writes to %s" % [(w[2], w[3]) for w in bad[:4]])


def rb(k):
    return Poly.atom(mk_atom("rawbyte", ("in", P_(k)), 0, 255))


def le(n):
    r = ZERO
    for k in range(n):
        r = r + rb(1 + k) * 256 ** k
    return r


FORMS = ((0xfd, 2, 0xfd), (0xfe, 4, 1 << 16), (0xff, 8, 1 << 32))     # prefix, bytes, least value


def rest_off(f, o, L):
    """how much of the raw input has been consumed"""
    segs = f.heap[o.obj].d
    if not segs:
        return L
    if len(segs) != 1 or segs[0][0] != "raw" or segs[0][1] != "in":
        raise Unsupported("the stream is %r" % (segs,))
    return segs[0][2]


def iserr(v):
    if v is NIL:
        return False
    if isinstance(v, Iface):
        return True
    raise Unsupported("error %r" % (v,))


def random_uint64(p):
    """RandomUint64: the value of eight bytes of the random source, each in its own place, or an error"""
    ex, st = w_exec(p)
    L = var("L", 0, 1 << 50)
    r, o = rd_buf(st, [("raw", "in", ZERO, L)])
    st.heap["g:crypto/rand.Reader"] = r
    st.meta["g:crypto/rand.Reader"] = "global"
    fs = run(ex, st, WI + ".RandomUint64", [])
    n = 0
    for f in live(p, "", fs):
        v, err = f.out[1]
        if iserr(err):
            p.holds("an error only if the source has less than 8 bytes", f, f_lt(L, P_(8)))
            p.add("no value with an error", ex.resolve(f, v) == ZERO, "%r" % (v,))
            continue
        n += 1
        p.holds("ensures that the source has given 8 bytes", f, f_le(P_(8), L))
        v = f.pc.norm(ex.resolve(f, v))
        k = sorted(v.t.items(), key=lambda t: abs(t[1]))
        p.add("ensures a value in which each of 8 random bytes has its own place",
              [c for _, c in k] == [256 ** i for i in range(8)] and len({m for m, _ in k}) == 8
              and all(len(m) == 1 and ATOMS[m[0]].kind == "rawbyte" for m, _ in k), "%r" % (v,))
    p.add("vacuity: there is a value", n > 0, "")
    stream_frames(p, "", fs)
    fl_ok(p, "", fs)


def read_varint(p):
    """accepts exactly the canonical encodings, returns their value and consumes exactly their bytes"""
    ex, st = w_exec(p)
    L = var("L", 0, 1 << 50)
    r, o = rd_buf(st, [("raw", "in", ZERO, L)])
    fs = run(ex, st, WI + ".ReadVarInt", [r])
    ok = [f_and(f_le(ONE, L), f_le(rb(0), P_(0xfc)))]
    for d, n, m in FORMS:
        ok.append(f_and(f_le(P_(n + 1), L), f_eq(rb(0) - d), f_le(P_(m), le(n))))
    good = f_or(*ok)
    for f in live(p, "", fs):
        v, err = f.out[1]
        if iserr(err):
            p.holds("an error only for input that does not begin with a canonical encoding", f, f_not(good))
            continue
        p.holds("accepts only canonical encodings that are complete", f, good)
        used = rest_off(f, o, L)
        p.holds("one byte form: the value", f, imp(ok[0], f_and(f_eq(v - rb(0)), f_eq(used - 1))))
        for (d, n, m), c in zip(FORMS, ok[1:]):
            p.holds("form %#x: the value of the bytes, all consumed" % d, f, imp(c, f_and(f_eq(v - le(n)), f_eq(used - n - 1))))
    stream_frames(p, "", fs)
    fl_ok(p, "", fs)


def forms(v):
    """(condition, canonical bytes) of the encoding of v"""
    out = [(f_le(v, P_(0xfc)), [("b", v)])]
    up = {0xfd: 0xffff, 0xfe: 0xffffffff, 0xff: M64}
    for d, n, m in FORMS:
        out.append((f_and(f_le(P_(m), v), f_le(v, P_(up[d]))), [("b", P_(d))] + [("b", t_low(t_quo(v, 256 ** k), 8)) for k in range(n)]))
    return out


def seg_same(f, segs, want):
    return same_bytes(f.pc, segs, want)


def write_varint(p):
    """writes exactly the canonical encoding, or passes the writer's error on"""
    for t in ("vc.writer", "*bytes.Buffer"):
        ex, st = w_exec(p)
        v = var("v", 0, M64)
        w, o = rd_buf(st, [], t)
        fs = run(ex, st, WI + ".WriteVarInt", [w, v])
        hit = set()
        for f in live(p, "", fs):
            err = f.out[1]
            if f.ghost.get("writefailed"):
                p.add("a failed write is reported", iserr(err), "returns nil after a failed write; path %s" % show_pc(f.pc))
                continue
            p.add("no error when all writes succeed", not iserr(err), "error on path %s" % show_pc(f.pc))
            for i, (c, want) in enumerate(forms(v)):
                if f.pc.entails(f_not(c)) is True:
                    continue
                hit.add(i)
                g = f.clone()
                g.pc.add(c)
                segs = f.heap[o.obj].d
                p.add("ensures the %d byte encoding" % len(want), seg_same(g, segs, want), "writes %r on path %s" % (segs, show_pc(g.pc)))
        p.add("vacuity: all four forms are written", hit == {0, 1, 2, 3}, "%s" % hit)
        stream_frames(p, "", fs)
        fl_ok(p, "", fs)


def varint_size(p):
    ex, st = w_exec(p)
    v = var("v", 0, M64)
    fs = run(ex, st, WI + ".VarIntSerializeSize", [v])
    for f in live(p, "", fs):
        for c, want in forms(v):
            p.holds("ensures the size of the %d byte encoding" % len(want), f, imp(c, f_eq(f.out[1] - len(want))))
    stream_frames(p, "", fs)


def varint_roundtrip(p):
    """reading back what was written gives the value and leaves the rest; every strict prefix is refused"""
    v = var("v", 0, M64)
    R = ("raw", "rest", ZERO, var("R", 0, 1 << 40))
    for i, (c, want) in enumerate(forms(v)):
        for cut in [None] + list(range(len(want))):
            ex, st = w_exec(p)
            st.pc.add(c)
            segs = want + [R] if cut is None else want[:cut]
            r, o = rd_buf(st, segs)
            for f in live(p, "", run(ex, st, WI + ".ReadVarInt", [r])):
                w, err = f.out[1]
                if cut is None:
                    p.add("the %d byte encoding is accepted" % len(want), not iserr(err), "error on path %s" % show_pc(f.pc))
                    if not iserr(err):
                        p.holds("the %d byte encoding reads back" % len(want), f, f_eq(w - v))
                        p.add("the bytes after it are left", same_bytes(f.pc, f.heap[o.obj].d, (R,)), "left: %r" % (f.heap[o.obj].d,))
                else:
                    p.add("%d of %d bytes are refused" % (cut, len(want)), iserr(err), "returns %r" % (w,))


# ---------------------------------------------------------------- contracts of the variable-length integers
def stream_of(ex, st, r):
    r = ex.resolve(st, r)
    if not isinstance(r, Iface) or r.t not in ("*bytes.Buffer", "*bytes.Reader", "vc.reader", "vc.writer"):
        raise Unsupported("stream %r" % (r,))
    v = ex.load(st, r.v)
    if not isinstance(v, ModelV) or v.kind != "buf":
        raise Unsupported("not a buffer")
    return r.t, r.v, v.d


def put_segs(st, o, segs):
    st.heap[o.obj] = set_path(st.heap[o.obj], o.path, ModelV("buf", norm_segs(segs)))
    if st.meta[o.obj] not in ("fresh", "stream"):
        st.writes.append((o.obj, o.path, st.meta[o.obj], st.frames[-1].fn if st.frames else "", "buffer"))


def expand(ex, st, segs):
    """write an ("int", v) or ("pt", x, y) out in full"""
    if segs and segs[0][0] == "int":
        v = segs[0][1]
        neg = ex.decide(st, f_lt(v, ZERO))
        m = -v if neg else v
        return (("vi", 1 + t_blen(m)), ("b", P_(1 if neg else 0)), ("be", m)) + tuple(segs[1:])
    if segs and segs[0][0] == "pt":
        x, y = segs[0][1:]
        return norm_segs((("vi", t_blen(x)), ("be", x), ("vi", t_blen(y)), ("be", y)) + tuple(segs[1:]))
    return segs


@contract(WIRE, WI + ".WriteVarInt", "ensures the canonical encoding is appended, or the error of the writer is returned")
def _(ex, st, a, ins):
    t, o, segs = stream_of(ex, st, a[0])
    v = ex.resolve(st, a[1])
    if t == "vc.writer":
        b = Poly.atom(mk_atom("var", ("writefail", fresh_id()), 0, 1, True))
        s2 = st.clone()
        st.pc.add(f_eq(b, ZERO))
        s2.pc.add(f_eq(b, ONE))
        s2.ghost["writefailed"] = 1
        put_segs(st, o, segs + (("vi", v),))
        return [(st, NIL), (s2, new_err(s2, "write"))]
    put_segs(st, o, segs + (("vi", v),))
    return NIL


def lose(st, o, s0):
    """a failed read may have consumed any part of the input"""
    k = var("lost", 0, 1 << 50)
    st.pc.add(f_le(k, s0[3]))
    put_segs(st, o, [("raw", s0[1], s0[2] + k, s0[3] - k)])


@contract(WIRE, WI + ".ReadVarInt", "ensures the value of the canonical encoding at the front of the stream, which is consumed; an error if there is none")
def _(ex, st, a, ins):
    t, o, segs = stream_of(ex, st, a[0])
    segs = expand(ex, st, segs)
    fail = lambda s: (ZERO, new_err(s, "varint"))
    if not segs or segs[0][0] == "cut":
        put_segs(st, o, ())
        return fail(st)
    s0 = segs[0]
    if s0[0] == "vi":
        put_segs(st, o, segs[1:])
        return (s0[1], NIL)
    if s0[0] == "b" and s0[1].is_const() and s0[1].cval() < 0xfd:
        put_segs(st, o, segs[1:])
        return (s0[1], NIL)
    if s0[0] == "raw" and len(segs) == 1:
        c = var("count", 0, M64)
        n = var("countlen", 1, 9)
        s2 = st.clone()
        st.pc.add(f_le(n, s0[3]))
        # the first form is the only one of one byte
        put_segs(st, o, [("raw", s0[1], s0[2] + n, s0[3] - n)])
        st.ghost["counts"] = st.ghost.get("counts", ()) + ((c, n),)
        s2.ghost["countfail"] = 1
        lose(s2, o, s0)
        return [(st, (c, NIL)), (s2, fail(s2))]
    return INLINE


# ---------------------------------------------------------------- byte arrays
def read_varbytes(p):
    ex, st = w_exec(p, WIRE)
    L = var("L", 0, 1 << 50)
    mx = var("max", 0, (1 << 32) - 1)
    r, o = rd_buf(st, [("raw", "in", ZERO, L)])
    fs = run(ex, st, WI + ".ReadVarBytes", [r, mx, Opq(("name",))])
    n = 0
    for f in live(p, "", fs):
        b, err = f.out[1]
        for k, what, pos in f.ghost.get("allocs", ()):
            p.holds("allocates at most the limit", f, f_le(k, mx), "make of %r at %s" % (k, pos))
        cs = f.ghost.get("counts", ())
        if iserr(err):
            if cs:
                c, cl = cs[0]
                p.holds("an error only beyond the limit or if bytes are missing", f, f_or(f_lt(mx, c), f_lt(L - cl, c)))
            else:
                p.add("the error of the length is passed on", f.ghost.get("countfail") == 1, "error on path %s" % show_pc(f.pc))
            continue
        n += 1
        p.add("a length was read", len(cs) == 1 and not f.ghost.get("countfail"), "%r" % (cs,))
        c, cl = cs[0]
        p.holds("ensures a length within the limit", f, f_le(c, mx))
        s = ex.resolve(f, b)
        p.holds("ensures as many bytes as announced", f, f_eq(s.len - c))
        got = ex.bytes_of(f, s) if s.ptr is not None else ()
        same = same_bytes(f.pc, got, (("raw", "in", cl, c),)) or f.pc.entails(f_eq(c)) is True
        p.add("ensures the bytes of the stream", same, "%r on path %s" % (got, show_pc(f.pc)))
        p.add("ensures a new array", s.ptr is None or f.meta.get(s.ptr.obj) == "fresh", "")
        p.holds("consumes exactly the encoding", f, f_eq(rest_off(f, o, L) - cl - c))
    p.add("vacuity: reading succeeds on some path", n > 0, "")
    stream_frames(p, "", fs)


def write_varbytes(p):
    """round trip of byte arrays; errors of the writer; strict prefixes"""
    n = var("n", 0, 1 << 40)
    for t in ("vc.writer", "*bytes.Buffer"):
        ex, st = w_exec(p, WIRE)
        w, o = rd_buf(st, [], t)
        b = st.new(BytesV([("raw", "data", ZERO, n)]), "input")
        fs = run(ex, st, WI + ".WriteVarBytes", [w, Slice(b, ZERO, n, n)])
        for f in live(p, "", fs):
            if f.ghost.get("writefailed"):
                p.add("a failed write is reported", iserr(f.out[1]), "returns nil after a failed write")
                continue
            p.add("no error when all writes succeed", not iserr(f.out[1]), "")
            p.add("ensures length and bytes", same_bytes(f.pc, f.heap[o.obj].d, (("vi", n), ("raw", "data", ZERO, n))), "%r" % (f.heap[o.obj].d,))
        stream_frames(p, "", fs)
    mx = var("max", 0, (1 << 32) - 1)
    R = ("raw", "rest", ZERO, var("R", 0, 1 << 40))
    ex, st = w_exec(p, WIRE)
    st.pc.add(f_le(n, mx))
    r, o = rd_buf(st, [("vi", n), ("raw", "data", ZERO, n), R])
    for f in live(p, "", run(ex, st, WI + ".ReadVarBytes", [r, mx, Opq(("name",))])):
        b, err = f.out[1]
        p.add("reads back without error", not iserr(err), "error on path %s" % show_pc(f.pc))
        if not iserr(err):
            s = ex.resolve(f, b)
            got = ex.bytes_of(f, s) if s.ptr is not None else ()
            p.add("reads back the bytes", got == (("raw", "data", ZERO, n),) or f.pc.entails(f_eq(n)) is True, "%r" % (got,))
            p.add("leaves the rest", same_bytes(f.pc, f.heap[o.obj].d, (R,)), "%r" % (f.heap[o.obj].d,))
    k = var("k", 0, 1 << 40)
    for segs, c in (([], None), ([("cut", k, "vi", n)], None), ([("vi", n), ("raw", "data", ZERO, k)], f_lt(k, n))):
        ex, st = w_exec(p, WIRE)
        if c is not None:
            st.pc.add(c)
        r, o = rd_buf(st, segs)
        for f in live(p, "", run(ex, st, WI + ".ReadVarBytes", [r, mx, Opq(("name",))])):
            p.add("refuses a strict prefix", iserr(f.out[1][1]), "path %s" % show_pc(f.pc))


# ---------------------------------------------------------------- integers and points
def zk_state(p, C, **opts):
    ex, st = w_exec(p, C, **opts)
    z = StructV([big(st, ZERO, "global"), big(st, ZERO, "global")])
    for n, v in (("Zero", z), ("BigZero", big(st, ZERO, "global"))):
        st.heap["g:" + ZK + "." + n] = v
        st.meta["g:" + ZK + "." + n] = "global"
    return ex, st


def bigs(ex, f, v):
    v = ex.resolve(f, v)
    if v is NIL or v is None:
        return None
    return ex.big(f, v)


def below256(f, v):
    """|v| < 2^256; the value of n bytes is below 256^n"""
    if f.pc.entails(f_and(f_lt(P_(-MAXI), v), f_lt(v, P_(MAXI)))) is True:
        return True
    a = v.single_atom()
    a = (-v).single_atom() if a is None else a
    a = None if a is None else T.ATOMS[a]
    return a is not None and a.kind == "rawval" and f.pc.entails(f_le(a.args[2], P_(32))) is True


def allocs_ok(p, name, f, have):
    for k, what, pos in f.ghost.get("allocs", ()):
        p.holds(name + "allocates in proportion to the input or a fixed limit", f, f_or(f_le(k, P_(1 << 17)), f_le(k, have)), "make of %r at %s" % (k, pos))


def bigint_codec(p):
    """WriteBigInt writes sign and magnitude; ReadBigInt inverts it, and is total on arbitrary bytes"""
    # writing: any integer, any writer
    for t in ("vc.writer", "*bytes.Buffer"):
        ex, st = zk_state(p, WIRE)
        v = var("v", 1 - (1 << 8192), (1 << 8192) - 1)
        w, o = rd_buf(st, [], t)
        fs = run(ex, st, ZK + ".WriteBigInt", [w, big(st, v)])
        for f in live(p, "WriteBigInt: ", fs):
            if f.ghost.get("writefailed"):
                p.add("WriteBigInt: a failed write is reported", iserr(f.out[1]), "returns nil after a failed write")
                continue
            p.add("WriteBigInt: no error when all writes succeed", not iserr(f.out[1]), "")
            g = f.clone()
            want = expand(ex, g, (("int", v),))
            p.add("WriteBigInt: ensures length, sign and magnitude", same_bytes(f.pc, f.heap[o.obj].d, want), "%r, not %r" % (f.heap[o.obj].d, want))
        stream_frames(p, "WriteBigInt: ", fs)
    # reading back
    v = var("v", 1 - MAXI, MAXI - 1)
    R = ("raw", "rest", ZERO, var("R", 0, 1 << 40))
    for neg in (False, True):
        for zero in (False, True):
            if neg and zero:
                continue
            ex, st = zk_state(p, WIRE)
            st.pc.add(f_eq(v) if zero else f_lt(v, ZERO) if neg else f_lt(ZERO, v))
            segs = expand(ex, st, (("int", v),)) if not zero else (("b", ONE), ("b", ZERO))
            r, o = rd_buf(st, tuple(segs) + (R,))
            fs = run(ex, st, ZK + ".ReadBigInt", [r])
            for f in live(p, "ReadBigInt: ", fs):
                x, err = f.out[1]
                p.add("ReadBigInt: accepts what WriteBigInt writes", not iserr(err), "error on path %s" % show_pc(f.pc))
                if iserr(err):
                    continue
                x = bigs(ex, f, x)
                p.add("ReadBigInt: returns an integer", x is not None, "nil")
                if x is not None:
                    p.holds("ReadBigInt: reads the value back", f, f_eq(x - v))
                p.add("ReadBigInt: leaves the rest", same_bytes(f.pc, f.heap[o.obj].d, (R,)), "%r" % (f.heap[o.obj].d,))
            stream_frames(p, "ReadBigInt: ", fs)
            # strict prefixes: in the length, before the sign, in the magnitude
            k = var("k", 0, 40)
            cuts = [[("cut", k) + segs[0]], [segs[0]]] + ([[segs[0], segs[1], ("cut", k) + segs[2]]] if len(segs) > 2 else [])
            for c in cuts:
                ex, st = zk_state(p, WIRE)
                st.pc.add(f_eq(v) if zero else f_lt(v, ZERO) if neg else f_lt(ZERO, v))
                if c[-1][0] == "cut":
                    st.pc.add(f_lt(k, seglen(c[-1][2:])))
                r, o = rd_buf(st, c)
                for f in [f for f in run(ex, st, ZK + ".ReadBigInt", [r]) if f.pc.feasible()]:
                    if f.out[0] == "panic":
                        p.add("ReadBigInt: does not panic on a prefix", False, "%s at %s" % (f.out[1], f.out[2]))
                        continue
                    p.add("ReadBigInt: refuses a strict prefix", iserr(f.out[1][1]), "%r accepted" % (c,))
    # arbitrary bytes
    ex, st = zk_state(p, WIRE)
    L = var("L", 0, 1 << 50)
    r, o = rd_buf(st, [("raw", "in", ZERO, L)])
    fs = run(ex, st, ZK + ".ReadBigInt", [r])
    for f in live(p, "ReadBigInt: ", fs):
        x, err = f.out[1]
        allocs_ok(p, "ReadBigInt: ", f, ZERO)
        if iserr(err):
            p.add("ReadBigInt: no value with an error", ex.resolve(f, x) is NIL, "%r" % (x,))
            continue
        x = bigs(ex, f, x)
        p.add("ReadBigInt: a value without an error", x is not None, "nil without an error")
        if x is not None:
            p.add("ReadBigInt: the magnitude is below 2^256", below256(f, x), "%r on path %s" % (x, show_pc(f.pc)))
        used = rest_off(f, o, L)
        p.holds("ReadBigInt: consumes at least two bytes", f, f_and(f_le(P_(2), used), f_le(used, L)))
        p.add("ReadBigInt: the length was read", not f.ghost.get("countfail"), "no error although the length cannot be read")


def point_codec(p):
    """WriteECPoint writes both coordinates; ReadECPoint inverts it, and is total on arbitrary bytes"""
    x, y = var("x", 0, MAXI - 1), var("y", 0, MAXI - 1)
    full = (("vi", t_blen(x)), ("be", x), ("vi", t_blen(y)), ("be", y))
    for t in ("vc.writer", "*bytes.Buffer"):
        ex, st = zk_state(p, WIRE)
        w, o = rd_buf(st, [], t)
        fs = run(ex, st, ZK + ".WriteECPoint", [w, StructV([big(st, x), big(st, y)])])
        for f in live(p, "WriteECPoint: ", fs):
            if f.ghost.get("writefailed"):
                p.add("WriteECPoint: a failed write is reported", iserr(f.out[1]), "returns nil after a failed write")
                continue
            p.add("WriteECPoint: no error when all writes succeed", not iserr(f.out[1]), "")
            p.add("WriteECPoint: ensures both coordinates", same_bytes(f.pc, f.heap[o.obj].d, full), "%r" % (f.heap[o.obj].d,))
        stream_frames(p, "WriteECPoint: ", fs)
    R = ("raw", "rest", ZERO, var("R", 0, 1 << 40))
    ex, st = zk_state(p, WIRE)
    r, o = rd_buf(st, full + (R,))
    fs = run(ex, st, ZK + ".ReadECPoint", [r])
    for f in live(p, "ReadECPoint: ", fs):
        q, err = f.out[1]
        p.add("ReadECPoint: accepts what WriteECPoint writes", not iserr(err), "error on path %s" % show_pc(f.pc))
        if iserr(err):
            continue
        got = [bigs(ex, f, c) for c in ex.resolve(f, q).f]
        p.add("ReadECPoint: returns coordinates", None not in got, "nil")
        if None not in got:
            p.holds("ReadECPoint: reads the coordinates back", f, f_and(f_eq(got[0] - x), f_eq(got[1] - y)), "%r" % (got,))
        p.add("ReadECPoint: leaves the rest", same_bytes(f.pc, f.heap[o.obj].d, (R,)), "%r" % (f.heap[o.obj].d,))
    stream_frames(p, "ReadECPoint: ", fs)
    k = var("k", 0, 40)
    for i in range(4):
        ex, st = zk_state(p, WIRE)
        st.pc.add(f_lt(k, seglen(full[i])))
        r, o = rd_buf(st, full[:i] + (("cut", k) + full[i],))
        for f in [f for f in run(ex, st, ZK + ".ReadECPoint", [r]) if f.pc.feasible()]:
            if f.out[0] == "panic":
                p.add("ReadECPoint: does not panic on a prefix", False, "%s at %s" % (f.out[1], f.out[2]))
                continue
            p.add("ReadECPoint: refuses a strict prefix", iserr(f.out[1][1]), "path %s" % show_pc(f.pc))
    ex, st = zk_state(p, WIRE)
    L = var("L", 0, 1 << 50)
    r, o = rd_buf(st, [("raw", "in", ZERO, L)])
    fs = run(ex, st, ZK + ".ReadECPoint", [r])
    for f in live(p, "ReadECPoint: ", fs):
        q, err = f.out[1]
        allocs_ok(p, "ReadECPoint: ", f, ZERO)
        if iserr(err):
            continue
        got = [bigs(ex, f, c) for c in ex.resolve(f, q).f]
        p.add("ReadECPoint: coordinates without an error", None not in got, "nil without an error")
        if None not in got:
            p.add("ReadECPoint: coordinates are below 2^256", all(below256(f, c) for c in got), "%r on path %s" % (got, show_pc(f.pc)))
        used = rest_off(f, o, L)
        p.holds("ReadECPoint: consumes at least two bytes", f, f_and(f_le(P_(2), used), f_le(used, L)))
        p.add("ReadECPoint: both lengths were read", not f.ghost.get("countfail"), "no error although a length cannot be read")


CODEC.update(WIRE)


def wr(name, text):
    return contract(CODEC, ZK + "." + name, text)


@wr("WriteBigInt", "ensures the encoding of sign and magnitude is appended")
def _(ex, st, a, ins):
    t, o, segs = stream_of(ex, st, a[0])
    if t == "vc.writer":
        return INLINE
    put_segs(st, o, segs + (("int", ex.big(st, a[1])),))
    return NIL


@wr("WriteECPoint", "requires coordinates; ensures the encoding of both coordinates is appended")
def _(ex, st, a, ins):
    t, o, segs = stream_of(ex, st, a[0])
    if t == "vc.writer":
        return INLINE
    q = ex.resolve(st, a[1])
    x, y = [absval_(ex, st, ex.big(st, c)) for c in q.f]
    put_segs(st, o, segs + (("pt", x, y),))
    return NIL


def absval_(ex, st, x):
    lo, hi = iv(x)
    if lo is None or lo < 0:
        raise Unsupported("negative coordinate")
    return x


def read_raw(ex, st, o, segs, mk, nothing, lo, hi):
    """a value from arbitrary bytes, or an error"""
    n = var("used", lo, hi)
    s2 = st.clone()
    s0 = segs[0]
    st.pc.add(f_le(n, s0[3]))
    put_segs(st, o, [("raw", s0[1], s0[2] + n, s0[3] - n)])
    lose(s2, o, s0)
    s2.ghost["readfail"] = 1
    return [(st, (mk(st), NIL)), (s2, (nothing(s2), new_err(s2, "read")))]


@wr("ReadBigInt", "ensures the integer at the front of the stream, below 2^256 in magnitude; an error and nil if there is none")
def _(ex, st, a, ins):
    t, o, segs = stream_of(ex, st, a[0])
    if not segs or segs[0][0] == "cut":
        put_segs(st, o, ())
        st.ghost["readfail"] = 1
        return (NIL, new_err(st, "read"))
    if segs[0][0] == "int" and fits256(segs[0][1]):
        put_segs(st, o, segs[1:])
        return (st.new(BigV(segs[0][1])), NIL)
    if segs[0][0] == "raw" and len(segs) == 1:
        return read_raw(ex, st, o, segs, lambda s: s.new(BigV(var("int", 1 - MAXI, MAXI - 1))), lambda s: NIL, 2, 34)
    return INLINE


@wr("ReadECPoint", "ensures the point at the front of the stream, coordinates below 2^256; an error if there is none")
def _(ex, st, a, ins):
    t, o, segs = stream_of(ex, st, a[0])
    zero = lambda s: ex.load(s, Ptr("g:" + ZK + ".Zero"))
    if not segs or segs[0][0] == "cut":
        put_segs(st, o, ())
        st.ghost["readfail"] = 1
        return (zero(st), new_err(st, "read"))
    if segs[0][0] == "pt" and fits256(segs[0][1]) and fits256(segs[0][2]):
        put_segs(st, o, segs[1:])
        return (StructV([st.new(BigV(c)) for c in segs[0][1:]]), NIL)
    if segs[0][0] == "raw" and len(segs) == 1:
        mk = lambda s: StructV([s.new(BigV(var("coord", 0, MAXI - 1))) for _ in range(2)])
        return read_raw(ex, st, o, segs, mk, zero, 2, 66)
    return INLINE


# ---------------------------------------------------------------- proofs
KINDS = ("GSPFSProof", "EquivalenceProof", "ConsistencyProof", "DisjunctiveProof", "ABCProof", "RangeProof")


def symbolic(ex, st, t, path, n):
    """an object of type t with arbitrary integers and coordinates below 2^256; lists have n elements"""
    prog = ex.prog
    if prog.tname(t).endswith("zksigma.ECPoint"):
        return StructV([big(st, var(path + "." + c, 0, MAXI - 1)) for c in "XY"])
    u = prog.under(t)
    if u["k"] == "ptr":
        if prog.tname(u["e"]).endswith("big.Int"):
            return big(st, var(path, 1 - MAXI, MAXI - 1))
        return st.new(symbolic(ex, st, u["e"], path, n), "input")
    if u["k"] == "struct":
        return StructV([symbolic(ex, st, f["t"], path + "." + f["n"], n) for f in u["f"]])
    if u["k"] == "slice" and not prog.is_bytes(u["e"]):
        a = [symbolic(ex, st, u["e"], "%s[%d]" % (path, i), n) for i in range(n)]
        return Slice(st.new(ArrV(a), "input") if n else None, ZERO, P_(n), P_(n))
    raise Unsupported("field of type " + prog.tname(t))


def flatten(ex, st, v, t, path=""):
    """the parts of an object: (path, integer or None)"""
    prog = ex.prog
    v = ex.resolve(st, v)
    u = prog.under(t)
    if u["k"] == "ptr":
        if v is NIL:
            return [(path, None)]
        if prog.tname(u["e"]).endswith("big.Int"):
            return [(path, ex.big(st, v))]
        return flatten(ex, st, ex.load(st, v), u["e"], path)
    if u["k"] == "struct":
        return [x for f, w in zip(u["f"], v.f) for x in flatten(ex, st, w, f["t"], path + "." + f["n"])]
    if u["k"] == "slice":
        out = [(path + ".len", v.len)]
        for i in range(as_int(v.len)):
            out += flatten(ex, st, ex.load(st, Ptr(v.ptr.obj, v.ptr.path + ((v.off + i).cval(),))), u["e"], "%s[%d]" % (path, i))
        return out
    raise Unsupported("part of type " + prog.tname(t))


def kind_roundtrip(p, kind, lens=(0,), prefixes=True):
    """Bytes, then New..FromBytes: equal fields; every strict prefix is refused"""
    tname = ZK + "." + kind
    t = p.prog.byname[tname]
    for n in lens:
        ex, st = zk_state(p, CODEC)
        tag = "" if kind != "RangeProof" else "[%d] " % n
        obj = st.new(symbolic(ex, st, t, kind, n), "input")
        want = flatten(ex, st, st.heap[obj.obj], t)
        fs = run(ex, st, "(*%s).Bytes" % tname, [obj])
        frames(p, tag + "Bytes ", fs)
        fs = live(p, tag + "Bytes: ", fs)
        if len(fs) != 1:
            raise Unsupported("Bytes has %d outcomes" % len(fs))
        b = ex.resolve(fs[0], fs[0].out[1])
        segs = ex.bytes_of(fs[0], b) if b.ptr is not None else ()
        pc = fs[0].pc

        def read(sg, extra=None):
            ex, st = zk_state(p, CODEC)
            st.pc = pc.clone()
            if extra is not None:
                st.pc.add(extra)
            sg = norm_segs(sg)
            m = seqlen(sg)
            src = st.new(BytesV(sg), "input")
            return ex, run(ex, st, "%s.New%sFromBytes" % (ZK, kind), [Slice(src, ZERO, m, m)])
        R = ("raw", "rest", ZERO, var("R", 0, 1 << 40))
        for what, tail in (("", ()), ("[data after it] ", (R,))):
            ex2, rs = read(tuple(segs) + tail)
            frames(p, tag + what + "reading ", rs)
            for f in live(p, tag + what + "reading ", rs):
                q, err = f.out[1]
                p.add(tag + what + "reading back succeeds", not iserr(err), "error on path %s" % show_pc(f.pc))
                if iserr(err):
                    continue
                if ex2.resolve(f, q) is NIL:
                    p.add(tag + what + "reading back gives a proof", False, "nil")
                    continue
                got = flatten(ex2, f, ex2.load(f, q), t)
                p.add(tag + what + "all parts are present", [a for a, _ in got] == [a for a, _ in want] and all(v is not None for _, v in got), "%s" % [a for a, v in got if v is None][:4])
                for (a, x), (b_, y) in zip(got, want):
                    if x is None or y is None or a != b_:
                        continue
                    if x == y:
                        p.add(tag + what + "%s reads back" % a, True)
                    else:
                        p.holds(tag + what + "%s reads back" % a, f, f_eq(x - y), "reads %r for %r" % (x, y))
        if not prefixes:
            continue
        k = var("k", 0, 1 << 40)
        for i in range(len(segs)):
            if segs[i][0] == "b":
                cut, extra = segs[:i], None
            else:
                cut, extra = segs[:i] + (("cut", k) + segs[i],), f_lt(k, seglen(segs[i]))
            ex3, rs = read(cut, extra)
            for f in rs:
                if not f.pc.feasible():
                    continue
                if f.out[0] == "panic":
                    p.add(tag + "does not panic on a strict prefix", False, "%s at %s" % (f.out[1], f.out[2]))
                    continue
                q, err = f.out[1]
                p.add(tag + "a strict prefix ending in part %d is refused" % i, iserr(err) and ex3.resolve(f, q) is NIL, "returns %r, %r" % (q, err))


def kind_arbitrary(p, kind):
    """New..FromBytes on arbitrary bytes: no panic, all parts present or an error and no proof, bounded allocation"""
    if kind == "RangeProof":
        return range_arbitrary(p)
    t = p.prog.byname[ZK + "." + kind]
    C = dict(CODEC)
    sub = [k for k in KINDS if k != kind and "%s.New%sFromBytes" % (ZK, k) in p.prog.funcs]
    for k in sub:
        @contract(C, "%s.New%sFromBytes" % (ZK, k), "ensures a proof with all parts, or an error and nil")
        def _(ex, st, a, ins, k=k):
            s2 = st.clone()
            o = st.new(symbolic(ex, st, ex.prog.byname[ZK + "." + k], k, 0))
            return [(st, (o, NIL)), (s2, (NIL, new_err(s2, "nested")))]
    ex, st = zk_state(p, C)
    L = var("L", 0, 1 << 50)
    src = st.new(BytesV([("raw", "in", ZERO, L)]), "input")
    fs = run(ex, st, "%s.New%sFromBytes" % (ZK, kind), [Slice(src, ZERO, L, L)])
    n = 0
    for f in live(p, "", fs):
        q, err = f.out[1]
        allocs_ok(p, "", f, L)
        if iserr(err):
            p.add("no proof with an error", ex.resolve(f, q) is NIL, "%r" % (q,))
            continue
        n += 1
        p.add("no error is hidden", not f.ghost.get("readfail") and not f.ghost.get("countfail"), "a part could not be read, but there is no error; path %s" % show_pc(f.pc))
        p.add("a proof without an error", ex.resolve(f, q) is not NIL, "nil without an error")
        if ex.resolve(f, q) is not NIL:
            got = flatten(ex, f, ex.load(f, q), t)
            p.add("all parts are present", all(v is not None for _, v in got), "%s" % [a for a, v in got if v is None][:4])
    p.add("vacuity: some bytes are accepted", n > 0, "")
    frames(p, "", fs)


class Elems:
    """A new list of symbolic length: elements below `done` are complete, the others as written here or zero."""

    def __init__(self, n, z, done=ZERO, w=()):
        self.n, self.z, self.done, self.w = n, z, P_(done), tuple(w)

    def select(self, k):
        for i, v in reversed(self.w):
            if P_(k) == i:
                return v
        if P_(k) == self.done:
            return self.z       # not written yet
        raise Unsupported("element %r of a list" % (k,))

    def update(self, k, v):
        k = P_(k)
        if k != self.done:
            raise Unsupported("element %r is written, the next one is %r" % (k, self.done))
        return Elems(self.n, self.z, self.done, tuple(x for x in self.w if x[0] != k) + ((k, v),))

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)


def range_arbitrary(p):
    """as kind_arbitrary; invariant of the loop over the tuples: those before i are complete"""
    FN = "%s.NewRangeProofFromBytes" % ZK
    t = p.prog.byname[ZK + ".RangeProof"]
    gen = {}
    back = []
    L = var("L", 0, 1 << 50)

    def symarray(ex, st, et, n, c):
        gen["et"] = et
        gen["n"] = n
        o = st.new(Elems(n, ex.zero(et)))
        gen["arr"] = o.obj
        return Slice(o, ZERO, n, c)

    def hook(ex, st, fr):
        if fr.fn != FN or len(st.frames) != 1:
            return None
        if gen.get("arr") is not None and gen["arr"] not in st.heap:
            return None     # on this path the list has a constant length
        flow = ex.prog.order(fr.fn)
        ph = entry_phis(ex, st, fr)
        if fr.prev in flow.loops[fr.block]:
            back.append((st.clone(), ph))
            return []
        if gen.get("hdr") is not None and gen["hdr"] != fr.block:
            raise Unsupported("another loop")
        idx = [v for v in ph if v[1] == ZERO]
        nils = [v for v in ph if v[1] is NIL]       # invariant: they stay nil
        if "arr" not in gen or len(idx) != 1 or len(ph) != 1 + len(nils):
            raise Unsupported("the loop has other variables than an index from 0")
        gen["idx"] = idx[0][0]
        gen["hdr"] = fr.block
        i = var("i", 0, M64)
        st.pc.add(f_le(i, gen["n"]))
        st.heap[gen["arr"]] = Elems(gen["n"], st.heap[gen["arr"]].z, i)
        bufs = [o for o, v in st.heap.items() if isinstance(v, ModelV) and v.kind == "buf"]
        if len(bufs) != 1:
            raise Unsupported("buffers")
        a = var("pos", 0, 1 << 50)
        st.pc.add(f_le(a, L))
        st.heap[bufs[0]] = ModelV("buf", (("raw", "in", a, L - a),))
        force_phis(ex, st, fr, [(idx[0][0], i)] + nils)
        st.ghost["i"] = i
        return [st]
    ex, st = zk_state(p, CODEC, loop_hook=hook, symarray=symarray)
    src = st.new(BytesV([("raw", "in", ZERO, L)]), "input")
    fs = run(ex, st, FN, [Slice(src, ZERO, L, L)])

    def complete(f, arr, upto, name):
        """elements below `upto` are complete"""
        v = f.heap[arr]
        for k, e in v.w:
            for a, x in flatten(ex, f, e, gen["et"]):
                p.add(name + "element i%s is present" % a, x is not None, "nil")
        got = v.done + 1 if any(k == v.done for k, _ in v.w) else v.done
        p.holds(name + "all elements so far are complete", f, f_le(upto, got), "complete below %r" % (got,))
    n = 0
    for f in live(p, "", fs):
        q, err = f.out[1]
        allocs_ok(p, "", f, L)
        if iserr(err):
            p.add("no proof with an error", ex.resolve(f, q) is NIL, "%r" % (q,))
            continue
        n += 1
        p.add("no error is hidden", not f.ghost.get("readfail") and not f.ghost.get("countfail"), "a part could not be read, but there is no error")
        p.add("a proof without an error", ex.resolve(f, q) is not NIL, "nil without an error")
        pr = ex.load(f, q)
        for fd, v in zip(ex.prog.under(t)["f"], pr.f):
            v = ex.resolve(f, v)
            if isinstance(v, Slice) and v.ptr is not None and isinstance(f.heap[v.ptr.obj], Elems):
                p.add("the list of tuples is the one that was filled", v.ptr.obj == gen["arr"] and v.off == ZERO, "%r" % (v,))
                complete(f, v.ptr.obj, v.len, "result: ")
            else:
                for a, x in flatten(ex, f, v, fd["t"], "." + fd["n"]):
                    p.add("part %s is present" % a, x is not None, "nil")
    for f, ph in back:
        if not f.pc.feasible():
            continue
        i = f.ghost["i"]
        p.add("no error is hidden in the loop", not f.ghost.get("readfail") and not f.ghost.get("countfail"), "a part could not be read, but the loop goes on")
        for r, v in ph:
            if r == gen["idx"]:
                p.holds("the loop counts up", f, f_eq(v - i - 1), "%r" % (v,))
            else:
                p.add("no error is carried into the next round", v is NIL, "%r" % (v,))
        complete(f, gen["arr"], i + 1, "step: ")
        b = [v for v in f.heap.values() if isinstance(v, ModelV) and v.kind == "buf"][0].d
        p.add("the rest of the input remains", len(b) == 1 and b[0][0] == "raw" and b[0][2] + b[0][3] == L, "%r" % (b,))
    p.add("vacuity: the loop is reached", bool(back), "")
    p.add("vacuity: some bytes are accepted", n > 0, "")
    frames(p, "", fs)
