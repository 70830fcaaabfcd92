"""Assumed contracts of the standard library (trusted: listed in the evidence)."""
from .exec import *
from . import exec as X

MODELS = {}


def model(*names):
    def deco(fn):
        for n in names:
            MODELS[n] = fn
        return fn
    return deco


def bigm(name):
    return model("(*math/big.Int)." + name)


def new_err(st, what="err"):
    return Iface("error", Opq(("errval", what, fresh_id())))


def setbig(ex, st, z, v):
    ex.store(st, z, BigV(v))
    return z


def iconst(p):
    return p.cval() if isinstance(p, Poly) and p.is_const() else None


@model("encoding/hex.DecodeString")
def _(ex, st, a, ins):
    """requires hexadecimal digits, an even number; ensures the bytes they denote. A digit is a term or
    one of the two digits ("hi", y), ("lo", y) of a byte y."""
    d = hex_digits(ex.resolve(st, a[0]))
    if d is None or len(d) % 2:
        raise Unsupported("hexadecimal text")
    out = []
    for h, l in zip(d[::2], d[1::2]):
        if isinstance(h, tuple) and isinstance(l, tuple) and (h[0], l[0]) == ("hi", "lo") and h[1] == l[1]:
            out.append(h[1])
        elif h == ZERO and isinstance(l, tuple) and l[0] == "lo" and within(l[1], 0, 15):
            out.append(l[1])
        elif isinstance(h, Poly) and isinstance(l, Poly):
            out.append(h * 16 + l)
        else:
            raise Unsupported("hexadecimal digits of several bytes")
    b = st.new(BytesV([("b", y) for y in out]))
    n = P_(len(out))
    return (Slice(b, ZERO, n, n), NIL)


# ---------------------------------------------------------------- math/big
@model("math/big.NewInt")
def _(ex, st, a, ins):
    return st.new(BigV(ex.resolve(st, a[0])))


def _bin(f):
    def m(ex, st, a, ins):
        x, y = ex.big(st, a[1]), ex.big(st, a[2])
        return setbig(ex, st, ex.resolve(st, a[0]), f(x, y))
    return m


bigm("Add")(_bin(lambda x, y: x + y))
bigm("Sub")(_bin(lambda x, y: x - y))
bigm("Mul")(_bin(lambda x, y: x * y))


@bigm("Neg")
def _(ex, st, a, ins):
    return setbig(ex, st, ex.resolve(st, a[0]), -ex.big(st, a[1]))


@bigm("Set")
def _(ex, st, a, ins):
    return setbig(ex, st, ex.resolve(st, a[0]), ex.big(st, a[1]))


@bigm("SetInt64")
def _(ex, st, a, ins):
    return setbig(ex, st, ex.resolve(st, a[0]), ex.resolve(st, a[1]))


bigm("SetUint64")(MODELS["(*math/big.Int).SetInt64"])


@bigm("SetBit")
def _(ex, st, a, ins):
    x, i, b = ex.big(st, a[1]), as_int(a[2]), ex.resolve(st, a[3])
    if not nonneg(x):
        raise Unsupported("SetBit of a negative number")
    old = t_low(t_quo(x, 1 << i), 1)
    return setbig(ex, st, ex.resolve(st, a[0]), x + (b - old) * (1 << i))


@bigm("SetString")
def _(ex, st, a, ins):
    if isinstance(a[1], str) and a[2].is_const():
        import re
        if a[2].cval() not in (10, 16):
            raise Unsupported("SetString")
        if not re.match("^[+-]?[0-9]+$" if a[2].cval() == 10 else "^[+-]?[0-9a-fA-F]+$", a[1]):
            return (NIL, False)
        v = int(a[1], a[2].cval())
        setbig(ex, st, a[0], v)
        return (a[0], True)
    raise Unsupported("SetString")


def absval(ex, st, x):
    lo, hi = iv(x)
    if lo is not None and lo >= 0:
        return x
    if hi is not None and hi <= 0:
        return -x
    return x if ex.decide(st, f_le(ZERO, x)) else -x


@bigm("Abs")
def _(ex, st, a, ins):
    return setbig(ex, st, ex.resolve(st, a[0]), absval(ex, st, ex.big(st, a[1])))


def modulus(ex, st, p):
    m = ex.big(st, p)
    m = st.pc.norm(m)
    if not m.is_const():
        raise Unsupported("symbolic modulus")
    if m.cval() == 0:
        raise Panic("division by zero")
    if m.cval() < 0:
        return -m.cval()
    return m.cval()


@bigm("Mod")
def _(ex, st, a, ins):
    x = ex.big(st, a[1])
    return setbig(ex, st, ex.resolve(st, a[0]), t_mod(x, modulus(ex, st, a[2])))


@bigm("Div")
def _(ex, st, a, ins):
    x = ex.big(st, a[1])
    m = ex.big(st, a[2])
    if not m.is_const() or m.cval() < 0:
        raise Unsupported("symbolic divisor")
    if m.cval() == 0:
        raise Panic("division by zero")
    return setbig(ex, st, ex.resolve(st, a[0]), t_quo(x, m.cval()))


@bigm("Quo")
def _(ex, st, a, ins):
    x = ex.big(st, a[1])
    m = ex.big(st, a[2])
    if not m.is_const() or m.cval() < 0:
        raise Unsupported("symbolic divisor")
    if m.cval() == 0:
        raise Panic("division by zero")
    if nonneg(x) or ex.decide(st, f_le(ZERO, x)):
        r = t_quo(x, m.cval())
    else:
        r = -t_quo(-x, m.cval())
    return setbig(ex, st, ex.resolve(st, a[0]), r)


@bigm("Rem")
def _(ex, st, a, ins):
    x = ex.big(st, a[1])
    m = modulus(ex, st, a[2])
    if nonneg(x) or ex.decide(st, f_le(ZERO, x)):
        r = t_mod(x, m)
    else:
        r = -t_mod(-x, m)
    return setbig(ex, st, ex.resolve(st, a[0]), r)


@bigm("DivMod")
def _(ex, st, a, ins):
    x = ex.big(st, a[1])
    m = modulus(ex, st, a[2])
    q = t_quo(x, m)
    setbig(ex, st, ex.resolve(st, a[0]), q)
    setbig(ex, st, ex.resolve(st, a[3]), note_iv(x - q * m, 0, m - 1))
    return (a[0], a[3])


@bigm("Rsh")
def _(ex, st, a, ins):
    return setbig(ex, st, ex.resolve(st, a[0]), t_quo(ex.big(st, a[1]), 1 << as_int(ex.resolve(st, a[2]))))


@bigm("Lsh")
def _(ex, st, a, ins):
    return setbig(ex, st, ex.resolve(st, a[0]), ex.big(st, a[1]) * (1 << as_int(ex.resolve(st, a[2]))))


@bigm("Exp")
def _(ex, st, a, ins):
    x, y = ex.big(st, a[1]), ex.big(st, a[2])
    m = None if a[3] is NIL else modulus(ex, st, a[3])
    if not y.is_const():
        raise Unsupported("symbolic exponent")
    e = y.cval()
    z = ex.resolve(st, a[0])
    if m is None:
        if e > 64:
            raise Unsupported("large exponent")
        r = ONE
        for _i in range(max(e, 0)):
            r = r * x
        return setbig(ex, st, z, r)
    if e < 0:
        raise Unsupported("negative exponent")
    if x.is_const():
        return setbig(ex, st, z, pow(x.cval(), e, m))
    if e <= 8:
        r = ONE
        for _i in range(e):
            r = t_mod(r * x, m)
        return setbig(ex, st, z, r)
    return setbig(ex, st, z, Poly.atom(mk_atom("pow", (expand_mod(x, m), e, m), 0, m - 1)))


REBUILD["pow"] = lambda rw, a: _pow(rw(a.args[0], a.args[2]), a.args[1], a.args[2])


def _pow(x, e, m):
    if x.is_const():
        return Poly.const(pow(x.cval(), e, m))
    return Poly.atom(mk_atom("pow", (x, e, m), 0, m - 1))


@bigm("ModInverse")
def _(ex, st, a, ins):
    x = ex.big(st, a[1])
    m = modulus(ex, st, a[2])
    if m not in (N, T.P):
        raise Unsupported("inverse modulo a number not known to be prime")
    if ex.decide(st, f_cong(x, m)):
        return NIL
    return setbig(ex, st, ex.resolve(st, a[0]), t_inv(x, m))


@bigm("Cmp")
def _(ex, st, a, ins):
    return t_sgn(ex.big(st, a[0]) - ex.big(st, a[1]))


@bigm("CmpAbs")
def _(ex, st, a, ins):
    x, y = absval(ex, st, ex.big(st, a[0])), absval(ex, st, ex.big(st, a[1]))
    return t_sgn(x - y)


@bigm("Sign")
def _(ex, st, a, ins):
    return t_sgn(ex.big(st, a[0]))


@bigm("Bit")
def _(ex, st, a, ins):
    x, i = ex.big(st, a[0]), as_int(ex.resolve(st, a[1]))
    if i < 0:
        raise Panic("negative bit index")
    return t_low(t_quo(x, 1 << i), 1)


@bigm("BitLen")
def _(ex, st, a, ins):
    x = ex.big(st, a[0])
    if x.is_const():
        return Poly.const(abs(x.cval()).bit_length())
    return t_bitlen(absval(ex, st, x))


@bigm("Bytes")
def _(ex, st, a, ins):
    x = absval(ex, st, ex.big(st, a[0]))
    return ex.new_bytes(st, [("be", x)])


@bigm("FillBytes")
def _(ex, st, a, ins):
    x = absval(ex, st, ex.big(st, a[0]))
    s = ex.resolve(st, a[1])
    n = as_int(s.len)
    if not ex.decide(st, f_lt(x, P_(256 ** n))):
        raise Panic("FillBytes: buffer too small")
    if n:
        ex.write_bytes(st, s.ptr, s.off, s.len, [("fix", x, n)])
    return s


@bigm("SetBytes")
def _(ex, st, a, ins):
    return setbig(ex, st, ex.resolve(st, a[0]), seq_val(ex.bytes_of(st, a[1])))


@bigm("String")
def _(ex, st, a, ins):
    return Opq(("bigstring", fresh_id()))


bigm("Text")(MODELS["(*math/big.Int).String"])


@bigm("Int64")
def _(ex, st, a, ins):
    return wrap(ex.big(st, a[0]), 64, True)


@bigm("Uint64")
def _(ex, st, a, ins):
    return wrap(ex.big(st, a[0]), 64, False)


@bigm("IsInt64")
def _(ex, st, a, ins):
    x = ex.big(st, a[0])
    return f_and(f_le(P_(-(1 << 63)), x), f_le(x, P_((1 << 63) - 1)))


@bigm("IsUint64")
def _(ex, st, a, ins):
    x = ex.big(st, a[0])
    return f_and(f_le(ZERO, x), f_le(x, P_((1 << 64) - 1)))


# ---------------------------------------------------------------- randomness
RANDREADER = Iface("vc.randreader", Opq(("randreader",)))


@model("crypto/rand.Int")
def _(ex, st, a, ins):
    m = ex.big(st, a[1])
    m = st.pc.norm(m)
    if not m.is_const():
        raise Unsupported("symbolic random range")
    if m.cval() <= 0:
        raise Panic("crypto/rand: argument to Int is <= 0")
    if ex.resolve(st, a[0]) != RANDREADER:
        raise Unsupported("randomness from another source")
    k = len(st.ghost.get("draws", ()))
    mode = ex.opts.get("rand", "ok")
    failat = st.ghost.get("failat")

    def draw(s):
        r = var("rand", 0, m.cval() - 1)
        s.ghost["draws"] = s.ghost.get("draws", ()) + ((r, m.cval()),)
        return (s.new(BigV(r)), NIL)

    def fail(s):
        s.ghost["failed"] = P_(s.ghost.get("failed", 0)) + 1
        return (NIL, new_err(s, "rand"))
    if mode == "ok":
        return draw(st)
    # any draw may fail
    b = Poly.atom(mk_atom("var", ("randfail", fresh_id()), 0, 1, True))
    s2 = st.clone()
    st.pc.add(f_eq(b, ZERO))
    s2.pc.add(f_eq(b, ONE))
    return [(st, draw(st)), (s2, fail(s2))]


# ---------------------------------------------------------------- errors, fmt, log
@model("errors.New", "fmt.Errorf")
def _(ex, st, a, ins):
    return new_err(st, ins.get("pos", ""))


@model("fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln")
def _(ex, st, a, ins):
    return Opq(("sprintf", fresh_id()))


@model("fmt.Printf", "fmt.Println", "fmt.Print")
def _(ex, st, a, ins):
    return (ZERO, NIL)


@model("log.Printf", "log.SetFlags", "log.Println")
def _(ex, st, a, ins):
    return None


# ---------------------------------------------------------------- sync
@model("(*sync.WaitGroup).Add")
def _(ex, st, a, ins):
    v = st.heap[a[0].obj]
    v = get_path(v, a[0].path)
    st.heap[a[0].obj] = set_path(st.heap[a[0].obj], a[0].path, ModelV("wg", v.d + as_int(a[1])))
    return None


@model("(*sync.WaitGroup).Done")
def _(ex, st, a, ins):
    v = get_path(st.heap[a[0].obj], a[0].path)
    if v.d - 1 < 0:
        raise Panic("negative WaitGroup counter")
    st.heap[a[0].obj] = set_path(st.heap[a[0].obj], a[0].path, ModelV("wg", v.d - 1))
    t = st.ghost.get("dones", ())
    st.ghost["dones"] = t + (st.tid,)
    return None


@model("(*sync.WaitGroup).Wait")
def _(ex, st, a, ins):
    v = get_path(st.heap[a[0].obj], a[0].path)
    if v.d != 0:
        raise Panic("WaitGroup.Wait blocks forever")
    # everything the finished goroutines did happens before: new epoch
    if st.tid == 0 and st.threads:
        st.past = st.past + [st.threads]
        st.threads = {}
    return None


@model("(*sync.Once).Do")
def _(ex, st, a, ins):
    v = ex.load(st, a[0])
    if v.d is not True:
        f = a[1]
        if not isinstance(f, FuncV):
            raise Unsupported("sync.Once.Do of an unknown function")
        ex.store(st, a[0], ModelV("once", True))
        ex.start(st, f.n, [], f.bind)
        st.frames[-1].once = True
    return None


@model("(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock",
       "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock")
def _(ex, st, a, ins):
    raise Unsupported("locks")


# ---------------------------------------------------------------- hashes
def new_hash(alg, bits):
    def m(ex, st, a, ins):
        return Iface("vc." + alg, st.new(ModelV("hash", (alg, bits, (), ()))))
    return m


model("crypto/sha256.New")(new_hash("sha256", 256))
model("crypto/sha512.New")(new_hash("sha512", 512))


@model("crypto/hmac.New")
def _(ex, st, a, ins):
    f = ex.resolve(st, a[0])
    if not isinstance(f, FuncV) or f.n not in ("crypto/sha256.New", "crypto/sha512.New"):
        raise Unsupported("hmac of another hash")
    alg = f.n[7:13]
    key = ex.bytes_of(st, a[1])
    return Iface("vc.sha256" if alg == "sha256" else "vc.sha512",
                 st.new(ModelV("hash", ("hmac_" + alg, 256 if alg == "sha256" else 512, (), tuple(key)))))


def hash_write(ex, st, a, ins):
    xs = ex.bytes_of(st, a[1])
    v = ex.load(st, a[0])
    alg, bits, segs, key = v.d
    ex.store(st, a[0], ModelV("hash", (alg, bits, norm_segs(segs + tuple(xs)), key)))
    return (seqlen(xs), NIL)


def digest(v):
    alg, bits, segs, key = v.d
    if alg.startswith("hmac"):
        return Poly.atom(mk_atom(alg, (norm_segs(key), norm_segs(segs)), 0, (1 << bits) - 1))
    return t_hash(alg, segs, bits)


for _a in ("hmac_sha256", "hmac_sha512"):
    REBUILD[_a] = lambda rw, a: Poly.atom(mk_atom(a.kind, tuple(sub_segs(lambda x: rw(x, None), s) for s in a.args), 0, a.hi))


def hash_sum(ex, st, a, ins):
    v = ex.load(st, a[0])
    h = digest(v)
    pre = a[1]
    s = ex.resolve(st, pre)
    n = v.d[1] // 8
    if s.ptr is None or s.len == ZERO and s.cap == ZERO:
        return ex.new_bytes(st, [("fix", h, n)])
    t = ex.new_bytes(st, [("fix", h, n)])
    return ex.append(st, s, t, {"t": ins["t"]})


def hash_reset(ex, st, a, ins):
    v = ex.load(st, a[0])
    alg, bits, segs, key = v.d
    ex.store(st, a[0], ModelV("hash", (alg, bits, (), key)))
    return None


for _t, _n in (("vc.sha256", 32), ("vc.sha512", 64)):
    model("(%s).Write" % _t)(hash_write)
    model("(%s).Sum" % _t)(hash_sum)
    model("(%s).Reset" % _t)(hash_reset)
    model("(%s).Size" % _t)(lambda ex, st, a, ins, n=_n: P_(n))
    model("(%s).BlockSize" % _t)(lambda ex, st, a, ins, n=_n: P_(2 * n))


@model("crypto/sha256.Sum256")
def _(ex, st, a, ins):
    return BytesV([("fix", t_hash("sha256", ex.bytes_of(st, a[0]), 256), 32)])


@model("crypto/sha512.Sum512")
def _(ex, st, a, ins):
    return BytesV([("fix", t_hash("sha512", ex.bytes_of(st, a[0]), 512), 64)])


# ---------------------------------------------------------------- bytes.Buffer, io
def buf_of(ex, st, p):
    p = ex.resolve(st, p)
    v = ex.load(st, p)
    if not isinstance(v, ModelV) or v.kind != "buf":
        raise Unsupported("not a buffer")
    return p, v.d


@model("bytes.NewBuffer", "bytes.NewReader")
def _(ex, st, a, ins):
    return st.new(ModelV("buf", tuple(ex.bytes_of(st, a[0]))))


@model("(*bytes.Buffer).Write")
def _(ex, st, a, ins):
    p, segs = buf_of(ex, st, a[0])
    xs = ex.bytes_of(st, a[1])
    ex.store(st, p, ModelV("buf", norm_segs(segs + tuple(xs))))
    return (seqlen(xs), NIL)


@model("(*bytes.Buffer).WriteByte")
def _(ex, st, a, ins):
    p, segs = buf_of(ex, st, a[0])
    ex.store(st, p, ModelV("buf", segs + (("b", a[1]),)))
    return NIL


@model("(*bytes.Buffer).Bytes")
def _(ex, st, a, ins):
    p, segs = buf_of(ex, st, a[0])
    # aliases the buffer: not to be written to
    return ex.new_bytes(st, segs, meta="alias")


@model("(*bytes.Buffer).Len", "(*bytes.Reader).Len")
def _(ex, st, a, ins):
    p, segs = buf_of(ex, st, a[0])
    return seqlen(segs)


def take(ex, st, segs, n):
    """split n bytes off; None if there are fewer"""
    have = seqlen(segs)
    if not ex.decide(st, f_le(n, have)):
        return None
    return split_segs(segs, n, st.pc)


EOF = Iface("error", Opq(("errval", "EOF")))
UEOF = Iface("error", Opq(("errval", "unexpected EOF")))


@model("io.ReadFull")
def _(ex, st, a, ins):
    r = ex.resolve(st, a[0])
    s = ex.resolve(st, a[1])
    if not isinstance(r, Iface) or r.t not in ("*bytes.Buffer", "*bytes.Reader", "vc.reader"):
        raise Unsupported("reader %r" % (r,))
    if s.len == ZERO:
        return (ZERO, NIL)
    p, segs = buf_of(ex, st, r.v)
    ps = take(ex, st, segs, s.len)
    if ps is None:
        ex.store(st, p, ModelV("buf", ()))
        if s.ptr is not None:
            st.ghost["shortread"] = 1
        if ex.decide(st, f_eq(seqlen(segs))):
            return (ZERO, EOF)
        return (seqlen(segs), UEOF)
    ex.store(st, p, ModelV("buf", ps[1]))
    if s.ptr is not None:
        ex.write_bytes(st, s.ptr, s.off, s.len, ps[0])
    return (s.len, NIL)


@model("(*bytes.Buffer).Read", "(*bytes.Reader).Read")
def _(ex, st, a, ins):
    p, segs = buf_of(ex, st, a[0])
    s = ex.resolve(st, a[1])
    if s.len == ZERO:
        return (ZERO, NIL)
    if ex.decide(st, f_eq(seqlen(segs))):
        return (ZERO, EOF)
    ps = take(ex, st, segs, s.len)
    if ps is None:
        n = seqlen(segs)
        ex.store(st, p, ModelV("buf", ()))
        ex.write_bytes(st, s.ptr, s.off, n, segs)
        return (n, NIL)
    ex.store(st, p, ModelV("buf", ps[1]))
    ex.write_bytes(st, s.ptr, s.off, s.len, ps[0])
    return (s.len, NIL)


@model("(vc.reader).Read")
def _(ex, st, a, ins):
    """an io.Reader may return fewer bytes than asked for, and fewer than there are"""
    p, segs = buf_of(ex, st, a[0])
    if st.ghost.get("reads", 0) > 3:
        raise Unsupported("a loop around Read")
    s = ex.resolve(st, a[1])
    if ex.decide(st, f_eq(s.len)):
        return (ZERO, NIL)
    have = seqlen(segs)
    if ex.decide(st, f_eq(have)):
        return (ZERO, EOF)
    full = s.len if ex.decide(st, f_le(s.len, have)) else have
    out = []
    k = var("readlen", 0, 1 << 50)
    for n, c in ((full, True), (k, f_and(f_le(ONE, k), f_lt(k, full)))):
        t = st.clone()
        if not t.pc.add(c):
            continue
        ps = split_segs(segs, n, t.pc)
        if ps is None:
            raise Unsupported("a part of %r" % (segs,))
        ex.store(t, p, ModelV("buf", ps[1]))
        ex.write_bytes(t, s.ptr, s.off, n, ps[0])
        t.ghost["reads"] = t.ghost.get("reads", 0) + 1
        out.append((t, (n, NIL)))
    return out


@model("(*bytes.Buffer).ReadByte", "(*bytes.Reader).ReadByte")
def _(ex, st, a, ins):
    p, segs = buf_of(ex, st, a[0])
    ps = take(ex, st, segs, ONE)
    if ps is None:
        return (ZERO, EOF)
    ex.store(st, p, ModelV("buf", ps[1]))
    return (ex.byte_of(st, ps[0], 0), NIL)


@model("(vc.writer).Write")
def _(ex, st, a, ins):
    """a writer that may fail at any call"""
    p, segs = buf_of(ex, st, a[0])
    xs = ex.bytes_of(st, a[1])
    b = Poly.atom(mk_atom("var", ("writefail", fresh_id()), 0, 1, True))
    s2 = st.clone()
    st.pc.add(f_eq(b, ZERO))
    s2.pc.add(f_eq(b, ONE))
    ex.store(st, p, ModelV("buf", norm_segs(segs + tuple(xs))))
    s2.ghost["writefailed"] = 1
    return [(st, (seqlen(xs), NIL)), (s2, (ZERO, new_err(s2, "write")))]


@model("bytes.Equal", "crypto/hmac.Equal")
def _(ex, st, a, ins):
    return segs_eq(ex, st, ex.bytes_of(st, a[0]), ex.bytes_of(st, a[1]))


def segs_eq(ex, st, x, y):
    x, y = norm_segs(x), norm_segs(y)
    if x == y:
        return True
    nx, ny = seqlen(x), seqlen(y)
    if nx == ny and nx.is_const():
        return f_eq(seq_val(x), seq_val(y))
    return f_pred("bytes_eq", x, y)


@model("bytes.Repeat")
def _(ex, st, a, ins):
    xs = ex.bytes_of(st, a[0])
    n = ex.resolve(st, a[1])
    if not ex.decide(st, f_le(ZERO, n)):
        raise Panic("bytes: negative Repeat count")
    if n.is_const():
        return ex.new_bytes(st, tuple(xs) * n.cval())
    if len(xs) == 1 and xs[0][0] == "b":
        return ex.new_bytes(st, [("rep", xs[0][1], n)])
    raise Unsupported("Repeat")


@model("bytes.Join")
def _(ex, st, a, ins):
    s = ex.resolve(st, a[0])
    if not s.len.is_const():
        raise Unsupported("Join of %r parts" % (s.len,))
    sep = tuple(ex.bytes_of(st, a[1]))
    out = ()
    for i, x in enumerate(ex.elems(st, s)):
        out += (sep if i else ()) + tuple(ex.bytes_of(st, x))
    return ex.new_bytes(st, out)


@model("(*bytes.Buffer).WriteString")
def _(ex, st, a, ins):
    p, segs = buf_of(ex, st, a[0])
    xs = ex.bytes_of(st, a[1])
    ex.store(st, p, ModelV("buf", norm_segs(segs + tuple(xs))))
    return (seqlen(xs), NIL)


@model("(*bytes.Buffer).Reset")
def _(ex, st, a, ins):
    p, segs = buf_of(ex, st, a[0])
    ex.store(st, p, ModelV("buf", ()))
    return None


@model("(*bytes.Buffer).Grow")
def _(ex, st, a, ins):
    if not ex.decide(st, f_le(ZERO, ex.resolve(st, a[1]))):
        raise Panic("bytes.Buffer.Grow: negative count")
    return None


@model("crypto/subtle.ConstantTimeCompare")
def _(ex, st, a, ins):
    return ONE if ex.decide(st, segs_eq(ex, st, ex.bytes_of(st, a[0]), ex.bytes_of(st, a[1]))) else ZERO


def _bits_len(ex, st, a, ins):
    x = ex.resolve(st, a[0])
    if not nonneg(x):
        raise Unsupported("bits.Len of %r" % (x,))
    return t_bitlen(x)


for _n in ("", "8", "16", "32", "64"):
    model("math/bits.Len" + _n)(_bits_len)


# ---------------------------------------------------------------- encoding/binary
def le_segs(v, n):
    return [("b", t_low(t_quo(v, 256 ** k), 8)) for k in range(n)]


def be_segs(v, n):
    return [("b", t_low(t_quo(v, 256 ** (n - 1 - k)), 8)) for k in range(n)]


def _put(n, order):
    def m(ex, st, a, ins):
        s = ex.resolve(st, a[1])
        if not ex.decide(st, f_le(P_(n), s.len)):
            raise Panic("index out of range")
        ex.write_bytes(st, s.ptr, s.off, P_(n), order(ex.resolve(st, a[2]), n))
        return None
    return m


def _append(n, order):
    def m(ex, st, a, ins):
        return ex.append(st, a[1], ex.new_bytes(st, order(ex.resolve(st, a[2]), n)), ins)
    return m


def _get(n, big):
    def m(ex, st, a, ins):
        s = ex.resolve(st, a[1])
        if not ex.decide(st, f_le(P_(n), s.len)):
            raise Panic("index out of range")
        v = ex.load(st, s.ptr)
        r = ZERO
        for k in range(n):
            b = ex.byte_of(st, v.segs, s.off + k)
            r = r + b * 256 ** ((n - 1 - k) if big else k)
        return r
    return m


for _n, _b in ((2, 16), (4, 32), (8, 64)):
    model("(encoding/binary.littleEndian).PutUint%d" % _b)(_put(_n, le_segs))
    model("(encoding/binary.bigEndian).PutUint%d" % _b)(_put(_n, be_segs))
    model("(encoding/binary.littleEndian).AppendUint%d" % _b)(_append(_n, le_segs))
    model("(encoding/binary.bigEndian).AppendUint%d" % _b)(_append(_n, be_segs))
    model("(encoding/binary.littleEndian).Uint%d" % _b)(_get(_n, False))
    model("(encoding/binary.bigEndian).Uint%d" % _b)(_get(_n, True))


# accessors of assumed types
@model("(*crypto/elliptic.CurveParams).Params")
def _(ex, st, a, ins):
    return a[0]


@model("crypto/ecdsa.GenerateKey")
def _(ex, st, a, ins):
    raise Unsupported("ecdsa.GenerateKey")
