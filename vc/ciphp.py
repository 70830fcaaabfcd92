"""Encryption (C33)."""
from .keyp import *
from .models import RANDREADER
from .exec import Panic
from .constp import package_init

ENC = {**CURVE, **KEY}
CBC = {}            # name of a ciphertext -> key, iv, plaintext


def h512(segs):
    return t_hash("sha512", norm_segs(segs), 512)


def derived(secret):
    """encryption key and authentication key, as values of 32 bytes"""
    h = h512((("be", secret),))
    hi = t_quo(h, 1 << 256)
    return hi, h - hi * (1 << 256)


def may_fail(st, what, good):
    """the source of randomness gives what good(state) returns, or fails"""
    bad = st.clone()
    bad.ghost["randfailed"] = 1
    return [(st, good(st)), (bad, what(bad))]


@contract(ENC, "crypto/ecdsa.GenerateKey", "assumed: ensures a key d from 1 to N-1 with its public key d*G, or an error")
def _(ex, st, a, ins):
    if ex.resolve(st, a[0]) != st.curve or ex.resolve(st, a[1]) != RANDREADER:
        raise Unsupported("key generation with another curve or source")

    def good(s):
        e = var("ephemeral", 1, N - 1)
        s.ghost["keys"] = s.ghost.get("keys", ()) + (e,)
        return (privkey(ex, s, e, "fresh"), NIL)
    return may_fail(st, lambda s: (NIL, new_err(s, "rand")), good)


def new_key(p):
    """NewPrivateKey: a generated key with its public key, or an error and no key"""
    ex, st = key_exec(p, ENC)
    fs = run(ex, st, BT + ".NewPrivateKey", [st.curve])
    made = failed = 0
    for f in live(p, "NewPrivateKey: ", fs):
        k, e = [ex.resolve(f, x) for x in f.out[1]]
        if f.ghost.get("randfailed"):
            failed += 1
            p.add("NewPrivateKey: ensures an error and no key when the source fails", k is NIL and e is not NIL, "returns %r, %r" % (k, e))
            continue
        made += 1
        ks = f.ghost.get("keys", ())
        p.add("NewPrivateKey: ensures no error", e is NIL and k is not NIL, "returns %r, %r" % (k, e))
        if k is NIL or not ks:
            p.add("NewPrivateKey: ensures the key is generated", False, "%r" % (k,))
            continue
        D = ex.load(f, k)
        q = field(ex, "crypto/ecdsa.PrivateKey", D, "PublicKey")
        c, X, Y = [field(ex, "crypto/ecdsa.PublicKey", q, m) for m in ("Curve", "X", "Y")]
        d = ex.big(f, field(ex, "crypto/ecdsa.PrivateKey", D, "D"))
        p.add("NewPrivateKey: ensures the number is a generated one", d in ks, "%r" % (d,))
        p.holds("NewPrivateKey: ensures the public key of the number", f, f_cong(exp_of(ex, f, X, Y) - d))
        p.add("NewPrivateKey: ensures the curve", ex.resolve(f, c) == st.curve, "%r" % (c,))
    p.add("NewPrivateKey: vacuity: both outcomes are reached", bool(made and failed), "%d, %d" % (made, failed))
    frames(p, "NewPrivateKey: ", fs)


@contract(ENC, "io.ReadFull", "assumed: ensures the slice is filled with random bytes, or an error")
def _(ex, st, a, ins):
    if ex.resolve(st, a[0]) != RANDREADER:
        raise Unsupported("another reader")
    s = ex.resolve(st, a[1])
    if not s.len.is_const():
        raise Unsupported("length %r" % (s.len,))

    def fill(st):
        name = "random%d" % fresh_id()
        ex.write_bytes(st, s.ptr, s.off, s.len, [("raw", name, ZERO, s.len)])
        st.ghost["drawn"] = st.ghost.get("drawn", ()) + (name,)
        return name

    def good(st):
        fill(st)
        return (s.len, NIL)

    def bad(st):
        fill(st)
        return (ZERO, new_err(st, "rand"))
    return may_fail(st, bad, good)


@contract(ENC, "crypto/aes.NewCipher", "assumed: ensures a block cipher for a key of 16, 24 or 32 bytes")
def _(ex, st, a, ins):
    segs = norm_segs(ex.bytes_of(st, a[0]))
    n = seqlen(segs)
    if not n.is_const() or n.cval() not in (16, 24, 32):
        raise Unsupported("AES with a key of %r bytes" % (n,))
    return (Iface("vc.aes", st.new(ModelV("aes", (segs,)))), NIL)


@contract(ENC, "crypto/rand.Read", "assumed: fills the slice with random bytes (the program ends if it cannot)")
def _(ex, st, a, ins):
    s = ex.resolve(st, a[0])
    if not s.len.is_const():
        raise Unsupported("length %r" % (s.len,))
    name = "random%d" % fresh_id()
    ex.write_bytes(st, s.ptr, s.off, s.len, [("raw", name, ZERO, s.len)])
    st.ghost["drawn"] = st.ghost.get("drawn", ()) + (name,)
    return (s.len, NIL)


def new_cbc(kind):
    def m(ex, st, a, ins):
        b = ex.load(st, ex.resolve(st, a[0]).v)
        iv_ = norm_segs(ex.bytes_of(st, a[1]))
        if seqlen(iv_) != P_(16):
            raise Panic("cipher: IV length must equal block size")
        return Iface("vc.cbc", st.new(ModelV(kind, (b.d[0], iv_))))
    return m


ENC["crypto/cipher.NewCBCEncrypter"] = new_cbc("enc")
ENC["crypto/cipher.NewCBCDecrypter"] = new_cbc("dec")
for _n in ("NewCBCEncrypter", "NewCBCDecrypter"):
    CONTRACT_TEXT["crypto/cipher." + _n] = "assumed: CBC mode; decryption with the same key and vector undoes encryption; a copy of the vector is kept"


@contract(ENC, "(vc.cbc).CryptBlocks", "assumed: requires whole blocks and room in the destination")
def _(ex, st, a, ins):
    m = ex.load(st, a[0])
    d, s = ex.resolve(st, a[1]), ex.resolve(st, a[2])
    src = norm_segs(ex.bytes_of(st, s))
    n = seqlen(src)
    if not ex.decide(st, f_eq(t_low(n, 4))):
        raise Panic("crypto/cipher: input not full blocks")
    if not ex.decide(st, f_le(n, d.len)):
        raise Panic("crypto/cipher: output smaller than input")
    key, vec = m.d
    out = None
    if m.kind == "dec" and len(src) == 1 and src[0][0] == "raw" and src[0][1] in CBC:
        k2, v2, pt = CBC[src[0][1]]
        if same_segs(st, key, k2) and same_segs(st, vec, v2) and src[0][2] == ZERO and n == seqlen(pt):
            out = pt
    if out is None:
        name = "%s(%r,%r,%r)" % (m.kind, key, vec, src)
        if m.kind == "enc":
            CBC[name] = (key, vec, src)
        out = (("raw", name, ZERO, n),)
    # the chaining state moves on: a second call is another message
    ex.store(st, a[0], ModelV("used", (key, vec)))
    if n != ZERO:
        ex.write_bytes(st, d.ptr, d.off, n, out)
    return None


@contract(ENC, BT + ".ParsePubKey", "for 65 bytes beginning with 4: ensures the point (x, y) of the curve, or an error if it is none (proved in C30); modifies nothing")
def _(ex, st, a, ins):
    segs = norm_segs(ex.bytes_of(st, a[0]))
    if seqlen(segs) != P_(65) or segs[0] != ("b", P_(4)):
        return INLINE
    x, y = [seq_val(s) for s in split_segs(segs[1:], P_(32), st.pc)]
    e = point_of(st.pc.norm(x), st.pc.norm(y))
    if e is not None:
        st.pc.add(f_not(f_cong(e)))
        return (pubkey(ex, st, x, y, "fresh"), NIL)
    bad = st.clone()
    st.ghost["points"] = st.ghost.get("points", ()) + ((x, y, parsed(x, y)),)
    return [(st, (pubkey(ex, st, x, y, "fresh"), NIL)), (bad, (NIL, new_err(bad, "no point")))]


def parsed(x, y):
    return named("exponent of (%s,%s)" % (x, y), 1, N - 1)


def ciph_exec(p):
    """a state with the constants of the package as its initialisation leaves them"""
    _, s0, _, _ = package_init(p)
    ex, st = key_exec(p, ENC)
    for n in ("ciphCurveBytes", "ciphCoordLength"):
        key = "g:%s.%s" % (BT, n)
        if key in s0.heap:
            st.heap[key] = s0.heap[key]
            st.meta[key] = "global"
    return ex, st


def pad(p):
    """addPKCSPadding: whole blocks, the last byte says how many to take off again; removePKCSPadding takes them off"""
    for rest in range(16):
        tag = "%d bytes in the last block: " % rest
        q = var("q", 0, 1 << 40)
        n = q * 16 + rest
        ex, st = key_exec(p)
        cap = n + var("spare", 0, 1 << 20)
        s = Slice(st.new(BytesV([("raw", "in", ZERO, cap)]), "input"), ZERO, n, cap)
        fs = run(ex, st, BT + ".addPKCSPadding", [s])
        for f in live(p, tag, fs):
            r = ex.resolve(f, f.out[1])
            segs = norm_segs(ex.bytes_of(f, r))
            want = norm_segs((("raw", "in", ZERO, n),) + (("b", P_(16 - rest)),) * (16 - rest))
            p.add(tag + "ensures the data and the padding", same_bytes(f.pc, segs, want), "%r" % (segs,))
            p.add(tag + "ensures a new array", f.meta.get(r.ptr.obj) == "fresh", "")
            g = f.clone()
            g.out = None
            for h in live(p, tag + "removal: ", run(ex, g, BT + ".removePKCSPadding", [r])):
                b, err = h.out[1]
                p.add(tag + "padding is taken off", not iserr(err), "error on path %s" % show_pc(h.pc))
                if not iserr(err):
                    segs = norm_segs(ex.bytes_of(h, b))
                    p.add(tag + "ensures the data", same_bytes(h.pc, segs, (("raw", "in", ZERO, n),)), "%r" % (segs,))
        frames(p, tag, fs)
    ex, st = key_exec(p)
    n = var("n", 1, 1 << 40)
    fs = run(ex, st, BT + ".removePKCSPadding", [Slice(st.new(BytesV([("raw", "in", ZERO, n)]), "input"), ZERO, n, n)])
    for f in live(p, "any bytes: ", fs):
        b, err = f.out[1]
        if not iserr(err):
            segs = norm_segs(ex.bytes_of(f, b))
            p.add("any bytes: ensures a prefix", segs == () or (len(segs) == 1 and segs[0][:3] == ("raw", "in", ZERO)), "%r" % (segs,))


def secret(p):
    """both sides derive the same secret: the x coordinate of d*e*G"""
    d, e = var("d", 1, N - 1), var("e", 1, N - 1)
    for tag, a, b in (("one side: ", d, e), ("other side: ", e, d)):
        ex, st = key_exec(p, ENC)
        fs = run(ex, st, BT + ".GenerateSharedSecret", [privkey(ex, st, a), pubkey(ex, st, xc(b), yc(b))])
        for f in live(p, tag, fs):
            segs = norm_segs(ex.bytes_of(f, f.out[1]))
            p.add(tag + "ensures the x coordinate of d*e*G", same_bytes(f.pc, segs, (("be", xc(d * e)),)), "%r" % (segs,))
        frames(p, tag, fs)


CURVEB = [("b", P_(2)), ("b", P_(0xca)), ("b", ZERO), ("b", P_(32))]


def encrypt(p):
    """Encrypt: vector, curve, ephemeral key, ciphertext, authentication code over all of that; Decrypt of it"""
    for rest in range(16):
        tag = "%d bytes in the last block: " % rest
        q = var("q", 0, 1 << 36)
        n = q * 16 + rest
        d = var("d", 1, N - 1)
        ex, st = ciph_exec(p)
        s = Slice(st.new(BytesV([("raw", "in", ZERO, n)]), "input"), ZERO, n, n)
        fs = run(ex, st, BT + ".Encrypt", [pubkey(ex, st, xc(d), yc(d)), s])
        cnt = 0
        for f in live(p, tag, fs):
            b, err = f.out[1]
            b = ex.resolve(f, b)
            if iserr(err):
                p.add(tag + "an error only if there is no randomness, and nothing with it", f.ghost.get("randfailed") == 1 and b in (NIL, NILSLICE), "%r" % (b,))
                continue
            cnt += 1
            p.add(tag + "an error if there is no randomness", not f.ghost.get("randfailed"), "data without randomness")
            ks, rs = f.ghost.get("keys", ()), f.ghost.get("drawn", ())
            if len(ks) != 1 or len(rs) != 1:
                p.add(tag + "draws one key and one vector", False, "%r %r" % (ks, rs))
                continue
            e = ks[0]
            ke, km = derived(xc(d * e))
            vec = ("raw", rs[0], ZERO, P_(16))
            pt = norm_segs((("raw", "in", ZERO, n),) + (("b", P_(16 - rest)),) * (16 - rest))
            segs = norm_segs(ex.bytes_of(f, b))
            ct = next((x for x in segs if x[0] == "raw" and x[1] in CBC), None)
            p.add(tag + "ensures a ciphertext", ct is not None, "%r" % (segs,))
            if ct is None:
                continue
            k2, v2, p2 = CBC[ct[1]]
            p.add(tag + "ensures the padded data is encrypted", same_segs(f, p2, pt), "%r" % (p2,))
            p.add(tag + "ensures the key of the shared secret", same_segs(f, k2, norm_segs((f32(ke),))), "%r" % (k2,))
            p.add(tag + "ensures the random vector", v2 == (vec,), "%r" % (v2,))
            head = norm_segs([vec] + CURVEB + [f32(xc(e))] + CURVEB[2:] + [f32(yc(e)), ct])
            mac = Poly.atom(mk_atom("hmac_sha256", (norm_segs((f32(km),)), head), 0, (1 << 256) - 1))
            p.add(tag + "ensures the layout and the code over all before it", same_segs(f, segs, norm_segs(head + (f32(mac),))), "%r, not %r" % (segs, head + (f32(mac),)))
            p.add(tag + "ensures a new array", f.meta.get(b.ptr.obj) == "fresh", "")
            g = f.clone()
            g.out = None
            g.ghost.pop("randfailed", None)
            for h in live(p, tag + "decryption: ", run(ex, g, BT + ".Decrypt", [privkey(ex, g, d), b])):
                r, err = h.out[1]
                p.add(tag + "is decrypted", not iserr(err), "error on path %s" % show_pc(h.pc))
                if not iserr(err):
                    segs = norm_segs(ex.bytes_of(h, r))
                    p.add(tag + "ensures the data again", same_bytes(h.pc, segs, (("raw", "in", ZERO, n),)), "%r" % (segs,))
        p.add(tag + "vacuity: data is encrypted", cnt > 0, "")
        frames(p, tag, fs)


def decrypt(p):
    """Decrypt of arbitrary bytes: data only if the last 32 bytes are the code of all before them"""
    d = var("d", 1, N - 1)
    for L in (var("L", 0, 133), var("L", 134, 1 << 40)):
        short = iv(L)[1] < 134
        tag = "short: " if short else ""
        ex, st = ciph_exec(p)
        fs = run(ex, st, BT + ".Decrypt", [privkey(ex, st, d), Slice(st.new(BytesV([("raw", "in", ZERO, L)]), "input"), ZERO, L, L)])
        cnt = 0
        x, y = rawv("in", 20, 32), rawv("in", 54, 32)
        ke, km = derived(xc(d * parsed(x, y)))
        mac = Poly.atom(mk_atom("hmac_sha256", (norm_segs((f32(km),)), norm_segs((("raw", "in", ZERO, L - 32),))), 0, (1 << 256) - 1))
        for f in live(p, tag, fs):
            b, err = f.out[1]
            b = ex.resolve(f, b)
            if iserr(err):
                p.add(tag + "no data with an error", b in (NIL, NILSLICE), "%r" % (b,))
                continue
            cnt += 1
            if short:
                p.add(tag + "refused", False, "accepted on path %s" % show_pc(f.pc))
                continue
            p.holds("ensures the authentication code", f, f_eq(seq_val((("raw", "in", L - 32, P_(32)),)) - mac), "path %s" % show_pc(f.pc))
            for i in (16, 18, 52):
                f.pc.add(f_eq(rawv("in", i, 2) - rb(i) * 256 - rb(i + 1)))
            p.holds("ensures the curve and the lengths", f, f_and(*[f_eq(rb(i) - v) for i, v in ((16, 2), (17, 0xca), (18, 0), (19, 32), (52, 0), (53, 32))]), "path %s" % show_pc(f.pc))
            segs = norm_segs(ex.bytes_of(f, b))
            want = "dec(%r,%r,%r)" % (norm_segs((f32(ke),)), norm_segs((("raw", "in", ZERO, P_(16)),)), norm_segs((("raw", "in", P_(86), L - 118),)))
            p.add("ensures a prefix of the decrypted data", segs == () or (len(segs) == 1 and segs[0][:3] == ("raw", want, ZERO)), "%r, not %s" % (segs, want))
        p.add(tag + "vacuity: some data is decrypted", cnt > 0 or short, "")
        frames(p, tag, fs)
