"""Scalar multiplication (C03): decomposition, digits, and the double-and-add loop, with loop invariants."""
from .fieldc import *
from . import terms as T_

NAFN = BT + ".NAF"


def kbytes(st, name, meta="input"):
    """an arbitrary byte string and its value"""
    n = var(name + ".len", 0, 1 << 40)
    segs = (("raw", name, ZERO, n),)
    return Slice(st.new(BytesV(segs), meta), ZERO, n, n), seq_val(segs), n


def recv_of():
    return Ptr("g:" + BT + ".secp256k1")


def splitk(p):
    """splitK: (-1)^[s1<0] k1 + lambda (-1)^[s2<0] k2 = k modulo N"""
    ex = p.executor({}, abstract_field=True)
    st = base_state(ex)
    s, k, n = kbytes(st, "k")
    fs = run(ex, st, KM + "splitK", [recv_of(), s])
    for f in live(p, "", fs):
        a, b, sa, sb = f.out[1]
        va, vb = seq_val(ex.bytes_of(f, a)), seq_val(ex.bytes_of(f, b))
        for pa in (True, False):
            for pb in (True, False):
                c = f.pc.clone()
                neg1 = f_eq(P_(sa), P_(-1))
                neg2 = f_eq(P_(sb), P_(-1))
                if not c.add(neg1 if pa else f_not(neg1)) or not c.add(neg2 if pb else f_not(neg2)) or not c.feasible():
                    continue
                v = (-va if pa else va) + LAMBDA * (-vb if pb else vb)
                d = c.norm(v - k, N)
                p.add("ensures sign1*k1 + lambda*sign2*k2 = k modulo N", not d.t or c.entails(f_cong(d)) is True,
                      "difference %s on the path %s" % (str(d)[:300], show_pc(c)[:400]))
    frames(p, "", fs)


def reduce_(p):
    """moduloReduce: at most 32 bytes, same value modulo N"""
    ex = p.executor({}, abstract_field=True)
    st = base_state(ex)
    s, k, n = kbytes(st, "k")
    fs = run(ex, st, KM + "moduloReduce", [recv_of(), s])
    for f in live(p, "", fs):
        r = f.out[1]
        segs = ex.bytes_of(f, r)
        p.holds("ensures at most 32 bytes", f, f_le(seqlen(segs), P_(32)), "length %r" % (seqlen(segs),))
        p.holds("ensures the same value modulo N", f, f_cong(seq_val(segs) - k), "value %r" % (seq_val(segs),))
    frames(p, "", fs)


# ---------------------------------------------------------------- NAF

class Window:
    """A byte array of which only the element at `base` is touched; the others are as before."""

    def __init__(self, base, v=ZERO):
        self.base, self.v = base, v

    def select(self, k):
        if P_(k) != self.base:
            raise Unsupported("element %r, the invariant covers %r" % (k, self.base))
        return self.v

    def update(self, k, v):
        if P_(k) != self.base:
            raise Unsupported("write to element %r, the invariant covers %r" % (k, self.base))
        return Window(self.base, v)

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)


class Bits:
    """A byte array whose elements are written as sums of boolean atoms."""

    def __init__(self, name, at=None):
        self.name, self.at = name, at or {}

    def bit(self, k, j):
        return named("%s[%s].%d" % (self.name, P_(k), j), 0, 1, True)

    def select(self, k):
        r = ZERO
        for j in range(8):
            r = r + self.bit(k, j) * (1 << j)
        return r

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)


def entry_phis(ex, st, fr):
    """phis of the loop header with the values that arrive"""
    blk = ex.prog.funcs[fr.fn]["blocks"][fr.block]
    k = blk["p"].index(fr.prev)
    out = []
    for ins in blk["i"]:
        if ins["o"] != "phi":
            break
        out.append((ins["r"], ex.val(st, fr, ins["e"][k])))
    return out


def force_phis(ex, st, fr, vals):
    """enter the header with the given values"""
    for r, v in vals:
        fr.env[r] = v
    fr.idx = len(vals)


def is_bool(v):
    return v is True or v is False or isinstance(v, tuple)


def naf(p):
    """NAF: digits 1 and -1 at different places whose value is that of k.  Invariant of the outer loop, for the
    bytes above i:  sum (pos - neg) 256^.. + carry 256^..  is the value of those bytes of k, and pos, neg are disjoint."""
    arrived = []
    L = var("L", 0, 1 << 40)
    gen = {}

    def hook(ex, st, fr):
        if fr.fn != NAFN or len(st.frames) != 1:
            return None
        flow = ex.prog.order(fr.fn)
        if gen.get("hdr") not in (None, fr.block):
            return None
        if gen.get("hdr") is None:
            gen["hdr"] = fr.block
        ph = entry_phis(ex, st, fr)
        inside = fr.prev in flow.loops[fr.block]
        if not inside:
            if st.ghost.get("in"):
                raise Unsupported("the loop is entered twice")
            ints = [(r, v) for r, v in ph if isinstance(v, Poly)]
            bools = [(r, v) for r, v in ph if is_bool(v)]
            if len(ph) != 2 or len(ints) != 1 or len(bools) != 1:
                raise Unsupported("the loop has other variables than an index and a carry")
            if ints[0][1] != L - 1 or bools[0][1] is not False:
                raise Unsupported("the loop starts differently")
            arr = []
            for i, v in list(st.heap.items()):
                if st.meta.get(i) == "fresh":
                    if not isinstance(v, BytesV) or any(s != ("z", L + 1) for s in v.segs):
                        raise Unsupported("another object")
                    arr.append(i)
            gen["arr"] = arr
            gen["phi"] = (ints[0][0], bools[0][0], [r for r, _ in ph])
            out = []
            for where in ("step", "exit"):
                s = st.clone()
                f = s.frames[-1]
                c = var("carry", 0, 1, True)
                i = var("i", 0, 1 << 40) if where == "step" else P_(-1)
                if where == "step":
                    s.pc.add(f_le(i, L - 1))
                for o in arr:
                    s.heap[o] = Window(i + 1)
                env = {ints[0][0]: i, bools[0][0]: f_eq(c, ONE)}
                force_phis(ex, s, f, [(r, env[r]) for r, _ in ph])
                s.ghost["in"] = (where, i, c)
                out.append(s)
            return out
        where, i, c = st.ghost["in"]
        if where != "step":
            raise Unsupported("the loop goes on below 0")
        arrived.append((st.clone(), dict(ph)))
        return []
    ex = p.executor({}, abstract_field=True, loop_hook=hook, max_states=8000)
    st = State()
    K = Bits("k")
    o = st.new(K, "input")
    st.frames = []
    fs = run(ex, st, NAFN, [Slice(o, ZERO, L, L)])
    if "arr" not in gen:
        raise Unsupported("no loop")
    outs = [f for f in fs if f.pc.feasible()]
    split = []
    for s, ph in arrived:
        c = s.ghost["in"][2]
        nc = ph[gen["phi"][1]]
        # both values of the carry where the path does not settle it
        for cv in ((None,) if s.pc.norm(c).is_const() or s.pc.quick(nc) is not None else (0, 1)):
            t = s.clone()
            if cv is not None:
                t.pc.add(f_eq(c - cv))
            q = nc if nc in (True, False) else t.pc.quick(nc)
            for b in ((q,) if q is not None else (True, False)):
                u = t.clone()
                if q is None:
                    u.pc.add(nc if b else f_not(nc))
                if u.pc.feasible():
                    split.append((u, ph, b))
    arrived[:] = [(s, ph) for s, ph, _ in split]
    for s, ph, nc in split:
        where, i, c = s.ghost["in"]
        ri, rc, _ = gen["phi"]
        p.add("the loop goes from each byte to the next one", s.pc.norm(ph[ri] - i + 1) == ZERO, "index %r" % (ph[ri],))
        ds = [s.heap[a].v for a in gen["arr"]]
        if len(ds) != 2:
            raise Unsupported("%d arrays" % len(ds))
        ds = [s.pc.norm(d) for d in ds]
        if not all(d.is_const() for d in ds):
            raise Unsupported("digits are not decided")
        s.ghost["digits"] = (ds[0].cval(), ds[1].cval(), nc)
    # which array is positive is decided by what the function returns
    pos = neg = None
    for f in live(p, "", outs):
        a, b = f.out[1]
        if not (isinstance(a, Slice) and isinstance(b, Slice) and isinstance(a.ptr, Ptr) and isinstance(b.ptr, Ptr)):
            raise Unsupported("other results")
        if {a.ptr.obj, b.ptr.obj} != set(gen["arr"]):
            raise Unsupported("other results")
        if pos not in (None, a.ptr.obj):
            raise Unsupported("results are swapped")
        pos, neg = a.ptr.obj, b.ptr.obj
        where, i, c = f.ghost["in"]
        if where != "exit":
            p.add("the loop runs over all bytes", False, "returns at index %r" % (i,))
            continue
        p.add("ensures equal lengths", a.len == b.len, "%r and %r" % (a.len, b.len))
        off = f.pc.norm(a.off)
        p.add("ensures the digits of both from the same place", a.off == b.off and off in (ZERO, ONE) and f.pc.norm(a.off + a.len - L - 1) == ZERO, "%r and %r" % (a, b))
        top = f.pc.norm(f.heap[pos].v - f.heap[neg].v)
        carry = f.pc.norm(c)
        if off == ZERO:
            p.add("ensures the first digit is the last carry", f.pc.norm(top - carry) == ZERO and f.pc.norm(f.heap[pos].v * f.heap[neg].v) == ZERO, "digit %r, carry %r" % (top, carry))
        else:
            p.add("ensures no carry is dropped", carry == ZERO, "carry %r" % (carry,))
    n = 0
    for s, ph in arrived:
        if not s.pc.feasible():
            continue
        n += 1
        where, i, c = s.ghost["in"]
        d = dict(zip(gen["arr"], s.ghost["digits"][:2]))
        nc = 1 if s.ghost["digits"][2] else 0
        b = K.select(i)
        diff = s.pc.norm(P_(d[pos] - d[neg] + 256 * nc) - b - c)
        p.holds("invariant: pos - neg + 256*carry' = byte + carry", s, f_eq(diff), "digits %d, %d, carry %d; difference %s on the path %s" % (d[pos], d[neg], nc, diff, show_pc(s.pc)[:300]))
        p.add("invariant: no place has both digits", d[pos] & d[neg] == 0, "digits %d and %d" % (d[pos], d[neg]))
    p.add("vacuity: the step of the loop is reached", n >= 512, "%d paths" % n)
    # the equation holds for every byte and carry, whatever the following bit is
    frames(p, "", outs)


# ---------------------------------------------------------------- the loop of ScalarMult

class Digits(Bits):
    pass


def sm_contracts(st0, neg1, neg2, v1, v2, k):
    """contracts of splitK, moduloReduce and NAF for one pattern of signs"""
    C = dict(JAC)
    mem = {}

    @contract(C, KM + "moduloReduce", "ensures at most 32 bytes, same value modulo N")
    def _(ex, st, a, ins):
        v = seq_val(ex.bytes_of(st, a[1]))
        return mem_slice(ex, st, "red", v)

    def mem_slice(ex, st, tag, v):
        w = var("reduced", 0, (1 << 256) - 1)
        st.ghost["reduced"] = st.ghost.get("reduced", ()) + ((w, v),)
        r = ex.new_bytes(st, (("be", w),))
        st.meta[r.ptr.obj] = "input"        # it may be the argument itself
        return r

    @contract(C, KM + "splitK", "ensures sign1*k1 + lambda*sign2*k2 = k modulo N")
    def _(ex, st, a, ins):
        if "split" in st.ghost:
            raise Unsupported("splitK is called twice")
        v = seq_val(ex.bytes_of(st, a[1]))
        for w, x in st.ghost.get("reduced", ()):
            if v == w:
                v = x
        st.ghost["split"] = v
        r = []
        for nm, val in (("k1", v1), ("k2", v2)):
            o = st.new(Bits(nm))
            n = var(nm + ".len", 0, 40)
            mem[o.obj] = (nm, val)
            r.append(Slice(o, ZERO, n, n))
        sg = [P_(-1) if ng else var("sign%d" % i, 0, 1) for i, ng in ((1, neg1), (2, neg2))]
        return (r[0], r[1], sg[0], sg[1])

    @contract(C, NAFN, "ensures digits 1 and -1 at different places whose value is that of k")
    def _(ex, st, a, ins):
        s = a[0]
        if not isinstance(s, Slice) or s.ptr is None or s.ptr.obj not in mem or s.off != ZERO:
            raise Unsupported("digits of something else")
        nm, val = mem[s.ptr.obj]
        n = var("n" + nm, 0, 41)
        ps, ns = st.new(Digits("pos " + nm)), st.new(Digits("neg " + nm))
        st.ghost["naf"] = st.ghost.get("naf", ()) + ((nm, n, ps.obj, ns.obj),)
        return (Slice(ps, ZERO, n, n), Slice(ns, ZERO, n, n))
    return C


def scalar_mult(p, neg1, neg2):
    """ScalarMult for the signs of the two halves.  Invariant of the loop over the bytes: Q is V1*P1 + V2*P2 where V is
    the value of the digits so far; of the loop over the bits: the same with the digits of this byte so far."""
    reqs = []
    v1, v2, e = var("v1", 0), var("v2", 0), evar("P")
    s1, s2 = (-1 if neg1 else 1), (-1 if neg2 else 1)
    gen = {"inner": {}, "n": 0, "arr": 0}
    E1, E2 = e * s1, e * LAMBDA * s2
    FN = KM + "ScalarMult"

    def setq(st, q, x):
        u = fresh_id()
        for c, o in zip("xyz", q):
            st.heap[o] = FV(var("Q" + c, 0, PP - 1), 2 if c != "z" else 1, False, ("j", u, toN(x), c))

    def getq(ex, st, q):
        fvs = [st.heap[o] for o in q]
        for k, x in enumerate(fvs):
            require(ex, st, "invariant: magnitude of Q", x.mag <= (2 if k < 2 else 1))
        return jac_exp(ex, st, [Ptr(o) for o in q])

    def hook(ex, st, fr):
        if fr.fn.startswith(FM):
            return None
        flow = ex.prog.order(fr.fn)
        ph = entry_phis(ex, st, fr)
        inside = fr.prev in flow.loops[fr.block]
        if "sm" not in st.ghost:
            if inside or fr.fn != FN or len(st.frames) != 1:
                raise Unsupported("another loop")
            naf = {nm: (n, ps, ns) for nm, n, ps, ns in st.ghost.get("naf", ())}
            if set(naf) != {"k1", "k2"} or len(st.ghost["naf"]) != 2:
                raise Unsupported("digits of both halves are not there")
            n1, n2 = naf["k1"][0], naf["k2"][0]
            q = st.pc.entails(f_le(n2, n1))
            if q is None:
                raise Fork(f_le(n2, n1))
            m = n1 if q else n2
            if len(ph) != 1 or ph[0][1] != ZERO:
                raise Unsupported("the loop has other variables than an index from 0")
            zs = sorted(i for i, v in st.heap.items() if isinstance(v, FV) and st.meta.get(i) == "fresh" and v.v == ZERO)
            if len(zs) != 3:
                raise Unsupported("no accumulator")
            p.add("invariant at entry: Q is the identity", getq(ex, st, zs) == ZERO, "")
            s = st.clone()
            f = s.frames[-1]
            i = var("i", 0, 1 << 20)
            s.pc.add(f_le(i, m))
            V1, V2 = var("V1", 0), var("V2", 0)
            setq(s, zs, E1 * V1 + E2 * V2)
            for nm in ("k1", "k2"):
                # no place has both digits: for the byte this step reads
                n, ps, ns = naf[nm]
                k = i - (m - n)
                for j in range(8):
                    s.pc.add(f_or(f_eq(s.heap[ps].bit(k, j)), f_eq(s.heap[ns].bit(k, j))))
            force_phis(ex, s, f, [(ph[0][0], i)])
            kid = gen["n"] = gen["n"] + 1
            s.ghost["sm"] = (fr.block, ph[0][0], i, m, tuple(zs), V1, V2, n1, n2, kid)
            s.ghost["nafd"] = naf
            s.ghost["depth"] = len(st.frames)
            return [s]
        hdr, ri, i, m, zs, V1, V2, n1, n2, kid = st.ghost["sm"]
        if fr.block == hdr and len(st.frames) == st.ghost["depth"]:
            if not inside:
                raise Unsupported("the loop is entered twice")
            if not st.pc.feasible():
                return []
            gen["arr"] += 1
            p.add("the loop goes over the bytes one by one", st.pc.norm(ph[0][1] - i - 1) == ZERO, "index %r" % (ph[0][1],))
            got = getq(ex, st, zs)
            d = digits_of(ex, st, i, m, n1, n2)
            want = E1 * (256 * V1 + d[0]) + E2 * (256 * V2 + d[1])
            df = st.pc.norm(got - want, N)
            p.add("invariant: Q is the sum for the digits up to this byte", not df.t or st.pc.entails(f_cong(df)) is True,
                  "difference %s on the path %s" % (str(df)[:300], show_pc(st.pc)[-400:]))
            return []
        # a loop over the bits of the byte, with a known index
        ints = [v for _, v in ph if isinstance(v, Poly) and v.is_const()]
        key = (kid, st.ghost.get("padkey"), tuple((f.fn, f.block) for f in st.frames))
        if not inside:
            if "inner" in st.ghost:
                raise Unsupported("a third loop")
            # padding decided by the path so far
            st.ghost["padkey"] = tuple(st.pc.cur), fresh_id()
            st.ghost["inner"] = (0, tuple(v for _, v in ph))
            st.ghost["pc0"] = st.pc.clone()
            st.ghost["d"] = digits_of(ex, st, i, m, n1, n2)
            return None
        if not st.pc.feasible():
            return []
        t, prev = st.ghost["inner"]
        t += 1
        # every variable is decided as a function of the step
        vals = tuple(v for _, v in ph)
        if not all(isinstance(v, Poly) for v in vals):
            raise Unsupported("other variables in the loop over the bits")
        canon = []
        for a, b in zip(prev, vals):
            cand = [P_(a) * 2, P_(a) - 1, P_(a) + 1, P_(a)]
            hit = None
            if st.pc.norm(b - t_wrap8(a * 2)) == ZERO:
                hit = t_wrap8(a * 2)
            else:
                for c in (P_(a) - 1, P_(a) + 1, P_(a)):
                    if st.pc.norm(b - c) == ZERO:
                        hit = c
                        break
            if hit is None:
                raise Unsupported("a variable of the loop over the bits changes to %r" % (b,))
            canon.append(hit)
        got = getq(ex, st, zs)
        want = bits_sum(ex, st, i, m, n1, n2, V1, V2, t)
        df = st.pc.norm(got - want, N)
        p.add("invariant: Q is the sum for the first %d bits of the byte" % t, not df.t or st.pc.entails(f_cong(df)) is True,
              "difference %s on the path %s" % (str(df)[:300], show_pc(st.pc)[-400:]))
        seen = gen["inner"].setdefault((st.ghost["padkey"][1], t), None)
        if seen is not None:
            if seen != tuple(canon):
                raise Unsupported("paths differ")
            return []
        gen["inner"][(st.ghost["padkey"][1], t)] = tuple(canon)
        if t > 8:
            raise Unsupported("more than 8 bits")
        s = st
        s.pc = st.ghost["pc0"].clone()
        setq(s, zs, want)
        f = s.frames[-1]
        force_phis(ex, s, f, [(r, v) for (r, _), v in zip(ph, canon)])
        s.ghost["inner"] = (t, tuple(canon))
        return [s]

    def t_wrap8(x):
        from .bits import wrap
        return wrap(x, 8, False)

    def digit(st, nm, i, m, n, j=None):
        """the digits of the half at step i: 0 while it is padded"""
        nn, ps, ns = st.ghost["nafd"][nm]
        k = i - (m - n)
        q = st.pc.entails(f_le(ZERO, k))
        if q is None:
            raise Fork(f_le(ZERO, k))
        if not q:
            return ZERO
        P1, P2 = st.heap[ps], st.heap[ns]
        if j is None:
            return P1.select(k) - P2.select(k)
        return P1.bit(k, j) - P2.bit(k, j)

    def digits_of(ex, st, i, m, n1, n2):
        return digit(st, "k1", i, m, n1), digit(st, "k2", i, m, n2)

    def bits_sum(ex, st, i, m, n1, n2, V1, V2, t):
        a, b = V1, V2
        for j in range(t):
            a = 2 * a + digit(st, "k1", i, m, n1, 7 - j)
            b = 2 * b + digit(st, "k2", i, m, n2, 7 - j)
        return E1 * a + E2 * b

    C = sm_contracts(None, neg1, neg2, v1, v2, None)
    ex = p.executor(C, abstract_field=True, reqs=reqs, loop_hook=hook, max_states=4000)
    st = curve_state(p, ex)
    s, k, n = kbytes(st, "k")
    fs = run(ex, st, FN, [recv_of(), big(st, xc(e)), big(st, yc(e)), s])
    if not gen["n"]:
        raise Unsupported("no loop")
    p.add("vacuity: the step of the loop is reached", gen["arr"] > 0, "")
    for f in live(p, "", fs):
        if "sm" not in f.ghost:
            raise Unsupported("returns before the loop")
        hdr, ri, i, m, zs, V1, V2, n1, n2, kid = f.ghost["sm"]
        p.add("the loop ends after the last byte", f.pc.entails(f_eq(i, m)) is True, "path %s" % show_pc(f.pc)[-300:])
        p.add("the scalar is split", f.ghost.get("split") == k, "splits %r" % (f.ghost.get("split"),))
        X, Y = f.out[1]
        got = exp_of(ex, f, X, Y)
        # all digits are read: V1 = v1, V2 = v2, and sign1*v1 + lambda*sign2*v2 = k
        c = f.pc.clone()
        for a, b in ((V1, v1), (V2, v2)):
            c.add(f_eq(a, b))
        c.add(f_cong(s1 * v1 + LAMBDA * s2 * v2 - k))
        p.add("ensures k times the point", c.entails(f_cong(c.norm(got - e * k, N))) is True or not c.norm(got - e * k, N).t, "result %r" % (got,))
    frames(p, "", fs)
    p.add("requires: magnitudes and normal forms of the field contracts", not reqs, "; ".join(sorted(set(reqs))[:3]))


# ---------------------------------------------------------------- tables

class Table:
    """bytePoints: entry [i][b] is b*256^(31-i) times the base (checked in C06)"""

    def __init__(self, base, i=None, rows=32):
        self.base, self.i = base, i

    def select(self, k):
        if self.i is None:
            k = P_(k)
            if not k.is_const():
                raise Unsupported("row of the table")
            return Table(self.base, k.cval())
        x = self.base * P_(k) * pow(256, 31 - self.i)
        u = fresh_id()
        return ArrV([FV(var("T" + c, 0, PP - 1), 1, False, ("j", u, toN(x), c)) for c in "xyz"])

    def __eq__(self, o):
        return isinstance(o, Table) and (self.base, self.i) == (o.base, o.i)

    def __hash__(self):
        return hash((self.base, self.i))


def base_mult(p, which, lens):
    fld, base = {"ScalarBaseMult": ("bytePoints", ONE), "ScalarBaseMultH": ("bytePointsH", H_EXP)}[which]
    for n in lens:
        nm = "[%d bytes] " % n
        reqs = []
        C = dict(JAC)
        bs = [var("b%d" % i, 0, 255) for i in range(n)]
        val = ZERO
        for b in bs:
            val = val * 256 + b

        @contract(C, KM + "moduloReduce", "ensures at most 32 bytes, same value modulo N")
        def _(ex, st, a, ins):
            st.pc.add(f_cong(val - seq_val(ex.bytes_of(st, a[1]))))
            r = ex.new_bytes(st, [("b", b) for b in bs])
            st.meta[r.ptr.obj] = "input"        # it may be the argument itself
            return r
        ex = p.executor(C, abstract_field=True, reqs=reqs)
        st = curve_state(p, ex)
        key = "g:" + BT + ".secp256k1"
        fs_ = fields(p.prog, BT + ".KoblitzCurve")
        if fld not in fs_:
            raise Unsupported("no field " + fld)
        t = st.new(Table(base), "global")
        cv = st.heap[key]
        st.heap[key] = cv.set(fs_.index(fld) if isinstance(fs_, list) else list(fs_).index(fld), t)
        s, k, ln = kbytes(st, "k")
        fs = run(ex, st, KM + which, [recv_of(), s])
        for f in live(p, nm, fs):
            X, Y = f.out[1]
            p.holds(nm + "ensures k times the base", f, f_cong(exp_of(ex, f, X, Y) - base * k), "result %r" % (exp_of(ex, f, X, Y),))
            if which == "ScalarBaseMult":
                fresh = all(isinstance(v, Ptr) and f.meta.get(v.obj) == "fresh" for v in map(lambda v: ex.resolve(f, v), (X, Y)))
                p.add(nm + "ensures a fresh result: modifies nothing when its result is modified", fresh, "result %r, %r" % (X, Y), "frame")
        frames(p, nm, fs)
        p.add(nm + "requires: magnitudes of the field contracts", not reqs, "; ".join(sorted(set(reqs))[:3]))
