"""Symbolic execution of the exported SSA: generates the proof obligations.

Functions with a contract are applied by contract, all others are executed.  Every
path carries its condition; run-time panics are outcomes of their own."""
from .values import *
from .ssa import Program

ZK = "github.com/mit-dci/zksigma"
BT = ZK + "/btcec"
WI = ZK + "/wire"
FIELDVAL = BT + ".fieldVal"


class Panic(Exception):
    pass


class Fork(Exception):
    """Raised by a model that needs a case split; the instruction is executed again."""

    def __init__(self, cond):
        self.cond = cond


class Frame:
    __slots__ = ("fn", "block", "prev", "idx", "env", "args", "free", "ret", "defers", "iters", "tid", "visits", "onret", "once")

    def clone(self):
        f = Frame.__new__(Frame)
        f.fn, f.block, f.prev, f.idx = self.fn, self.block, self.prev, self.idx
        f.env = dict(self.env)
        f.args, f.free, f.ret = self.args, self.free, self.ret
        f.defers = list(self.defers)
        f.iters = dict(self.iters)
        f.visits = dict(self.visits)
        f.tid = self.tid
        f.onret = self.onret
        f.once = self.once
        return f


RETURNED = "returned to the free list"


class State:
    def __init__(self):
        self.heap = {}
        self.meta = {}
        self.pc = PC()
        self.frames = []
        self.out = None            # ("ret", value) or ("panic", reason, pos)
        self.writes = []           # writes to objects that are not fresh
        self.unsynced = []         # those of them outside sync.Once
        self.threads = {}          # tid -> (reads, writes)
        self.tid = 0
        self.ghost = {}            # ghost state of contracts (random draws ...)
        self.trace = []
        self.zkpcp = self.curve = None
        self.born = {}             # object -> goroutine that made it
        self.past = []             # access logs of finished groups of goroutines
        self.hot = False           # just split: must execute before it may be merged

    def clone(self):
        s = State.__new__(State)
        s.zkpcp, s.curve = self.zkpcp, self.curve
        s.hot = self.hot
        s.born = dict(self.born)
        s.past = list(self.past)
        s.heap = dict(self.heap)
        s.meta = dict(self.meta)
        s.pc = self.pc.clone()
        s.frames = [f.clone() for f in self.frames]
        s.out = self.out
        s.writes = list(self.writes)
        s.unsynced = list(self.unsynced)
        s.threads = {k: (set(a), set(b)) for k, (a, b) in self.threads.items()}
        s.tid = self.tid
        s.ghost = dict(self.ghost)
        s.trace = list(self.trace)
        return s

    # ---------------------------------------------------------------- heap
    def new(self, v, meta="fresh"):
        i = fresh_id()
        self.heap[i] = v
        self.meta[i] = meta
        if self.tid:
            self.born[i] = self.tid
        return Ptr(i)

    def log(self, kind, p):
        if self.threads:
            r, w = self.threads.setdefault(self.tid, (set(), set()))
            k = self.ghost.get("spawned", 0) if self.tid == 0 else None
            (w if kind == "w" else r).add((p.obj, p.path, k))


def get_path(v, path):
    for k in path:
        if isinstance(v, StructV):
            v = v.f[k]
        elif isinstance(v, ArrV):
            if v.pend:
                v = resolve_pending(v)
            k = as_int(k)
            v = v.e[k]
        elif isinstance(v, BytesV):
            v = byte_at(v.segs, k)
        elif isinstance(v, IteV):
            a, b = get_path(v.a, (k,)), get_path(v.b, (k,))
            v = ite(v.g, a, b)
        elif hasattr(v, "select"):
            v = v.select(k)
        else:
            raise Unsupported("path %r in %r" % (k, type(v)))
    return v


def set_path(v, path, x):
    if not path:
        return x
    k = path[0]
    if isinstance(v, StructV):
        return v.set(k, set_path(v.f[k], path[1:], x))
    if isinstance(v, ArrV):
        if isinstance(k, Poly) and not k.is_const():
            a = k.single_atom()
            if a is not None and ATOMS[a].kind == "recv" and len(path) == 1:
                return ArrV(v.e, v.pend + ((a, x),))
            raise Unsupported("store at symbolic index")
        k = as_int(k)
        return v.set(k, set_path(v.e[k], path[1:], x))
    if isinstance(v, BytesV) and len(path) == 1:
        k = P_(k)
        pre, suf = split_segs(v.segs, k)
        _, suf = split_segs(suf, ONE) if suf else ((), ())
        return BytesV(norm_segs(pre + (("b", x),) + suf))
    if hasattr(v, "update"):
        return v.update(k, set_path(v.select(k), path[1:], x) if len(path) > 1 else x)
    raise Unsupported("store into %r" % type(v))


def resolve_pending(v):
    """All messages of one batch were stored at their index: their order does not matter."""
    n = len(v.e)
    groups = {}
    for a, x in v.pend:
        at = ATOMS[a]
        groups.setdefault(at.args[0], []).append((a, at.args[1], x))
    e = list(v.e)
    for g, ws in groups.items():
        idx = RECV[g]["index"]          # message -> concrete value of the field
        if sorted(k for _, k, _ in ws) != list(range(len(idx))) or sorted(idx) != sorted(set(idx)):
            raise Unsupported("messages are not all stored, or not at distinct indices")
        # every write must be the same function of its message
        for j in range(len(idx)):
            a, k, x = ws[0]
            y = RECV[g]["inst"](x, k, j)
            for (a2, k2, x2) in ws[1:]:
                if RECV[g]["inst"](x2, k2, j) != y:
                    raise Unsupported("stored values depend on the order of messages")
            if not 0 <= idx[j] < n:
                raise Panic("index out of range")
            e[idx[j]] = y
    return ArrV(e)


RECV = {}


def choice(f):
    """the formula is about 0/1 atoms only"""
    if f[0] == "not":
        return choice(f[1])
    if f[0] in ("and", "or"):
        return all(choice(x) for x in f[1:])
    return f[0] == "eq" and all(ATOMS[i].boolean for i in f[1].atoms())


def digest_zero(f):
    """the formula says that a digest is 0 modulo N"""
    if f[0] == "cong" and f[2] == N:
        a = f[1].single_atom()
        return a is not None and ATOMS[a].kind.startswith("sha")
    return False


def hex_digits(x):
    """the digits of a string of hexadecimal digits, or None"""
    if isinstance(x, HexS):
        return x.d
    if isinstance(x, str) and all(c in "0123456789abcdefABCDEF" for c in x):
        return tuple(Poly.const(int(c, 16)) for c in x)
    return None


def as_int(k):
    if isinstance(k, int):
        return k
    if k.is_const():
        return k.cval()
    raise Unsupported("symbolic index %r" % (k,))


def byte_at(segs, k):
    k = P_(k)
    acc = ZERO
    for j, s in enumerate(segs):
        n = seglen(s)
        d = k - acc
        if s[0] == "b" and d == ZERO:
            return s[1]
        if nonneg(d - n):
            acc = acc + n
            continue
        if within(d, 0, 1 << 62) and nonneg(n - d - 1):
            if s[0] == "z":
                return ZERO
            if s[0] == "fix" and d.is_const():
                return t_low(t_quo(s[1], 256 ** (s[2] - 1 - d.cval())), 8)
            if s[0] == "raw":
                return Poly.atom(mk_atom("rawbyte", (s[1], s[2] + d), 0, 255))
            break
        if s[0] == "raw" and not n.is_const() and nonneg(d) and j == len(segs) - 1:
            # caller has shown that the index is in range; only the last segment may be open
            return Poly.atom(mk_atom("rawbyte", (s[1], s[2] + d), 0, 255))
        break
    raise Unsupported("byte %r of %r" % (k, segs))


INLINE = object()     # a contract that does not apply at this call: the body is used instead


class Executor:
    def __init__(self, prog, models, contracts=None, abstract_field=False, opts=None):
        self.prog = prog
        self.models = models
        self.contracts = contracts or {}
        self.abstract_field = abstract_field
        self.opts = opts or {}
        self.used_contracts = set()
        self.inlined = set()
        self.used_models = set()
        self.steps = 0
        self.max_steps = self.opts.get("max_steps", 400000)
        self.max_states = self.opts.get("max_states", 4000)

    # ------------------------------------------------------------ zero values
    def zero(self, t):
        name = self.prog.strip(t)
        if name == "math/big.Int":
            return BigV(ZERO)
        if name == "bytes.Buffer":
            return ModelV("buf", ())
        if name == "sync.WaitGroup":
            return ModelV("wg", 0)
        if name == "sync.Once":
            return ModelV("once", False)
        if name in ("sync.Mutex", "sync.RWMutex"):
            return ModelV("mutex", 0)
        if self.abstract_field and name == FIELDVAL:
            return FV(ZERO, 0, True)
        u = self.prog.under(t)
        k = u["k"]
        if k == "basic":
            if u["name"] in ("bool", "untyped bool"):
                return False
            if u["name"] in ("string", "untyped string"):
                return ""
            return ZERO
        if k == "slice":
            return NILSLICE
        if k == "struct":
            return StructV(self.zero(f["t"]) for f in u["f"])
        if k == "array":
            if self.prog.is_bytes(u["e"]):
                return BytesV([("b", ZERO)] * u["n"])
            if u["n"] > 4096:
                raise Unsupported("large array")
            z = self.zero(u["e"])
            return ArrV([z] * u["n"])
        return NIL

    # ------------------------------------------------------------ running
    def start(self, st, fn, args, free=()):
        f = self.prog.funcs[fn]
        fr = Frame.__new__(Frame)
        fr.fn, fr.block, fr.prev, fr.idx = fn, 0, None, 0
        fr.env, fr.args, fr.free, fr.ret = {}, list(args), list(free), None
        fr.defers, fr.iters, fr.tid, fr.visits, fr.onret = [], {}, st.tid, {}, None
        fr.once = False       # running under sync.Once, directly or through a caller
        if not f["blocks"]:
            raise Unsupported("function without body: " + fn)
        st.frames.append(fr)
        self.inlined.add(fn)

    def run(self, st, fn, args, free=()):
        """Execute fn; returns the list of final states."""
        self.start(st, fn, args, free)
        return self.loop([st])

    def key(self, st):
        return tuple((f.fn,) + self.prog.order(f.fn).key(f.block, f.iters) + (f.idx,) for f in st.frames)

    def loop(self, work):
        done = []
        merge = self.opts.get("merge")
        while work:
            if merge:
                # earliest position first, so that states meet at join points
                work.sort(key=lambda s: self.skey(s), reverse=True)
                st = work.pop()
                st = self.try_merge(st, work)
            else:
                st = work.pop()
            while True:
                if st.out is not None:
                    done.append(st)
                    break
                try:
                    nxt = self.step(st)
                    st.hot = False
                    for x in nxt or ():
                        x.hot = False
                except Fork as fk:
                    nxt = self.split(st, fk.cond)
                except Panic as p:
                    fr = st.frames[-1]
                    ins = self.prog.funcs[fr.fn]["blocks"][fr.block]["i"][fr.idx] if fr.idx < len(self.prog.funcs[fr.fn]["blocks"][fr.block]["i"]) else {}
                    st.out = ("panic", str(p), "%s %s" % (fr.fn, ins.get("pos", "")))
                    continue
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Unsupported("too many steps")
                if nxt is None:
                    if merge and st.frames and st.out is None and self.at_join(st) and work:
                        work.append(st)
                        break
                    continue
                work.extend(nxt)
                if len(work) + len(done) > self.max_states:
                    raise Unsupported("too many paths")
                break
        return done

    def at_join(self, st):
        fr = st.frames[-1]
        return fr.idx == 0 and len(self.prog.order(fr.fn).pred[fr.block]) > 1 or st.ghost.get("_popped")

    def skey(self, st):
        out = []
        for f in st.frames:
            out.append(self.prog.order(f.fn).key(f.block, f.iters) + (f.idx,))
        out.append((float("inf"),))       # after everything that is still inside a call made here
        return out

    def split(self, st, cond):
        """Case split on a formula; the current instruction is executed again."""
        if cond[0] == "and":
            neg = f_not(cond)
            if neg[0] == "or" and all(x[0] == "cong" for x in neg[1:]):
                cond = neg
        if cond[0] == "or" and all(x[0] == "cong" for x in cond[1:]):
            parts = []
            prev = []
            for x in cond[1:]:
                parts.append(f_and(*(prev + [x])))
                prev.append(f_not(x))
            parts.append(f_and(*prev))
        else:
            parts = [cond, f_not(cond)]
        out = []
        for p in parts:
            s = st.clone() if p is not parts[-1] else st
            if s.pc.add(p):
                s.hot = True
                out.append(s)
        if len(out) > 1 and any(arithmetic(p) for p in parts) and not (self.opts.get("merge") and choice(cond)):
            out = [s for s in out if s.pc.feasible()]
        return out

    # ------------------------------------------------------------ merging
    def try_merge(self, st, work):
        """Merge the states that have reached the same place."""
        k = self.skey(st)
        fns = [f.fn for f in st.frames]
        group = [st]
        while work and not work[-1].hot and not st.hot and self.skey(work[-1]) == k and [f.fn for f in work[-1].frames] == fns:
            group.append(work.pop())
        changed = len(group) > 1
        while changed:
            changed = False
            pairs = []
            for i in range(len(group)):
                for j in range(i):
                    n = self.complementary(group[j], group[i])
                    if n is not None:
                        pairs.append((-n, j, i))
            for _, j, i in sorted(pairs):
                m = self.merge(group[j], group[i])
                if m is not None:
                    group = [x for q, x in enumerate(group) if q not in (i, j)] + [m]
                    changed = len(group) > 1
                    break
        work.extend(group[1:])
        return group[0]

    def complementary(self, a, b):
        la, lb = a.pc.lits, b.pc.lits
        i = 0
        while i < len(la) and i < len(lb) and la[i] == lb[i]:
            i += 1
        if i >= len(la) or i >= len(lb):
            return None
        return i if f_not(la[i]) == lb[i] else i - 100000

    def merge(self, a, b):
        la, lb = a.pc.lits, b.pc.lits
        i = 0
        while i < len(la) and i < len(lb) and la[i] == lb[i]:
            i += 1
        ra, rb = la[i:], lb[i:]
        ra = [x for x in ra if x is not True]
        rb = [x for x in rb if x is not True]
        if not ra or not rb:
            return None
        g = self.guard(ra[0], rb[0])
        if g is None:
            # a name for the choice: g = 1 stands for the path of a, g = 0 for that of b
            g = Poly.atom(mk_atom("var", ("path", fresh_id()), 0, 1, True))
            ra, rb = [f_eq(g, ONE)] + ra, [f_eq(g, ZERO)] + rb
        if len(a.frames) != len(b.frames) or a.tid != b.tid or a.out or b.out:
            return None
        pc = self.prefix_pc(a, i)
        extra = [f_or(f_not(ra[0]), x) for x in ra[1:]] + [f_or(f_not(rb[0]), x) for x in rb[1:]]
        s = State.__new__(State)
        s.pc = pc
        for x in extra:
            if not pc.add(x):
                return None
        s.heap, s.meta = {}, {}
        for k in set(a.heap) | set(b.heap):
            if k in a.heap and k in b.heap:
                va, vb = a.heap[k], b.heap[k]
                s.heap[k] = va if va is vb else self.mval(g, va, vb)
            else:
                s.heap[k] = a.heap.get(k, b.heap.get(k))
            s.meta[k] = a.meta.get(k, b.meta.get(k))
        s.frames = []
        for fa, fb in zip(a.frames, b.frames):
            f = fa.clone()
            if fa.prev != fb.prev and not (fa is a.frames[-1]):
                return None
            if fa.prev != fb.prev:
                # resolve the phis of the join block now
                self.phis_now(a, fa)
                self.phis_now(b, fb)
                f = fa.clone()
            if fa.idx != fb.idx:
                return None
            f.env = {}
            for k in set(fa.env) | set(fb.env):
                if k in fa.env and k in fb.env:
                    f.env[k] = self.mval(g, fa.env[k], fb.env[k])
            if len(fa.defers) != len(fb.defers):
                return None
            if fa.args is not fb.args and fa.args != fb.args:
                f.args = [self.mval(g, x, y) for x, y in zip(fa.args, fb.args)]
            s.frames.append(f)
        s.out = None
        s.writes = a.writes + [w for w in b.writes if w not in a.writes]
        s.unsynced = a.unsynced + [w for w in b.unsynced if w not in a.unsynced]
        s.threads = {}
        for t in set(a.threads) | set(b.threads):
            ra_, wa_ = a.threads.get(t, (set(), set()))
            rb_, wb_ = b.threads.get(t, (set(), set()))
            s.threads[t] = (ra_ | rb_, wa_ | wb_)
        s.tid = a.tid
        s.ghost = dict(a.ghost)
        if a.ghost.get("failed") != b.ghost.get("failed"):
            s.ghost["failed"] = g * P_(a.ghost.get("failed", 0)) + (1 - g) * P_(b.ghost.get("failed", 0))
        for k in b.ghost:
            if k == "failed":
                continue
            if k not in s.ghost:
                s.ghost[k] = b.ghost[k]
            elif s.ghost[k] != b.ghost[k]:
                va, vb = a.ghost[k], b.ghost[k]
                if k == "draws":
                    s.ghost[k] = va + tuple(x for x in vb if x not in va)
                elif isinstance(va, int):
                    s.ghost[k] = max(va, vb)
                else:
                    return None
        s.trace = a.trace
        s.zkpcp, s.curve = a.zkpcp, a.curve
        s.hot = False
        s.born = dict(a.born)
        s.born.update(b.born)
        s.past = a.past + [x for x in b.past if x not in a.past]
        self.merged = getattr(self, "merged", 0) + 1
        return s

    def mval(self, g, a, b):
        if a is b:
            return a
        if isinstance(a, tuple) and isinstance(b, tuple) and not (a and isinstance(a[0], str) and a[0] in ("eq", "le", "cong", "not", "and", "or", "pred")) \
                and not (b and isinstance(b[0], str) and b[0] in ("eq", "le", "cong", "not", "and", "or", "pred")):
            if len(a) == len(b):
                return tuple(self.mval(g, x, y) for x, y in zip(a, b))
        if isinstance(a, ModelV) and isinstance(b, ModelV) and a.kind == b.kind and a.kind == "wg" and a.d == b.d:
            return a
        if isinstance(a, ModelV) and isinstance(b, ModelV) and a.kind == b.kind == "chan" and a.d[0] == b.d[0] \
                and a.d[2:] == b.d[2:] and len(a.d[1]) == len(b.d[1]):
            return ModelV("chan", (a.d[0], tuple(self.mval(g, x, y) for x, y in zip(a.d[1], b.d[1]))) + a.d[2:])
        return ite(g, a, b)

    def phis_now(self, st, fr):
        blk = self.prog.funcs[fr.fn]["blocks"][fr.block]
        n = self.do_phis(st, fr, blk)
        fr.idx = n

    def guard(self, x, y):
        """0/1 term that is 1 on the first and 0 on the second path"""
        if f_not(x) != y:
            return None
        for f, neg in ((x, False), (y, True)):
            # ("not", ("eq", b)): b = 1
            if f is not True and f is not False and f[0] == "not" and f[1][0] == "eq":
                p = f[1][1]
                i = p.single_atom()
                if i is not None and ATOMS[i].boolean:
                    return (1 - p) if neg else p
        if self.opts.get("merge") == "all":
            # name the condition
            at = Poly.atom(mk_atom("cond", (x,), 0, 1, boolean=True))
            return at
        return None

    def prefix_pc(self, st, n):
        pc = PC()
        for f in st.pc.lits[:n]:
            pc.add(f)
        return pc

    # ------------------------------------------------------------ values
    def val(self, st, fr, x):
        if isinstance(x, str):
            return fr.env[x]
        if x is None:
            return None
        c = x["c"]
        if c == "param":
            return fr.args[x["i"]]
        if c == "const":
            if x.get("nil"):
                return self.zero(x["t"])
            if "b" in x:
                return x["b"]
            if "i" in x:
                return Poly.const(int(x["i"]))
            if "str" in x:
                return x["str"]
            raise Unsupported("constant %r" % x)
        if c == "func":
            return FuncV(x["n"])
        if c == "global":
            return self.global_ptr(st, x["n"], x["t"])
        if c == "free":
            for i, f in enumerate(self.prog.funcs[fr.fn]["free"]):
                if f["n"] == x["n"]:
                    return fr.free[i]
        if c == "builtin":
            return FuncV("builtin:" + x["n"])
        raise Unsupported("operand %r" % x)

    def global_ptr(self, st, name, t):
        key = "g:" + name
        if key not in st.heap:
            raise Unsupported("global " + name)
        return Ptr(key)

    def load(self, st, p):
        if isinstance(p, IteV):
            return ite(p.g, self.load(st, p.a), self.load(st, p.b))
        if p is NIL:
            raise Panic("nil pointer dereference")
        if not isinstance(p, Ptr):
            raise Unsupported("load from %r" % (p,))
        st.log("r", p)
        if st.meta.get(p.obj) == RETURNED:
            st.ghost["freelist"] = st.ghost.get("freelist", ()) + ("a buffer is read after it was returned",)
        v = st.heap[p.obj]
        if isinstance(v, ArrV) and v.pend:
            v = resolve_pending(v)
            st.heap[p.obj] = v
        if isinstance(v, BytesV) and len(p.path) == 1:
            return self.byte_of(st, v.segs, p.path[0])
        return get_path(v, p.path)

    def byte_of(self, st, segs, k):
        """Byte k; where the layout leaves open in which part it lies, the path is split."""
        try:
            return byte_at(segs, k)
        except Unsupported:
            d = P_(k)
            if not d.is_const():
                raise
            for s in segs:
                n = seglen(s)
                if self.decide(st, f_le(n, d)):
                    d = d - n
                    continue
                if s[0] == "z":
                    return ZERO
                if s[0] == "raw" and st.pc.entails(f_le(ZERO, d)) is True:
                    return Poly.atom(mk_atom("rawbyte", (s[1], s[2] + d), 0, 255))
                if s[0] == "b" and st.pc.entails(f_eq(d)) is True:
                    return s[1]
                if s[0] == "vi" and st.pc.entails(f_eq(d)) is True and st.pc.entails(f_lt(s[1], P_(0xfd))) is True:
                    return s[1]
                break
            raise

    def store(self, st, p, v, note=""):
        if isinstance(p, IteV):
            raise Fork(f_eq(p.g, ONE))
        if p is NIL:
            raise Panic("nil pointer dereference")
        if not isinstance(p, Ptr):
            raise Unsupported("store to %r" % (p,))
        st.log("w", p)
        if st.meta[p.obj] != "fresh":
            fr = st.frames[-1] if st.frames else None
            st.writes.append((p.obj, p.path, st.meta[p.obj], fr.fn if fr else "", note))
            if not any(x.once for x in st.frames):
                st.unsynced.append((p.obj, p.path, fr.fn if fr else ""))
        st.heap[p.obj] = set_path(st.heap[p.obj], p.path, v)

    def resolve(self, st, v):
        """Decide conditional values that must be known."""
        while isinstance(v, IteV):
            q = st.pc.quick(f_eq(v.g, ONE))
            if q is None:
                raise Fork(f_eq(v.g, ONE))
            v = v.a if q else v.b
        return v

    def decide(self, st, f):
        """Truth value of a formula on this path, splitting if needed."""
        if f is True or f is False:
            return f
        q = st.pc.quick(f)
        if q is None and arithmetic(f) and not (self.opts.get("merge") and choice(f)):
            q = st.pc.entails(f)
        if q is None and self.opts.get("digest_unit") and digest_zero(f):
            self.assumed_unit = True
            return False
        if q is None:
            raise Fork(st.pc.sub.lit(f))
        return q

    # big.Int
    def big(self, st, p):
        if isinstance(p, IteV):
            q = st.pc.quick(f_eq(p.g, ONE))
            if q is not None:
                return self.big(st, p.a if q else p.b)
            if p.a is NIL or p.b is NIL:
                raise Fork(f_eq(p.g, ONE))
            return ite(p.g, self.big(st, p.a), self.big(st, p.b))
        if p is NIL:
            raise Panic("nil *big.Int")
        v = self.load(st, p)
        v = self.resolve(st, v)
        if not isinstance(v, BigV):
            raise Unsupported("not a big.Int: %r" % (v,))
        return v.v

    # byte slices
    def bytes_of(self, st, s):
        s = self.resolve(st, s)
        if isinstance(s, str):
            return tuple(("b", Poly.const(c)) for c in s.encode())
        if not isinstance(s, Slice):
            raise Unsupported("not a byte slice: %r" % (s,))
        if s.ptr is None:
            return ()
        v = self.load(st, s.ptr)
        if not isinstance(v, BytesV):
            raise Unsupported("bytes of %r" % (v,))
        segs = v.segs
        if s.off != ZERO:
            _, segs = split_segs(segs, s.off, st.pc)
        if s.len != seqlen(segs):
            segs, _ = split_segs(segs, s.len, st.pc)
        return norm_segs(segs)

    def new_bytes(self, st, segs, meta="fresh", cap=None):
        segs = norm_segs(segs)
        p = st.new(BytesV(segs), meta)
        n = seqlen(segs)
        return Slice(p, ZERO, n, n if cap is None else cap)

    # ------------------------------------------------------------ one instruction
    def goto(self, st, fr, b):
        flow = self.prog.order(fr.fn)
        fr.prev = fr.block
        if b in flow.loops:
            if fr.block in flow.loops[b]:
                fr.iters[b] = fr.iters.get(b, 0) + 1
                if fr.iters[b] > self.opts.get("unroll", 3000):
                    raise Unsupported("loop without bound in " + fr.fn)
            else:
                fr.iters[b] = 0
            for h, body in flow.loops.items():
                if h != b and h in flow.loops[b]:
                    fr.iters.pop(h, None)
        fr.block, fr.idx = b, 0

    def do_phis(self, st, fr, blk):
        n = 0
        vals = []
        k = None
        for ins in blk["i"]:
            if ins["o"] != "phi":
                break
            if k is None:
                k = blk["p"].index(fr.prev)
            vals.append((ins["r"], self.val(st, fr, ins["e"][k])))
            n += 1
        for r, v in vals:
            fr.env[r] = v
        return n

    def step(self, st):
        fr = st.frames[-1]
        blk = self.prog.funcs[fr.fn]["blocks"][fr.block]
        if fr.idx == 0:
            hook = self.opts.get("loop_hook")
            if hook is not None and fr.block in self.prog.order(fr.fn).loops:
                r = hook(self, st, fr)
                if r is not None:
                    return r
            n = self.do_phis(st, fr, blk)
            if n:
                fr.idx = n
        ins = blk["i"][fr.idx]
        return getattr(self, "i_" + ins["o"])(st, fr, ins)

    def ret1(self, fr, ins, v):
        fr.env[ins["r"]] = v
        fr.idx += 1
        return None

    def i_alloc(self, st, fr, ins):
        t = self.prog.under(ins["t"])["e"]
        return self.ret1(fr, ins, st.new(self.zero(t)))

    def i_unsupported(self, st, fr, ins):
        raise Unsupported(ins.get("s", "instruction"))

    i_makemap = i_mapupdate = i_next = i_range = i_slice2arr = i_unsupported

    def i_lookup(self, st, fr, ins):
        x, i = self.val(st, fr, ins["x"]), self.val(st, fr, ins["i"])
        if isinstance(x, str) and i.is_const():
            b = x.encode()
            if not 0 <= i.cval() < len(b):
                raise Panic("index out of range")
            return self.ret1(fr, ins, Poly.const(b[i.cval()]))
        raise Unsupported("lookup")

    def i_jump(self, st, fr, ins):
        self.goto(st, fr, self.prog.order(fr.fn).succ[fr.block][0])
        return None

    def i_if(self, st, fr, ins):
        c = self.resolve(st, self.val(st, fr, ins["x"]))
        c = self.decide(st, c)
        self.goto(st, fr, self.prog.order(fr.fn).succ[fr.block][0 if c else 1])
        return None

    def i_phi(self, st, fr, ins):
        raise Unsupported("phi out of place")

    def i_binop(self, st, fr, ins):
        x, y = self.val(st, fr, ins["x"]), self.val(st, fr, ins["y"])
        return self.ret1(fr, ins, self.binop(st, ins["op"], x, y, ins["xt"], ins["t"], ins["yt"]))

    def binop(self, st, op, x, y, xt, t, yt):
        ik = self.prog.intkind(xt)
        if ik is not None:
            x, y = self.resolve(st, x), self.resolve(st, y)
            bits, signed = ik
            if op == "+":
                return self.wrapped(x + y, bits, signed, st)
            if op == "-":
                return self.wrapped(x - y, bits, signed, st)
            if op == "*":
                return self.wrapped(x * y, bits, signed, st)
            if op == "&":
                return t_and(x, y)
            if op == "|":
                return t_or(x, y)
            if op == "^":
                return t_xor(x, y)
            if op == "&^":
                return x - t_and(x, y)
            if op == "<<":
                k = as_int(y) if y.is_const() else None
                if k is None:
                    raise Unsupported("shift by %r" % (y,))
                if k < 0:
                    raise Panic("negative shift amount")
                if k >= bits:
                    return ZERO
                return self.wrapped(x * (1 << k), bits, signed, st)
            if op == ">>":
                if not y.is_const():
                    raise Unsupported("shift by %r" % (y,))
                k = as_int(y)
                if k < 0:
                    raise Panic("negative shift amount")
                return t_quo(x, 1 << min(k, 200))
            if op in ("/", "%"):
                if not y.is_const():
                    raise Unsupported("division by a variable")
                d = y.cval()
                if d == 0:
                    raise Panic("division by zero")
                if x.is_const():
                    q = abs(x.cval()) // abs(d) * (1 if (x.cval() < 0) == (d < 0) else -1)
                    return Poly.const(q if op == "/" else x.cval() - q * d)
                if d < 0:
                    raise Unsupported("negative divisor")
                if not nonneg(x):
                    if st.pc.entails(f_le(ZERO, x)) is not True and self.decide(st, f_lt(x, ZERO)):
                        # truncated towards zero: the quotient and remainder of -x, negated
                        q = t_quo(-x, d)
                        return -q if op == "/" else -note_iv(-x - q * d, 0, d - 1)
                q = t_quo(x, d)
                if op == "/":
                    return q
                return note_iv(x - q * d, 0, d - 1)
            if op in ("==", "!="):
                r = self.int_eq(x, y)
                return r if op == "==" else f_not(r)
            if op == "<":
                return f_lt(x, y)
            if op == "<=":
                return f_le(x, y)
            if op == ">":
                return f_lt(y, x)
            if op == ">=":
                return f_le(y, x)
            raise Unsupported("operator " + op)
        u = self.prog.under(xt)
        if u["k"] == "basic" and u["name"] in ("string", "untyped string"):
            hx, hy = hex_digits(x), hex_digits(y)
            if not (isinstance(x, str) and isinstance(y, str)) and hx is not None and hy is not None:
                if op == "+":
                    return HexS(hx + hy)
                if op in ("==", "!=") and len(hx) != len(hy):
                    return op == "!="
            if isinstance(x, str) and isinstance(y, str):
                if op == "+":
                    return x + y
                if op == "==":
                    return x == y
                if op == "!=":
                    return x != y
            if op == "+":
                return Opq(("concat", repr(x), repr(y)))
            raise Unsupported("string comparison")
        if u["k"] == "basic" and u["name"] in ("bool", "untyped bool"):
            eq = f_or(f_and(x, y), f_and(f_not(x), f_not(y)))
            return eq if op == "==" else f_not(eq)
        if op in ("==", "!="):
            r = self.ref_eq(st, x, y)
            return r if op == "==" else f_not(r)
        raise Unsupported("operator %s on %s" % (op, u["k"]))

    def int_eq(self, x, y):
        if LIMB[0]:
            if x.is_const():
                x, y = y, x
            if y == ZERO:
                return bit_eq(x)
            return all_ones(x, y)
        return f_eq(x, y)

    def wrapped(self, p, bits, signed, st=None, sure=False):
        """machine arithmetic; wraps are recorded where the contract forbids them"""
        r = wrap(p, bits, signed)
        if r != p and st is not None and len(p.t) <= 4:
            # in range on this path
            lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
            f = f_and(f_le(P_(lo), p), f_le(p, P_(hi)))
            if st.pc.entails(f, solver=sure) is True:
                return p
        if self.opts.get("nowrap") is not None and r != p:
            self.opts["nowrap"].append((bits, iv(p), str(p)[:200]))
        return r

    def ref_eq(self, st, x, y):
        if isinstance(x, IteV) and (y is NIL):
            a, b = self.ref_eq(st, x.a, y), self.ref_eq(st, x.b, y)
            return f_ite(f_eq(x.g, ONE), a, b)
        x, y = self.resolve(st, x), self.resolve(st, y)
        if isinstance(x, Slice) and isinstance(y, Slice):
            return (x.ptr is None) == (y.ptr is None) and (x.ptr is None)
        if x is NIL or y is NIL:
            z = y if x is NIL else x
            if z is NIL:
                return True
            if isinstance(z, (Ptr, Iface, FuncV)):
                return False
            if isinstance(z, Opq):
                return False
            if hasattr(z, "isnil"):
                return z.isnil
            raise Unsupported("nil comparison of %r" % (z,))
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            return self.ptr_eq(st, x, y)
        if isinstance(x, Iface) and isinstance(y, Iface):
            if x.t != y.t:
                return False
            if isinstance(x.v, Ptr) and isinstance(y.v, Ptr):
                return self.ptr_eq(st, x.v, y.v)
            if isinstance(x.v, Opq) and isinstance(y.v, Opq) and x.v == y.v:
                return True
            if isinstance(x.v, Opq) and isinstance(y.v, Opq) and x.v.k[:1] == ("errval",) and y.v.k[:1] == ("errval",):
                return False
        if isinstance(x, StructV) and isinstance(y, StructV):
            return f_and(*[self.val_eq(st, a, b) for a, b in zip(x.f, y.f)])
        if isinstance(x, ArrV) and isinstance(y, ArrV) and len(x.e) == len(y.e) and not x.pend and not y.pend:
            return f_and(*[self.val_eq(st, a, b) for a, b in zip(x.e, y.e)])
        raise Unsupported("comparison of %r and %r" % (x, y))

    def ptr_eq(self, st, x, y):
        if x == y:
            return True
        ext = ("input", "global")
        if st.meta.get(x.obj) in ext and st.meta.get(y.obj) in ext and not x.path and not y.path:
            # two pointers from outside may be the same: then the values are
            a, b = st.heap.get(x.obj), st.heap.get(y.obj)
            if isinstance(a, BigV) and isinstance(b, BigV):
                lo, hi = sorted((str(x.obj), str(y.obj)))
                return f_and(f_eq(named("alias(%s,%s)" % (lo, hi), 0, 1), ONE), self.int_eq(a.v, b.v))
            if type(a) is type(b) and not (str(x.obj).startswith("g:") and str(y.obj).startswith("g:")):
                raise Unsupported("comparison of two pointers from outside")
        return False

    def val_eq(self, st, x, y):
        """equality of two values of one comparable type"""
        x, y = self.resolve(st, x), self.resolve(st, y)
        if isinstance(x, Poly) and isinstance(y, Poly):
            return self.int_eq(x, y)
        if isinstance(x, str) and isinstance(y, str):
            return x == y
        if x in (True, False) or y in (True, False) or isinstance(x, tuple):
            return f_or(f_and(x, y), f_and(f_not(x), f_not(y)))
        return self.ref_eq(st, x, y)

    def i_unop(self, st, fr, ins):
        x = self.val(st, fr, ins["x"])
        op = ins["op"]
        if op == "*":
            v = self.load(st, x)
            return self.ret1(fr, ins, v)
        if op == "!":
            x = self.resolve(st, x)
            return self.ret1(fr, ins, f_not(x))
        if op == "-":
            bits, signed = self.prog.intkind(ins["t"])
            return self.ret1(fr, ins, wrap(-x, bits, signed))
        if op == "^":
            bits, signed = self.prog.intkind(ins["t"])
            if signed:
                return self.ret1(fr, ins, -x - 1)
            return self.ret1(fr, ins, (1 << bits) - 1 - x)
        if op == "<-":
            return self.recv(st, fr, ins, x)
        raise Unsupported("operator " + op)

    # ---- channels
    def recv(self, st, fr, ins, ch):
        ch = self.resolve(st, ch)
        if ch is NIL:
            raise Panic("receive from nil channel blocks forever")
        c = st.heap[ch.obj]
        if not isinstance(c, ModelV) or c.kind != "chan":
            raise Unsupported("channel")
        cap, q, group, taken = c.d
        if taken >= len(q):
            raise Panic("receive blocks forever")
        if group is None:
            group = fresh_id()
            t = self.prog.under(self.prog.under(ins["xt"])["e"])
            if t["k"] != "struct" or len(q) == 1:
                group = 0
            if group:
                # fields that are distinct constants in all messages identify the message
                idf = None
                for k in range(len(t["f"])):
                    vs = [m.f[k] for m in q]
                    if all(isinstance(v, Poly) and v.is_const() for v in vs) and len(set(v.cval() for v in vs)) == len(vs):
                        idf = k
                        break
                if idf is None:
                    raise Unsupported("messages without distinguishing field")
                RECV[group] = {"msgs": q, "idf": idf, "index": [m.f[idf].cval() for m in q]}
                RECV[group]["inst"] = lambda x, k, j, g=group: recv_inst(g, x, k, j)
        if group == 0:
            if len(q) != 1:
                raise Unsupported("order of messages")
            v = q[taken]
        else:
            g = RECV[group]
            # the message received at this point is an unknown one of the batch
            k = taken
            f = []
            for i, x in enumerate(q[0].f):
                if i == g["idf"]:
                    f.append(Poly.atom(mk_atom("recv", (group, k), min(g["index"]), max(g["index"]))))
                else:
                    f.append(RecvV(group, k, (i,)))
            v = StructV(f)
        st.heap[ch.obj] = ModelV("chan", (cap, q, group, taken + 1))
        if ins.get("commaok"):
            v = (v, True)
        return self.ret1(fr, ins, v)

    def i_makechan(self, st, fr, ins):
        n = self.val(st, fr, ins["n"])
        return self.ret1(fr, ins, st.new(ModelV("chan", (n, (), None, 0))))

    def i_send(self, st, fr, ins):
        ch = self.resolve(st, self.val(st, fr, ins["ch"]))
        v = self.val(st, fr, ins["v"])
        if ch is NIL:
            raise Panic("send on nil channel blocks forever")
        c = st.heap[ch.obj]
        cap, q, group, taken = c.d
        if group is not None:
            raise Unsupported("send after receive")
        if fr.tid == 0:
            raise Unsupported("send by the main goroutine")
        st.heap[ch.obj] = ModelV("chan", (cap, q + (v,), None, 0))
        fr.idx += 1
        return None

    def i_select(self, st, fr, ins):
        m = self.opts.get("select")
        if m is None:
            raise Unsupported("select")
        return m(self, st, fr, ins)

    # ---- memory
    def i_store(self, st, fr, ins):
        a, v = self.val(st, fr, ins["a"]), self.val(st, fr, ins["v"])
        self.store(st, a, v, ins.get("pos", ""))
        fr.idx += 1
        return None

    def i_field(self, st, fr, ins):
        x = self.resolve(st, self.val(st, fr, ins["x"]))
        if isinstance(x, RecvV):
            return self.ret1(fr, ins, x.sub(ins["i"]))
        return self.ret1(fr, ins, x.f[ins["i"]])

    def i_fieldaddr(self, st, fr, ins):
        x = self.resolve(st, self.val(st, fr, ins["x"]))
        if x is NIL:
            raise Panic("nil pointer dereference")
        if not isinstance(x, Ptr):
            raise Unsupported("field of %r" % (x,))
        return self.ret1(fr, ins, Ptr(x.obj, x.path + (ins["i"],)))

    def check_index(self, st, i, n):
        ok = f_and(f_le(ZERO, i), f_lt(i, n))
        if ok is True:
            return
        if not self.decide(st, ok):
            raise Panic("index out of range")

    def i_indexaddr(self, st, fr, ins):
        x = self.resolve(st, self.val(st, fr, ins["x"]))
        i = self.resolve(st, self.val(st, fr, ins["i"]))
        u = self.prog.under(ins["xt"])
        if u["k"] == "slice":
            self.check_index(st, i, x.len)
            if x.ptr is None:
                raise Panic("index out of range")
            k = x.off + i
            return self.ret1(fr, ins, Ptr(x.ptr.obj, x.ptr.path + (k.cval() if k.is_const() else k,)))
        if x is NIL:
            raise Panic("nil pointer dereference")
        n = self.prog.under(u["e"])["n"]
        self.check_index(st, i, P_(n))
        return self.ret1(fr, ins, Ptr(x.obj, x.path + (i.cval() if i.is_const() else i,)))

    def i_index(self, st, fr, ins):
        x = self.resolve(st, self.val(st, fr, ins["x"]))
        i = self.resolve(st, self.val(st, fr, ins["i"]))
        if isinstance(x, str):
            return self.i_lookup(st, fr, ins)
        u = self.prog.under(ins["xt"])
        self.check_index(st, i, P_(u["n"]))
        return self.ret1(fr, ins, get_path(x, (i.cval() if i.is_const() else i,)))

    def i_slice(self, st, fr, ins):
        x = self.resolve(st, self.val(st, fr, ins["x"]))
        lo = self.val(st, fr, ins["lo"])
        hi = self.val(st, fr, ins["hi"])
        mx = self.val(st, fr, ins["max"])
        u = self.prog.under(ins["xt"])
        if u["k"] == "ptr":
            n = P_(self.prog.under(u["e"])["n"])
            if x is NIL:
                raise Panic("nil pointer dereference")
            s = Slice(x, ZERO, n, n)
        elif u["k"] == "slice":
            s = x
        else:
            if isinstance(x, str):
                l = as_int(lo) if lo is not None else 0
                h = as_int(hi) if hi is not None else len(x)
                return self.ret1(fr, ins, x[l:h])
            if isinstance(x, HexS):
                l = as_int(lo) if lo is not None else 0
                h = as_int(hi) if hi is not None else len(x.d)
                if not 0 <= l <= h <= len(x.d):
                    raise Panic("slice bounds out of range")
                return self.ret1(fr, ins, HexS(x.d[l:h]))
            raise Unsupported("slice of string")
        lo = ZERO if lo is None else lo
        hi = s.len if hi is None else hi
        cap = s.cap if mx is None else mx
        ok = f_and(f_le(ZERO, lo), f_le(lo, hi), f_le(hi, cap), f_le(cap, s.cap))
        if not self.decide(st, ok):
            raise Panic("slice bounds out of range")
        return self.ret1(fr, ins, Slice(s.ptr, s.off + lo, hi - lo, cap - lo))

    def i_makeslice(self, st, fr, ins):
        n, c = self.val(st, fr, ins["len"]), self.val(st, fr, ins["cap"])
        et = self.prog.under(ins["t"])["e"]
        if not self.decide(st, f_le(ZERO, n)):
            raise Panic("makeslice: len out of range")
        st.ghost["allocs"] = st.ghost.get("allocs", ()) + ((n, self.prog.tname(et), ins.get("pos", "")),)
        if self.prog.is_bytes(et):
            segs = [("b", ZERO)] * c.cval() if c.is_const() and c.cval() <= 256 else [("z", c)]
            p = st.new(BytesV(segs))
            return self.ret1(fr, ins, Slice(p, ZERO, n, c))
        if not c.is_const():
            hook = self.opts.get("symarray")
            if hook:
                return self.ret1(fr, ins, hook(self, st, et, n, c))
            raise Unsupported("slice of symbolic length")
        if c.cval() > 100000:
            raise Unsupported("large slice")
        z = self.zero(et)
        p = st.new(ArrV([z] * c.cval()))
        return self.ret1(fr, ins, Slice(p, ZERO, n, c))

    # ---- conversions
    def i_changetype(self, st, fr, ins):
        return self.ret1(fr, ins, self.val(st, fr, ins["x"]))

    i_changeiface = i_changetype

    def i_convert(self, st, fr, ins):
        x = self.resolve(st, self.val(st, fr, ins["x"]))
        ik = self.prog.intkind(ins["t"])
        if ik and self.prog.intkind(ins["xt"]):
            return self.ret1(fr, ins, self.wrapped(x, *ik, st=st, sure=True))
        u, v = self.prog.under(ins["t"]), self.prog.under(ins["xt"])
        if u["k"] == "slice" and v["k"] == "basic" and isinstance(x, str):
            return self.ret1(fr, ins, self.new_bytes(st, [("b", Poly.const(c)) for c in x.encode()]))
        if u["k"] == "basic" and u["name"] == "string":
            return self.ret1(fr, ins, Opq(("string", fresh_id())))
        raise Unsupported("conversion to " + self.prog.tname(ins["t"]))

    def i_makeiface(self, st, fr, ins):
        x = self.val(st, fr, ins["x"])
        return self.ret1(fr, ins, Iface(self.prog.strip(ins["xt"]), x))

    def i_typeassert(self, st, fr, ins):
        x = self.resolve(st, self.val(st, fr, ins["x"]))
        at = self.prog.strip(ins["at"])
        isif = self.prog.under(ins["at"])["k"] == "iface"
        if isif:
            raise Unsupported("assertion to interface type")
        ok = isinstance(x, Iface) and x.t == at
        if ins["commaok"]:
            return self.ret1(fr, ins, (x.v if ok else self.zero(ins["at"]), ok))
        if not ok:
            raise Panic("interface conversion")
        return self.ret1(fr, ins, x.v)

    def i_extract(self, st, fr, ins):
        x = self.val(st, fr, ins["x"])
        return self.ret1(fr, ins, x[ins["i"]])

    def i_closure(self, st, fr, ins):
        return self.ret1(fr, ins, FuncV(ins["fn"], [self.val(st, fr, b) for b in ins["bind"]]))

    def i_panic(self, st, fr, ins):
        raise Panic("explicit panic")

    # ---- calls
    def callee(self, st, fr, ins):
        args = [self.val(st, fr, a) for a in ins["args"]]
        if "invoke" in ins:
            r = self.resolve(st, self.val(st, fr, ins["recv"]))
            if r is NIL:
                raise Panic("method call on nil interface")
            if not isinstance(r, Iface):
                raise Unsupported("method %s of %r" % (ins["invoke"], r))
            return "(%s).%s" % (r.t, ins["invoke"]), [r.v] + args, ()
        f = self.resolve(st, self.val(st, fr, ins["fn"]))
        if f is NIL:
            raise Panic("call of nil function")
        if not isinstance(f, FuncV):
            raise Unsupported("call of %r" % (f,))
        return f.n, args, f.bind

    def i_call(self, st, fr, ins):
        n, args, free = self.callee(st, fr, ins)
        return self.call(st, fr, ins, n, args, free)

    def call(self, st, fr, ins, n, args, free):
        m = self.contracts.get(n)
        if m is not None:
            self.used_contracts.add(n)
        else:
            m = self.models.get(n)
            if m is not None:
                self.used_models.add(n)
        if m is not None:
            r = m(self, st, args, ins)
            if r is INLINE:
                f = self.prog.funcs.get(n)
                if f is None or not f["blocks"]:
                    raise Unsupported("no contract for " + n)
                fr.idx += 1
                self.start(st, n, args, free)
                st.frames[-1].ret = ins.get("r")
                return None
            if isinstance(r, list):
                out = []
                for s, v in r:
                    f = s.frames[-1]
                    if ins.get("r"):
                        f.env[ins["r"]] = v
                    f.idx += 1
                    out.append(s)
                return out
            if ins.get("r"):
                fr.env[ins["r"]] = r
            fr.idx += 1
            return None
        if n.startswith("builtin:"):
            r = self.builtin(st, n[8:], args, ins)
            if ins.get("r"):
                fr.env[ins["r"]] = r
            fr.idx += 1
            return None
        f = self.prog.funcs.get(n)
        if f is None or not f["blocks"]:
            raise Unsupported("no contract for " + n)
        if len(st.frames) > 60:
            raise Unsupported("recursion")
        fr.idx += 1
        self.start(st, n, args, free)
        st.frames[-1].ret = ins.get("r")
        return None

    def i_go(self, st, fr, ins):
        """A goroutine is executed at once; that every schedule gives the same result is an
        obligation on the memory it shares (see race check) and on the messages it sends."""
        n, args, free = self.callee(st, fr, ins)
        st.ghost["spawned"] = st.ghost.get("spawned", 0) + 1
        tid = st.ghost["spawned"]
        st.threads.setdefault(0, (set(), set()))
        st.threads[tid] = (set(), set())
        fr.idx += 1
        if self.prog.funcs.get(n) is None or n in self.contracts:
            raise Unsupported("go with a contract")
        self.start(st, n, args, free)
        f = st.frames[-1]
        f.onret = ("go", st.tid)
        f.tid = tid
        st.tid = tid
        return None

    def i_defer(self, st, fr, ins):
        n, args, free = self.callee(st, fr, ins)
        fr.defers.append((n, args, free))
        fr.idx += 1
        return None

    def i_rundefers(self, st, fr, ins):
        if fr.defers:
            n, args, free = fr.defers[-1]
            m = self.models.get(n) or self.contracts.get(n)
            if m is not None:
                fr.defers.pop()
                r = m(self, st, args, {"pos": ins.get("pos", "")})
                if isinstance(r, list):
                    raise Unsupported("deferred call with several outcomes")
                return None
            if n not in self.prog.funcs:
                raise Unsupported("deferred " + n)
            fr.defers.pop()
            self.start(st, n, args, free)
            return None
        fr.idx += 1
        return None

    def i_return(self, st, fr, ins):
        vs = [self.val(st, fr, x) for x in ins["x"]]
        v = vs[0] if len(vs) == 1 else tuple(vs)
        st.frames.pop()
        if fr.onret:
            st.tid = fr.onret[1]
        if not st.frames:
            st.out = ("ret", v)
            return None
        if fr.ret:
            st.frames[-1].env[fr.ret] = v
        if self.opts.get("merge"):
            return [st]
        return None

    # ---- builtins
    def builtin(self, st, n, args, ins):
        if n == "len" or n == "cap":
            x = self.resolve(st, args[0])
            if isinstance(x, Slice):
                return x.len if n == "len" else x.cap
            if isinstance(x, str):
                return Poly.const(len(x.encode()))
            if isinstance(x, HexS):
                return Poly.const(len(x.d))
            if isinstance(x, Opq):
                return Poly.atom(mk_atom("strlen", (str(x.k),), 0, (1 << 62)))
            if isinstance(x, ArrV):
                return Poly.const(len(x.e))
            if isinstance(x, BytesV):
                return seqlen(x.segs)
            raise Unsupported("len")
        if n == "append":
            return self.append(st, args[0], args[1], ins)
        if n == "copy":
            return self.copy(st, args[0], args[1], ins)
        if n in ("print", "println"):
            return None
        if n == "ssa:wrapnilchk":
            if args[0] is NIL:
                raise Panic("nil pointer dereference")
            return args[0]
        if n in ("min", "max"):
            r = args[0]
            for y in args[1:]:
                c = f_le(r, y)
                c = self.decide(st, c)
                r = (r if c else y) if n == "min" else (y if c else r)
            return r
        raise Unsupported("builtin " + n)

    def append(self, st, s, x, ins):
        s, x = self.resolve(st, s), self.resolve(st, x)
        et = self.prog.under(ins["t"])["e"]
        if self.prog.is_bytes(et):
            xs = self.bytes_of(st, x)
            n = seqlen(xs)
            fits = f_le(s.len + n, s.cap)
            if s.ptr is not None and n == ZERO:
                return s
            inplace = False
            if s.ptr is not None:
                q = fits if fits in (True, False) else st.pc.quick(fits) if self.opts.get("merge") else st.pc.entails(fits)
                if q is None and st.meta[s.ptr.obj] != "fresh":
                    q = self.decide(st, fits)
                inplace = q is True
            if inplace:
                self.write_bytes(st, s.ptr, s.off + s.len, n, xs)
                return Slice(s.ptr, s.off, s.len + n, s.cap)
            ys = self.bytes_of(st, s) + tuple(xs)
            return self.new_bytes(st, ys)
        n = x.len
        if not n.is_const() or not s.len.is_const():
            raise Unsupported("append of symbolic length")
        xs = self.elems(st, x)
        if s.ptr is not None and f_le(s.len + n, s.cap) is True:
            for i, v in enumerate(xs):
                self.store(st, Ptr(s.ptr.obj, s.ptr.path + ((s.off + s.len + i).cval(),)), v, ins.get("pos", ""))
            return Slice(s.ptr, s.off, s.len + n, s.cap)
        ys = self.elems(st, s) + xs
        p = st.new(ArrV(ys))
        return Slice(p, ZERO, P_(len(ys)), P_(len(ys)))

    def elems(self, st, s):
        if s.ptr is None:
            return []
        v = self.load(st, s.ptr)
        if isinstance(v, ArrV):
            o, n = as_int(s.off), as_int(s.len)
            return list(v.e[o:o + n])
        raise Unsupported("elements of %r" % (v,))

    def write_bytes(self, st, p, off, n, xs):
        """overwrite n bytes at off with the segments xs (of that length)"""
        v = self.load(st, p)
        pre, rest = split_segs(v.segs, off, st.pc)
        _, suf = split_segs(rest, n, st.pc)
        self.store(st, p, BytesV(norm_segs(tuple(pre) + tuple(xs) + tuple(suf))))

    def copy(self, st, d, s, ins):
        d, s = self.resolve(st, d), self.resolve(st, s)
        if isinstance(d, Slice) and (isinstance(s, str) or d.ptr is None or s.ptr is None or
                                     isinstance(self.load(st, d.ptr), BytesV)):
            xs = self.bytes_of(st, s)
            n = seqlen(xs)
            fits = f_le(n, d.len)
            if not self.decide(st, fits):
                xs, _ = split_segs(xs, d.len, st.pc)
                n = d.len
            if n == ZERO or d.ptr is None:
                return ZERO
            self.write_bytes(st, d.ptr, d.off, n, xs)
            return n
        xs = self.elems(st, s)
        k = min(as_int(d.len), len(xs))
        for i in range(k):
            self.store(st, Ptr(d.ptr.obj, d.ptr.path + ((d.off + i).cval(),)), xs[i], ins.get("pos", ""))
        return Poly.const(k)


class RecvV:
    """Component of a message received in unknown order."""
    __slots__ = ("g", "k", "path")

    def __init__(self, g, k, path):
        self.g, self.k, self.path = g, k, path

    def sub(self, i):
        return RecvV(self.g, self.k, self.path + (i,))

    def __eq__(self, o):
        return isinstance(o, RecvV) and (self.g, self.k, self.path) == (o.g, o.k, o.path)

    def __hash__(self):
        return hash((self.g, self.k, self.path))


def recv_inst(g, x, k, j):
    """The stored value x, made from the k-th received message, when that message is number j."""
    if isinstance(x, RecvV):
        if x.g != g or x.k != k:
            raise Unsupported("value depends on several messages")
        v = RECV[g]["msgs"][j]
        for i in x.path:
            v = v.f[i]
        return v
    if isinstance(x, StructV):
        return StructV(recv_inst(g, y, k, j) for y in x.f)
    if isinstance(x, Poly):
        a = [i for i in x.atoms() if ATOMS[i].kind == "recv"]
        if not a:
            return x
        return subst_atoms(x, {i: P_(RECV[g]["index"][j]) for i in a if ATOMS[i].args == (g, k)})
    if isinstance(x, (Ptr, Nil)):
        return x
    raise Unsupported("stored message of type %r" % type(x))


def races(st):
    """Conflicting accesses of goroutines that are not ordered."""
    bad = []
    for threads in st.past + [st.threads]:
        W = {}
        for t, (r, w) in threads.items():
            for obj, path, k in w:
                W.setdefault(obj, []).append((t, path, k))
        for t, (r, w) in threads.items():
            for obj, path, k in list(r) + list(w):
                for (t2, path2, k2) in W.get(obj, ()):
                    if t2 == t:
                        continue
                    n = min(len(path), len(path2))
                    if path[:n] != path2[:n]:
                        continue
                    if st.born.get(obj, 0) in (t, t2) and st.born.get(obj, 0):
                        continue
                    # the main goroutine's accesses before a goroutine starts are ordered
                    if t == 0 and k is not None and t2 > k:
                        continue
                    if t2 == 0 and k2 is not None and t > k2:
                        continue
                    bad.append((obj, path, t, t2))
    return bad
