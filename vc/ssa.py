"""SSA program as exported by ssaexport, with its control-flow structure."""
import json

INT_KINDS = {"int": (64, True), "int8": (8, True), "int16": (16, True), "int32": (32, True),
             "int64": (64, True), "uint": (64, False), "uint8": (8, False), "byte": (8, False),
             "uint16": (16, False), "uint32": (32, False), "uint64": (64, False),
             "uintptr": (64, False), "rune": (32, True), "untyped int": (64, True),
             "untyped rune": (32, True)}


class Program:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.types = d["types"]
        self.funcs = {f["n"]: f for f in d["funcs"]}
        self.globals = {g["n"]: g["t"] for g in d["globals"]}
        self.byname = {t["s"]: i for i, t in enumerate(self.types)}
        self._loops = {}

    def tname(self, t):
        return self.types[t]["s"]

    def under(self, t):
        d = self.types[t]
        while d["k"] in ("named", "alias"):
            d = self.types[d["u"]]
        return d

    def strip(self, t):
        """name of the type with aliases removed"""
        d = self.types[t]
        while d["k"] == "alias":
            d = self.types[d["u"]]
        return d["s"]

    def intkind(self, t):
        u = self.under(t)
        if u["k"] == "basic":
            return INT_KINDS.get(u["name"])
        return None

    def is_bytes(self, t):
        """element type uint8"""
        return self.intkind(t) == (8, False)

    # ------------------------------------------------------------ control flow
    def order(self, fn):
        """Structural position of each block: nested tuples that follow a topological
        order in which a loop is one node that precedes its exits."""
        r = self._loops.get(fn)
        if r is None:
            r = Flow(self.funcs[fn])
            self._loops[fn] = r
        return r


class Flow:
    def __init__(self, f):
        n = len(f["blocks"])
        succ = [b["s"] for b in f["blocks"]]
        self.succ = succ
        pred = [[] for _ in range(n)]
        for i, s in enumerate(succ):
            for j in s:
                pred[j].append(i)
        self.pred = pred
        # dominators
        reach = [False] * n
        rpo = []

        def dfs(i):
            st = [(i, iter(succ[i]))]
            reach[i] = True
            while st:
                x, it = st[-1]
                for j in it:
                    if not reach[j]:
                        reach[j] = True
                        st.append((j, iter(succ[j])))
                        break
                else:
                    rpo.append(x)
                    st.pop()
        dfs(0)
        rpo.reverse()
        num = {b: i for i, b in enumerate(rpo)}
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in pred[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while num[x] > num[y]:
                                    x = idom[x]
                                while num[y] > num[x]:
                                    y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self.idom = idom

        def dominates(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        # natural loops
        loops = {}
        for b in rpo:
            for s in succ[b]:
                if s in idom and dominates(s, b):
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(p for p in pred[x] if p in num)
        self.loops = loops
        # position of blocks
        self.pos = {}
        self._place(frozenset(rpo), 0, (), num)
        self.inloops = {b: sorted([h for h in loops if b in loops[h]], key=lambda h: -len(loops[h])) for b in rpo}

    def _place(self, nodes, entry, prefix, num):
        """Order the nodes of one nesting level."""
        sub = {}
        for h, body in self.loops.items():
            if h in nodes and body <= nodes and not (h == entry and prefix and prefix[-1] == ("L", h)):
                if not any(h in b2 and body < b2 and b2 <= nodes and not (h2 == entry and prefix and prefix[-1] == ("L", h2))
                           for h2, b2 in self.loops.items() if h2 != h):
                    sub[h] = body
        rep = {}
        for b in nodes:
            rep[b] = b
        for h, body in sub.items():
            for b in body:
                rep[b] = h
        reps = set(rep.values())
        edges = {r: set() for r in reps}
        indeg = {r: 0 for r in reps}
        for b in nodes:
            for s in self.succ[b]:
                if s in nodes and rep[s] != rep[b] and not (s == entry):
                    if rep[s] not in edges[rep[b]]:
                        edges[rep[b]].add(rep[s])
                        indeg[rep[s]] += 1
        ready = sorted([r for r in reps if indeg[r] == 0], key=lambda r: num[r])
        k = 0
        while ready:
            r = ready.pop(0)
            if r in sub:
                self._place(frozenset(sub[r]), r, prefix + (k, ("L", r)), num)
            else:
                self.pos[r] = prefix + (k,)
            k += 1
            for s in edges[r]:
                indeg[s] -= 1
                if indeg[s] == 0:
                    ready.append(s)
            ready.sort(key=lambda r: num[r])

    def key(self, block, iters):
        """Comparable position of a state in this function."""
        out = []
        for x in self.pos[block]:
            if isinstance(x, tuple):
                out.append(iters.get(x[1], 0))
            else:
                out.append(x)
        return tuple(out)
