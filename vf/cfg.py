"""Control-flow graph facts: reverse post order, dominators, natural loops, liveness of locals."""


class Cfg:
    def __init__(self, fn):
        self.fn = fn
        n = len(fn.blocks)
        self.succ = [[] for _ in range(n)]
        for i, b in enumerate(fn.blocks):
            if not b["c"]:
                self.succ[i] = targets(b["t"])
        self.rpo = self._rpo()
        self.num = {b: i for i, b in enumerate(self.rpo)}
        self.pred = {b: [] for b in self.rpo}
        for b in self.rpo:
            for s in self.succ[b]:
                self.pred[s].append(b)
        self._dom()
        self._loops()
        self._live()
        self._dead()

    def _dead(self):
        """Blocks that can not reach a return."""
        back = [b for b in self.rpo if self.fn.blocks[b]["t"][0] == "return"]
        seen = set(back)
        while back:
            for p in self.pred[back.pop()]:
                if p not in seen:
                    seen.add(p)
                    back.append(p)
        self.dead = set(self.rpo) - seen

    def _rpo(self):
        seen, out = {0}, []
        st = [(0, iter(self.succ[0]))]
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                out.append(b)
                st.pop()
        return out[::-1]

    def _dom(self):
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                ps = [p for p in self.pred[b] if p in idom]
                d = ps[0]
                for p in ps[1:]:
                    a = p
                    while a != d:
                        while self.num[a] > self.num[d]:
                            a = idom[a]
                        while self.num[d] > self.num[a]:
                            d = idom[d]
                if idom.get(b) != d:
                    idom[b] = d
                    ch = True
        self.idom = idom

    def dominates(self, a, b):
        while b != a and b != 0:
            b = self.idom[b]
        return a == b

    def _loops(self):
        self.loops = {}
        self.irreducible = False
        for b in self.rpo:
            for s in self.succ[b]:
                if self.num[s] <= self.num[b]:
                    if not self.dominates(s, b):
                        self.irreducible = True
                        continue
                    nodes = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in nodes:
                            nodes.add(x)
                            st += self.pred[x]

    def _live(self):
        """live-in locals per block (whole-local granularity)."""
        fn = self.fn
        self.taken = set()
        use, dfn = {}, {}
        for b in self.rpo:
            u, d = set(), set()

            def rd(p):
                if p[0] not in d:
                    u.add(p[0])
                for e in p[1]:
                    if e[0] == "index" and e[1] not in d:
                        u.add(e[1])

            def op(o):
                if o[0] in ("copy", "move"):
                    rd(o[1])

            def wr(p):
                if p[1]:
                    rd(p)
                else:
                    d.add(p[0])

            for s in fn.blocks[b]["s"]:
                if s[0] == "assign":
                    r = s[2]
                    k = r[0]
                    if k in ("ref", "rawptr", "addr"):
                        rd(r[2])
                        if not any(e[0] == "deref" for e in r[2][1]):
                            self.taken.add(r[2][0])
                    elif k == "discr":
                        rd(r[1])
                    else:
                        for x in r[1:]:
                            _ops(x, op)
                    wr(s[1])
            t = fn.blocks[b]["t"]
            if t[0] == "call":
                op(t[1])
                for a in t[2]:
                    op(a)
                wr(t[3])
            elif t[0] in ("switch", "assert"):
                op(t[1])
            elif t[0] == "return":
                rd([0, []])
            use[b], dfn[b] = u, d
        live = {b: set() for b in self.rpo}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.rpo):
                o = set()
                for s in self.succ[b]:
                    o |= live[s]
                n = use[b] | (o - dfn[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        self.live = live


def _ops(x, f):
    if isinstance(x, list):
        if len(x) == 2 and x[0] in ("copy", "move") and isinstance(x[1], list):
            f(x)
        else:
            for y in x:
                _ops(y, f)


def targets(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        out = []
        for _, b in t[2]:
            if b not in out:
                out.append(b)
        if t[3] is not None and t[3] not in out:
            out.append(t[3])
        return out
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "drop":
        return [t[2]]
    if k == "assert":
        return [t[3]]
    return []
