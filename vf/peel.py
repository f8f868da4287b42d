"""Loop peeling on normal forms.

A normal form may hold loops in closed or open shape: comprehensions, folds and fixpoints.  Two
shapes that differ may still denote the same value.  Peeling rewrites every loop into its first K
rounds, so that both become loop-free, and collects the guard under which some loop has more
rounds.  Two loop-free forms that differ outside that guard come from code that behaves differently;
equal ones leave the question open.
"""
import time

from terms import *
from terms import _ite, _atoms, _bvar, _bhi, _blo


class TooBig(Exception):
    pass


class Peel:
    def __init__(self, k=2, budget=20.0, cap=60000):
        self.k = k
        self.cut = 0
        self.memo = {}
        self.end = time.time() + budget
        self.cap = cap
        self.n = 0

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            self.n += 1
            if self.n > self.cap or time.time() > self.end:
                raise TooBig()
            r = self.memo[t] = self.go(t)
        return r

    def tp(self, x):
        if isinstance(x, T):
            return self(x)
        if isinstance(x, tuple):
            return tuple(self.tp(y) for y in x)
        return x

    def bdd(self, n, memo=None):
        if n < 2:
            return n
        if memo is None:
            memo = {}
        r = memo.get(n)
        if r is None:
            a = tobool(self(_atoms[_bvar[n]])).a[0]
            r = memo[n] = _ite(a, self.bdd(_bhi[n], memo), self.bdd(_blo[n], memo))
        return r

    def rounds(self, s, kind, g=1):
        """[(guard, element, position)] of the first rounds over s (already peeled)."""
        if s.op == "case":
            out = []
            for gg, v in leaves(s):
                out += [(band(gg, h), e, p) for h, e, p in self.rounds(v, kind, band(g, gg))]
            return out
        r = apart(s)
        if r:
            out = []
            for gg, v in r:
                out += [(band(gg, h), e, p) for h, e, p in self.rounds(v, kind, band(g, gg)) if band(gg, h)]
            return out
        if s.op == "list" and all(not p.a[0] and p.a[1] is TRUE for p in s.a):
            out = []
            off = Int(0)
            for p in s.a:
                _, _, k, t = p.a
                if k == "one":
                    out.append((1, t, off))
                    off = add(off, Int(1))
                else:
                    out += [(h, e, add(off, q)) for h, e, q in self.rounds(t, kind, g)]
                    off = add(off, len_(t))
            return out
        if s.op == "set" and kind != "step" and kind not in ("one", "syml", "kv") and all(not p.a[0] for p in s.a):
            out = []
            for p in s.a:
                _, gd, k, t = p.a
                if k == "single":
                    out.append((gd.a[0], t, mk("posin", s, t)))
                else:
                    out += [(band(gd.a[0], h), e, mk("posin", s, e)) for h, e, q in self.rounds(t, kind, g)]
            return out
        if s.op == "set" and len(s.a) == 1 and not s.a[0].a[0] and s.a[0].a[2] == "single":
            return [(s.a[0].a[1].a[0], s.a[0].a[3], Int(0))]
        if s.op == "range":
            n = sub(s.a[1], s.a[0])
            out = []
            for i in range(self.k):
                out.append((ge0(sub(n, Int(i + 1))).a[0], add(s.a[0], Int(i)), Int(i)))
            self.more(band(g, ge0(sub(n, Int(self.k + 1))).a[0]))
            return [x for x in out if x[0]]
        n = len_(s)
        out = []
        if s.op != "from":
            self.more(band(g, ge0(sub(n, Int(self.k + 1))).a[0]))
        else:
            self.more(g)
        for i in range(self.k):
            h = ge0(sub(n, Int(i + 1))).a[0] if s.op != "from" else 1
            if h:
                out.append((h, index(s, Int(i)), Int(i)))
        return out

    def more(self, g):
        self.cut = bor(self.cut, g)

    def parts(self, c):
        """A bound part -> [(guard, term)] in order, loop-free."""
        bs, g, kind, t = open_cmp(c)
        out = []

        def go(i, m, gd):
            if i == len(bs):
                sb = Subst(m)
                g2 = self(sb(g) if m else g).a[0]
                g2 = band(gd, g2)
                if g2:
                    out.append((g2, self(sb(t) if m else t)))
                return
            s, n = bs[i]
            s2 = self(Subst(m)(s) if m else s)
            ren = Subst(m)(s) if m else s
            for h, e, p in self.rounds(s2, kind, gd):
                n2 = band(gd, h)
                if n2:
                    m2 = dict(m)
                    m2[el(s, n)] = e
                    m2[pos(s, n)] = p
                    if ren is not s:
                        m2[el(ren, n)] = e
                        m2[pos(ren, n)] = p
                    go(i + 1, m2, n2)

        go(0, {}, 1)
        return kind, out

    def go(self, t):
        op, a = t.op, t.a
        if op == "b":
            return B(self.bdd(a[0]))
        if op == "case":
            return mkcase([(self(g).a[0], self(v)) for g, v in a])
        if op == "set":
            ps = []
            for c in a:
                k, out = self.parts(c)
                for g, v in out:
                    ps += close([], B(g), k, v)
            return mkset(ps)
        if op == "list":
            alts = [(1, ())]
            for c in a:
                k, out = self.parts(c)
                for g, v in out:
                    for gv, w in leaves(v):
                        n = band(g, gv)
                        if not n:
                            continue
                        seg = mk("cmp", (), TRUE, k, w)
                        new = []
                        for h, segs in alts:
                            if band(h, n):
                                new.append((band(h, n), segs + (seg,)))
                            if band(h, bnot(n)):
                                new.append((band(h, bnot(n)), segs))
                        d = {}
                        for h, segs in new:
                            d[segs] = bor(d.get(segs, 0), h)
                        alts = [(h, segs) for segs, h in d.items()]
                        if len(alts) > 200:
                            raise TooBig()
            return mkcase([(h, mklist(list(segs))) for h, segs in alts])
        if op in ("mapof", "mm"):
            base = self(a[0])
            if op == "mm":
                ps = []
                for c in a[1]:
                    k, out = self.parts(c)
                    for g, v in out:
                        ps += close([], B(g), k, v)
                return mm(base, ps)
            for c in a[1]:
                k, out = self.parts(c)
                for g, v in out:
                    base = mkcase([(g, minsert(base, fld(v, "0"), fld(v, "1"))), (bnot(g), base)])
            return base
        if op == "any":
            n = 0
            k, out = self.parts(a[0])
            for g, _ in out:
                n = bor(n, g)
            return B(n)
        if op == "fold":
            c, slots = open_fold(t)
            bs, g, kind, st = open_cmp(c)
            cur = [self(x) for x in a[2]]

            def go(i, m, gd):
                nonlocal cur
                full = dict(m)
                full.update(zip(slots, cur))
                sb = Subst(full)
                if i == len(bs):
                    h = band(gd, self(sb(g)).a[0])
                    if h:
                        new = [self(sb(x)) for x in st.a]
                        cur = [mkcase([(h, y), (bnot(h), x)]) for x, y in zip(cur, new)]
                    return
                s, n = bs[i]
                s1 = sb(s)
                s2 = self(s1)
                for h, e, p in self.rounds(s2, "step", gd):
                    n2 = band(gd, h)
                    if n2:
                        m2 = dict(m)
                        m2[el(s, n)] = e
                        m2[pos(s, n)] = p
                        if s1 is not s:
                            m2[el(s1, n)] = e
                            m2[pos(s1, n)] = p
                        go(i + 1, m2, n2)

            go(0, {}, 1)
            return cur[a[3]]
        if op == "mu":
            slots, rest, inits = open_mu(t)
            cur = [self(x) for x in inits]
            alive = 1
            for r in range(self.k + 1):
                sb = Subst(dict(zip(slots, cur)))
                c = band(alive, self(sb(rest[0])).a[0])
                if r == self.k:
                    self.more(c)
                    break
                if c == 0:
                    break
                alive = c
                new = [self(sb(x)) for x in rest[1:]]
                cur = [mkcase([(c, y), (bnot(c), x)]) for x, y in zip(cur, new)]
            return cur[a[3]]
        if op in ("lam", "cmp", "el", "pos", "slot", "ph"):
            return t
        f = REBUILD.get(op)
        args = [self.tp(x) for x in a]
        if op in ("len", "index") and f:
            r = apart(args[0])
            if r:
                return mkcase([(g, f(l, *args[1:])) for g, l in r])
        if f:
            return f(*args)
        return relift(op, args)


def apart(l, most=6):
    """A list some of whose single elements are doubtful, as the lists it may be."""
    if l.op != "list":
        return None
    n = [p for p in l.a if not p.a[0] and p.a[1] is not TRUE]
    if not n or len(n) > most:
        return None
    alts = [(1, ())]
    for p in l.a:
        bs, g, k, t = p.a
        if bs or g is TRUE:
            alts = [(h, s + (p,)) for h, s in alts]
            continue
        q = mk("cmp", (), TRUE, k, t)
        alts = [(band(h, m), s + x) for h, s in alts for m, x in ((g.a[0], (q,)), (bnot(g.a[0]), ())) if band(h, m)]
    return [(h, mklist(list(s))) for h, s in alts]


class Flat:
    @staticmethod
    def join(v, sep):
        """Known texts with a separator between them."""
        if v.op not in ("xlist", "list") or any(p.a[0] or p.a[1] is not TRUE or p.a[2] != "one" for p in v.a):
            return relift("join", [v, sep])
        out = NIL
        for i, p in enumerate(v.a):
            out = concat(concat(out, sep) if i else out, p.a[3])
        return mk("xlist", *out.a) if out.op == "list" else out

    """Lists whose segments depend on guards as a choice between lists without guards."""

    def __init__(self, budget=8.0, cap=20000, alts=256):
        self.memo = {}
        self.end = time.time() + budget
        self.cap, self.alts, self.n = cap, alts, 0

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            self.n += 1
            if self.n > self.cap or time.time() > self.end:
                raise TooBig()
            r = self.memo[t] = self.go(t)
        return r

    def tp(self, x):
        if isinstance(x, T):
            return self(x)
        if isinstance(x, tuple):
            return tuple(self.tp(y) for y in x)
        return x

    def go(self, t):
        op, a = t.op, t.a
        if op in ("b", "lam", "cmp", "el", "pos", "slot", "ph", "fold", "mu", "any", "set", "mm", "mapof"):
            return t
        if op == "case":
            return mkcase([(g.a[0], self(v)) for g, v in a])
        if op == "list":
            alts = [(1, ())]
            for c in a:
                bs, g, k, v = c.a
                if bs:
                    alts = [(h, s + (c,)) for h, s in alts]
                    continue
                new = {}
                for gv, w in leaves(self(v)):
                    n = band(g.a[0], gv)
                    if w.op == "xlist":
                        segs = w.a if k == "syml" else (mk("cmp", (), TRUE, k, w),)
                    else:
                        segs = (mk("cmp", (), TRUE, k, w),)
                    for h, s in alts:
                        m = band(h, n)
                        if m:
                            new[s + segs] = bor(new.get(s + segs, 0), m)
                for h, s in alts:
                    m = band(h, bnot(g.a[0]))
                    if m:
                        new[s] = bor(new.get(s, 0), m)
                alts = [(h, s) for s, h in new.items()]
                if len(alts) > self.alts:
                    raise TooBig()
            out = []
            for h, s in alts:
                r = mklist(list(s))
                if r.op == "list" and not any(p.a[1] is not TRUE and not p.a[0] for p in r.a):
                    r = mk("xlist", *r.a)
                out.append((h, r))
            return mkcase(out)
        f = REBUILD.get(op)
        args = [self.tp(x) for x in a]
        if op == "join":
            return mkcase([(g, self.join(v, args[1])) for g, v in leaves(args[0])])
        if all(x is y for x, y in zip(args, a)):
            return t
        if f:
            return f(*args)
        return relift(op, args)
