"""Summaries of functions whose bodies have the same normal form in both trees.

A function that is equal in the reference model and in the code under analysis denotes one and the
same function of its arguments, so its callers may use an opaque symbol for it.  The symbol is
applied only to those parts of the arguments the normal form reads (its frame); small parts of the
normal form are put in directly.
"""
from terms import *
import terms as TT

WORLD, WORLDARG = ("W",), 90        # as in interp
BINDERS = ("mu", "fold", "any", "lem", "call", "rcall", "ext", "apply")


def size(t, limit=400):
    seen = {t}
    st = [t]
    n = 0
    while st:
        x = st.pop()
        n += 1
        if n > limit:
            return n
        for k in kids(x):
            if k not in seen:
                seen.add(k)
                st.append(k)
    return n


def mentions_op(t, ops, memo={}):
    k = (t, ops)
    r = memo.get(k)
    if r is None:
        r = t.op in ops or any(mentions_op(x, ops) for x in kids(t))
        memo[k] = r
    return r


def light(t):
    return not mentions_op(t, ("mu", "fold")) and size(t, 30) <= 24


def frame(t):
    """The maximal field chains of the arguments that t reads."""
    out = set()
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        y = x
        while y.op == "fld":
            y = y.a[0]
        if y.op == "arg":
            out.add(x)
            continue
        st.extend(kids(x))
    # drop chains below another one
    res = []
    for x in out:
        y = x
        covered = False
        while y.op == "fld":
            y = y.a[0]
            if y in out:
                covered = True
        if not covered:
            res.append(x)
    return sorted(res, key=show)


class Lemma:
    def __init__(self, name, argc, muts, nf):
        self.name, self.argc, self.muts = name, argc, muts
        self.nf = nf
        self.frames = {}
        self.opaque = False

    def closed(self):
        """The same, naming everything that holds a comprehension."""
        l = Lemma(self.name, self.argc, self.muts, self.nf)
        l.opaque = True
        return l

    def heavy(self):
        return not all(light(t) for t in [self.nf.ret] + self.nf.outs + [B(self.nf.n)])

    def build(self, t, tag, sb):
        if light(t) and not (self.opaque and (t.op == "any" or t.op == "b" or any(x.op == "cmp" and x.a[0] for x in kids(t)))):
            return sb(t)
        if t.op == "rec" and t.a[2]:
            return rec(t.a[0], t.a[1], t.a[2], [self.build(w, tag + (n,), sb) for n, w in zip(t.a[2], t.a[3])])
        if t.op == "case":
            ls = leaves(t)
            done = 0
            out = []
            for i, (g, v) in enumerate(ls):
                w = self.build(v, tag + (i,), sb)
                if i == len(ls) - 1:
                    out.append((bnot(done), w))
                    continue
                gg = tobool(self.build(B(g), tag + (i, "?"), sb)).a[0]
                out.append((band(gg, bnot(done)), w))
                done = bor(done, gg)
            return mkcase(out)
        if t.op == "list" and len(t.a) > 1:
            # text or items appended to what an argument holds
            p = t.a[0]
            bs, g, k, x = p.a
            if not bs and g is TRUE and k == "syml":
                y = x
                while y.op == "fld":
                    y = y.a[0]
                if y.op == "arg":
                    return concat(sb(x), self.build(mklist(list(t.a[1:])), tag + ("+",), sb))
        fr = self.frames.get(t)
        if fr is None:
            fr = self.frames[t] = frame(t)
        sym = relift("lem", [self.name, ".".join(map(str, tag))] + [sb(x) for x in fr])
        return tobool(sym) if t.op == "b" else sym

    def apply(self, ip, args, st):
        st = st.copy()
        vals = {}
        ptrs = []
        for i, a in enumerate(args):
            v = ip.lam(st, a)
            vals[mk("arg", i)] = v
        if ip.world:
            vals[mk("arg", WORLDARG)] = st.mem[WORLD]
        sb = Subst(vals)
        n = self.nf.n
        if n != 1:
            st.g = band(st.g, tobool(self.build(B(n), ("n",), sb)).a[0])
        r = self.build(self.nf.ret, ("r",), sb)
        outs = [self.build(o, ("o%d" % i,), sb) for i, o in zip(self.muts, self.nf.outs)]
        for i, o in zip(self.muts, outs):
            ip.storep(st, args[i] if i != WORLDARG else mk("ptr", WORLD, ()), o)
        ip.used.add("lemma:" + self.name)
        return r, st
