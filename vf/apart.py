"""Differences that hold whatever shape the rest of a form has.

Two peeled forms may contain things the comparison can not look behind.  They still come from code that behaves
differently if there are inputs, described by conditions on parts of the parameters alone, for which both are plain values
that can not be the same: other constants, other constructors, other numbers of elements, unrelated parts of the
parameters.  Nothing is evaluated: the inputs are a consistent choice of the guards' atoms.
"""
import os
import time

from terms import *
from terms import _atoms, _bvar, _bhi, _blo

PATH = {"arg", "fld", "index", "get", "pay", "keys"}
COND = PATH | {"int", "str", "char", "len", "lin", "ge0", "eq0", "eq", "has", "isv", "in", "rec", "b"}


def path(t):
    """A part of a parameter."""
    while t.op != "arg":
        if t.op not in PATH:
            return False
        if t.op in ("index", "get") and not (t.a[1].op in ("int", "str", "char") or path(t.a[1])):
            return False
        t = t.a[0]
    return True


def base(t):
    """(the element a part belongs to, its field)."""
    f = None
    while t.op in ("fld", "pay"):
        f = t.a[1] if t.op == "fld" else t.a[3]
        t = t.a[0]
    return t, f


def skeleton(t):
    """A path without its positions."""
    if t.op == "int":
        return 0
    return (t.op,) + tuple(skeleton(x) if isinstance(x, T) else x for x in t.a)


def cond(t):
    """A condition over parts of parameters."""
    seen, st = set(), [t]
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op not in COND or t.op == "b" and t.a[0] > 1:
            return False
        st.extend(kids(t))
    return True


def inner(t, seen):
    """Some guard atom inside a term, not under a binder."""
    st = [t]
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == "b" and t.a[0] > 1:
            return _atoms[_bvar[t.a[0]]]
        if t.op == "case":
            for g, _ in t.a:
                if g.a[0] > 1:
                    return _atoms[_bvar[g.a[0]]]
        if t.op == "cmp" and t.a[0] or t.op in ("lam", "fold", "mu", "any", "mapof", "mm"):
            continue
        st.extend(reversed(list(kids(t))))
    return None


def text(t):
    """The segments of a written text; None if it is none."""
    if t.op in ("str", "char"):
        return [t]
    if t.op in ("dbg", "disp"):
        return [t]
    if t.op in ("list", "xlist"):
        out = []
        for p in t.a:
            if p.a[0] or p.a[1] is not TRUE:
                return None
            s = p.a[3]
            if p.a[2] == "one":
                if s.op != "char":
                    return None
                out.append(s)
            else:
                if s.op not in ("str", "dbg", "disp"):
                    return None
                out.append(s)
        return out if not out or any(x.op != "char" for x in out) else None
    return None


def items(t):
    """(elements, spliced parts) of a list or set written out."""
    one, sp = [], []
    for p in t.a:
        if p.a[0] or p.a[1] is not TRUE:
            return None
        (one if p.a[2] in ("one", "single") else sp).append(p.a[3])
    return one, sp


def entries(t):
    out = {}
    while t.op == "minsert":
        out.setdefault(t.a[1], t.a[2])
        t = t.a[0]
    return out, t


def clash(x, y, d=0):
    """No values of the parts of parameters in general position make them the same."""
    if x is y or d > 12:
        return False
    tx, ty = text(x), text(y)
    if tx is not None and ty is not None:
        px, py = ([s.id for s in ts if s.op in ("dbg", "disp")] for ts in (tx, ty))
        if not all(path(s.a[0]) for s in tx + ty if s.op in ("dbg", "disp")):
            return False
        cx, cy = ("".join(str(s.a[0]) for s in ts if s.op in ("str", "char")) for ts in (tx, ty))
        return px != py or (len(cx) != len(cy) if px else cx != cy)
    if x.op == "b" and y.op == "b":
        return {x.a[0], y.a[0]} == {0, 1}
    if x.op == "int" and y.op == "int":
        return x.a[0] != y.a[0]
    if path(x) and path(y):
        for p, q in ((x, y), (y, x)):
            while p.op != "arg":
                if p is q:
                    return False
                p = p.a[0]
        return True
    if x.op == "rec" and y.op == "rec":
        if x.a[:2] != y.a[:2]:
            return x.a[0] == y.a[0]
        if x.a[2] != y.a[2]:
            return False
        return any(clash(p, q, d + 1) for p, q in zip(x.a[3], y.a[3]))
    if x.op in ("list", "xlist") and y.op in ("list", "xlist"):
        p, q = items(x), items(y)
        if p is None or q is None:
            return False
        if sorted(s.id for s in p[1]) != sorted(s.id for s in q[1]) or not all(path(s) for s in p[1]):
            return False
        if len(p[0]) != len(q[0]):
            return True
        return not p[1] and any(clash(a, b, d + 1) for a, b in zip(p[0], q[0]))
    if x.op == "set" and y.op == "set":
        p, q = items(x), items(y)
        if p is None or q is None or p[1] or q[1]:
            return False
        for a, b in ((p[0], q[0]), (q[0], p[0])):
            if any(all(clash(e, f, d + 1) for f in b) for e in a if e not in b):
                return True
        return False
    if x.op in ("minsert", "mempty") and y.op in ("minsert", "mempty"):
        (p, bp), (q, bq) = entries(x), entries(y)
        if bp is not bq:
            return False
        for k in set(p) & set(q):
            if clash(p[k], q[k], d + 1):
                return True
        for a, b in ((p, q), (q, p)):
            if bp.op == "mempty" and any(all(clash(k, l, d + 1) for l in b) for k in a if k not in b):
                return True
    return False


class Search:
    def __init__(self, theory, sums, pins, flat, budget=8.0, steps=400):
        self.theory, self.sums, self.pins, self.flat = theory, sums, pins, flat
        self.end, self.steps = time.time() + budget, steps

    def late(self):
        self.steps -= 1
        return self.steps < 0 or time.time() > self.end

    def values(self, x, y, n):
        """Inputs within n for which x and y clash."""
        from interp import canon
        st = [(x, y, n)]
        while st:
            x, y, n = st.pop()
            if self.late():
                return False
            x, y = canon(x, n), canon(y, n)
            if x is y:
                continue
            at = inner(x, set()) or inner(y, set())
            v = at and var_node(at)
            if at and (bimp(n, v) or bimp(n, bnot(v))):
                continue
            if at:
                for m in (band(n, v), band(n, bnot(v))):
                    if m:
                        st.append((x, y, m))
                continue
            if self.cubes(n, x, y):
                return True
        return False

    def guard(self, n):
        """Inputs within n at all."""
        return bool(n) and self.cubes(n, None, None)

    def cubes(self, n, x, y, most=40):
        st = [(n, ())]
        done = 0
        while st and done < most:
            m, lits = st.pop()
            if m == 1:
                done += 1
                if self.late():
                    return False
                if self.choice(lits, x, y):
                    return True
                continue
            if m == 0:
                continue
            at = _atoms[_bvar[m]]
            st.append((_bhi[m], lits + ((at, True),)))
            st.append((_blo[m], lits + ((at, False),)))
        return False

    def choice(self, lits, x, y):
        from interp import canon
        if not all(cond(a) for a, _ in lits):
            return False
        sb, same, pairs = Subst({}), 0, {}
        for a, v in lits:
            if a.op == "eq" and v:
                p, q = (sb(z) for z in a.a)
                if p is q:
                    continue
                if not path(p) or path(q) and q.id > p.id:
                    p, q = q, p
                if not path(p) or p in kids_deep(q):
                    return False
                if skeleton(p) == skeleton(q) and any(z.op == "keys" for z in kids_deep(p)):
                    # what stands at two keys of a map may be told apart by the keys
                    return False
                fields = pairs.setdefault(frozenset((base(p)[0], base(q)[0])), set())
                fields.add(base(p)[1])
                same += 1
                if same > 5 or len(fields) > 2:
                    return False
                old, new = sb, Subst({p: q})
                sb = (lambda o, w: lambda t: w(o(t)))(old, new)
        n = 1
        kinds = {}
        for a, v in lits:
            g = tobool(sb(a)).a[0]
            n = band(n, g if v else bnot(g))
            if a.op == "isv" and v and kinds.setdefault(a.a[0], a) is not a:
                return False
        if not n:
            return False
        n = band(n, band(self.theory([B(n)]), self.sums([B(n)])))
        if not n:
            return False
        if x is None:
            return True
        pn = self.pins(n)
        if pn:
            n2 = tobool(pn(B(n))).a[0]
            if not n2:
                return False

        def fin(t):
            t = canon(sb(t), n)
            if pn:
                t = pn(t)
            return self.flat(canon(t, n))
        x, y = fin(x), fin(y)
        r = clash(x, y)
        if r and os.environ.get("VF_DEBUG"):
            print("APART", show(B(n)), "\n  ", show(x), "\n  ", show(y))
        return r
