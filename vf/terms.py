"""Hash-consed terms, boolean guards (ROBDDs) and the normalising constructors of the value-flow
normal form.

A term is an immutable, interned node.  Equal normal forms are the same Python object.  All
constructors below normalise; none of them inspects names of locals, positions or source text.

Binders.  Iterating over a collection S binds an element variable el(S, tag).  While an analysis is
inside the loop the tag is open, ('o', n) with a fresh n; when the loop is summarised the tag
becomes ('c', h), h = 1 + the largest closed tag inside, so alpha-equivalent summaries coincide.
"""
import itertools
import sys

sys.setrecursionlimit(100000)


class T:
    __slots__ = ("op", "a", "id", "_h", "_fv")

    def __repr__(self):
        return show(self)


_tab = {}
_ids = itertools.count(1)
_fresh = itertools.count(1)


def mk(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.a, t.id, t._h, t._fv = op, a, next(_ids), None, None
        _tab[k] = t
    return t


def fresh():
    return next(_fresh)


def kids(x):
    """All terms directly below (through nested tuples, and the atoms of a guard)."""
    if isinstance(x, T):
        if x.op == "b":
            yield from atoms_of(x.a[0])
        else:
            for y in x.a:
                if isinstance(y, T):
                    yield y
                elif isinstance(y, tuple):
                    yield from kids_t(y)


def kids_t(tp):
    for y in tp:
        if isinstance(y, T):
            yield y
        elif isinstance(y, tuple):
            yield from kids_t(y)


# ------------------------------------------------------------------------------------------- BDD
_bvar, _blo, _bhi = [None, None], [None, None], [None, None]
_buniq = {}
_avar = {}
_atoms = []
_itec = {}


def atoms_of(n):
    seen, out, st = set(), [], [n]
    while st:
        n = st.pop()
        if n < 2 or n in seen:
            continue
        seen.add(n)
        v = _atoms[_bvar[n]]
        if v not in out:
            out.append(v)
        st.append(_blo[n])
        st.append(_bhi[n])
    return out


def _node(v, lo, hi):
    if lo == hi:
        return lo
    k = (v, lo, hi)
    r = _buniq.get(k)
    if r is None:
        r = len(_bvar)
        _bvar.append(v)
        _blo.append(lo)
        _bhi.append(hi)
        _buniq[k] = r
    return r


def _ite(f, g, h):
    if f == 1:
        return g
    if f == 0:
        return h
    if g == h:
        return g
    if g == 1 and h == 0:
        return f
    k = (f, g, h)
    r = _itec.get(k)
    if r is not None:
        return r
    v = min(_bvar[x] for x in (f, g, h) if x > 1)

    def co(x, b):
        if x < 2 or _bvar[x] != v:
            return x
        return _bhi[x] if b else _blo[x]

    r = _node(v, _ite(co(f, 0), co(g, 0), co(h, 0)), _ite(co(f, 1), co(g, 1), co(h, 1)))
    _itec[k] = r
    return r


def band(f, g):
    return _ite(f, g, 0)


def bor(f, g):
    return _ite(f, 1, g)


def bnot(f):
    return _ite(f, 0, 1)


def bimp(f, g):
    return _ite(f, g, 1) == 1


def _exists(f, v):
    return bor(_cof(f, v, 0), _cof(f, v, 1))


def _cof(f, v, b):
    if f < 2 or _bvar[f] > v:
        return f
    if _bvar[f] == v:
        return _bhi[f] if b else _blo[f]
    return _node(_bvar[f], _cof(_blo[f], v, b), _cof(_bhi[f], v, b))


_rc = {}


def brestrict(f, c):
    """Simplify f under the assumption c (canonical in (f, c))."""
    if c == 1 or f < 2 or c == 0:
        return f
    if bimp(c, f):
        return 1
    if bimp(c, bnot(f)):
        return 0
    k = (f, c)
    r = _rc.get(k)
    if r is not None:
        return r
    vf, vc = _bvar[f], _bvar[c]
    if vc < vf:
        r = brestrict(f, bor(_blo[c], _bhi[c]))
    elif vf < vc:
        r = _node(vf, brestrict(_blo[f], c), brestrict(_bhi[f], c))
    elif _blo[c] == 0:
        r = brestrict(_bhi[f], _bhi[c])
    elif _bhi[c] == 0:
        r = brestrict(_blo[f], _blo[c])
    else:
        r = _node(vf, brestrict(_blo[f], _blo[c]), brestrict(_bhi[f], _bhi[c]))
    _rc[k] = r
    return r


_kc = {}


def bconstrain(f, c):
    """The generalized cofactor: equal for any two functions that agree where c holds."""
    if c == 1 or f < 2 or c == 0:
        return f
    if f == c:
        return 1
    k = (f, c)
    r = _kc.get(k)
    if r is not None:
        return r
    vf, vc = _bvar[f], _bvar[c]
    v = min(vf, vc)
    f0, f1 = (_blo[f], _bhi[f]) if vf == v else (f, f)
    c0, c1 = (_blo[c], _bhi[c]) if vc == v else (c, c)
    if c0 == 0:
        r = bconstrain(f1, c1)
    elif c1 == 0:
        r = bconstrain(f0, c0)
    else:
        r = _node(v, bconstrain(f0, c0), bconstrain(f1, c1))
    _kc[k] = r
    return r


TRUE, FALSE = mk("b", 1), mk("b", 0)


def B(n):
    return mk("b", n)


def var_node(atom):
    v = _avar.get(atom)
    if v is None:
        v = _avar[atom] = len(_atoms)
        _atoms.append(atom)
    return _node(v, 0, 1)


def atom(t):
    return B(var_node(t))


def And(x, y):
    return B(band(x.a[0], y.a[0]))


def Or(x, y):
    return B(bor(x.a[0], y.a[0]))


def Not(x):
    return B(bnot(x.a[0]))


def tobool(t):
    """A boolean value as a guard term."""
    if t.op == "b":
        return t
    if t.op == "case":
        n = 0
        for g, v in t.a:
            n = bor(n, band(g.a[0], tobool(v).a[0]))
        return B(n)
    if t.op == "int":
        return TRUE if t.a[0] else FALSE
    return atom(t)


# ------------------------------------------------------------------------------------------- ADTs
ADTS = {}


def variants(adt):
    d = ADTS.get(adt)
    return [v["name"] for v in d["variants"]] if d else None


def fields(adt, variant=None):
    d = ADTS.get(adt)
    if not d:
        return None
    for v in d["variants"]:
        if variant is None or v["name"] == variant:
            return [f[0] for f in v["fields"]]
    return None


OPTION, RESULT, CF = "core::option::Option", "core::result::Result", "core::ops::control_flow::ControlFlow"


# ------------------------------------------------------------------------------------------- cases
def leaves(t):
    """(guard node, leaf) pairs of a value."""
    if t.op == "case":
        return [(g.a[0], v) for g, v in t.a]
    return [(1, t)]


def simp(t, g):
    """The value under the path guard g: drop impossible leaves."""
    if t.op != "case" or g == 1:
        return t
    ls = [(gg, v) for gg, v in leaves(t) if band(gg, g) != 0]
    if len(ls) == len(t.a):
        return t
    return mkcase(ls)


def unwritten(flat):
    """Writing to a map what it already holds there is no write, where the choice asks for that anyway."""
    have = None
    out = []
    for g, v in flat:
        if v.op == "minsert":
            m, k, w = v.a
            e = And(has(m, k), eq(get(m, k), w)).a[0]
            if e > 1:
                if have is None:
                    have = set()
                    for h, _ in flat:
                        have.update(atoms_of(h))
                if all(x in have for x in atoms_of(e)) and band(g, e):
                    out.append((band(g, e), m))
                    g = band(g, bnot(e))
        if g:
            out.append((g, v))
    return out


def mkcase(ls):
    """A value that is v where its guard holds; guards are disjoint, unlisted inputs are don't-cares."""
    flat = []
    un = None
    for g, v in ls:
        if g == 0:
            continue
        if v.op == "case":
            for gg, vv in leaves(v):
                n = band(g, gg)
                if n:
                    flat.append((n, vv))
        elif v.op in ("undef", "uninit"):
            un = v
        else:
            flat.append((g, v))
    if not flat:
        return un or mk("undef")
    if len(flat) > 1 and any(v.op == "minsert" for _, v in flat):
        flat = unwritten(flat)
    d = {}
    for g, v in flat:
        d[v] = bor(d.get(v, 0), g)
    if len(d) == 1:
        return next(iter(d))
    if all(v.op == "b" for v in d):
        n = 0
        for v, g in d.items():
            n = bor(n, band(g, v.a[0]))
        return B(n)
    if any(v.op == "b" for v in d) and all(v.op in ("b", "ph", "slot", "fld", "pay", "arg") for v in d):
        n = 0
        for v, g in d.items():
            n = bor(n, band(g, tobool(v).a[0]))
        return B(n)
    x = next(iter(d))
    if x.op == "rec" and pushin(x.a[0]):
        if all(v.op == "rec" and v.a[0] == x.a[0] for v in d):
            return rec(x.a[0], x.a[1], x.a[2], [mkcase([(g, v.a[3][i]) for v, g in d.items()]) for i in range(len(x.a[2]))])
    elif any(v.op == "rec" and pushin(v.a[0]) for v in d):
        x = next(v for v in d if v.op == "rec" and pushin(v.a[0]))
        if all(v.op in SYMOPS or v.op == "rec" and v.a[0] == x.a[0] for v in d):
            return rec(x.a[0], x.a[1], x.a[2], [mkcase([(g, fld(v, nm)) for v, g in d.items()]) for nm in x.a[2]])
    d = _case_rules(d)
    if len(d) == 1:
        return next(iter(d))
    return mk("case", *sorted(((B(g), v) for v, g in d.items()), key=lambda x: x[1].id))


SYMOPS = ("ph", "slot", "fld", "pay", "arg", "el", "index", "get", "call", "ext", "hav", "mures", "fold", "mu", "apply")
PUSHIN = set()


def pushin(adt):
    """State-like structs: alternatives stay inside their fields."""
    return adt is not None and (adt in PUSHIN or adt.startswith("clo:"))


def is_setlike(v):
    return v.op in ("set", "sminus")


def _case_rules(d):
    # x without e where e is in x, x otherwise
    for v in list(d):
        if v.op == "sminus" and v.a[0] in d:
            inn = in_(v.a[1], v.a[0]).a[0]
            if bimp(d[v.a[0]], bnot(inn)):
                d[v] = bor(d[v], d.pop(v.a[0]))
                return _case_rules(d)
        if v.op == "mremove" and v.a[0] in d:
            inn = has(v.a[0], v.a[1]).a[0]
            if bimp(d[v.a[0]], bnot(inn)):
                d[v] = bor(d[v], d.pop(v.a[0]))
                return _case_rules(d)
    # an insertion of what is there already
    for v in list(d):
        if v.op == "set" and len(d) > 1:
            for w in list(d):
                if w is v:
                    continue
                ex = _set_minus_parts(v, w)
                if ex is None:
                    continue
                # v = w + ex ; where d[w] holds, all of ex is in w  => the value is v everywhere
                ok = True
                for p in ex:
                    if p.a[0] or p.a[2] != "single" or not bimp(d[w], bor(in_(p.a[3], w).a[0], bnot(p.a[1].a[0]))):
                        ok = False
                if ok:
                    d[v] = bor(d[v], d.pop(w))
                    return _case_rules(d)
        if v.op == "minsert" and v.a[0] in d:
            w = v.a[0]
            if v.a[2].op == "get" and v.a[2].a == (w, v.a[1]) and bimp(d[w], has(w, v.a[1]).a[0]):
                d[v] = bor(d[v], d.pop(w))
                return _case_rules(d)
    # Option/Result rebuilt from its own payload
    for v in list(d):
        if v.op == "rec" and len(v.a[3]) == 1 and v.a[3][0].op == "pay":
            x = v.a[3][0].a[0]
            if v.a[3][0].a[1] == v.a[0] and v.a[3][0].a[2] == v.a[1] and bimp(d[v], isv(x, v.a[0], v.a[1]).a[0]):
                g = d.pop(v)
                d[x] = bor(d.get(x, 0), g)
                return _case_rules(d)
    for v in list(d):
        if v.op == "rec" and len(v.a[3]) == 0 and v.a[0] and variants(v.a[0]) and len(variants(v.a[0])) > 1:
            for x in list(d):
                if x.op in ("case", "rec", "b", "int", "str", "set", "list"):
                    continue
                isx = isv_sym(x, v.a[0], v.a[1])
                if isx and d[x] and bimp(d[x], bnot(isx)):
                    part = band(d[v], isx)
                    if part:
                        rest = band(d[v], bnot(isx))
                        d[x] = bor(d[x], part)
                        if rest:
                            d[v] = rest
                        else:
                            d.pop(v)
                        return _case_rules(d)
    # sets: one guarded union; maps: same key, set values; lists: common prefix
    if any(is_setlike(v) and v.op == "set" for v in d) and len(d) > 1 and all(_maybe_set(v) for v in d):
        parts = []
        for v, g in d.items():
            for p in set_parts(v):
                parts.append((p, g))
        s = mkset_guarded(parts)
        if s.op != "case":
            return {s: 1}
    ins = [v for v in d if v.op == "minsert"]
    if len(ins) >= 2:
        for v in ins:
            for w in ins:
                if v is not w and v in d and w in d and v.a[0] is w.a[0] and v.a[1] is w.a[1]:
                    g = bor(d[v], d[w])
                    val = mkcase([(d[v], v.a[2]), (d[w], w.a[2])])
                    if val.op != "case":
                        d.pop(v)
                        d.pop(w)
                        n = minsert(v.a[0], v.a[1], val)
                        d[n] = bor(d.get(n, 0), g)
                        return _case_rules(d)
    if any(v.op == "list" for v in d) and all(_maybe_list(v) for v in d):
        segs = {v: list_segs(v) for v in d}
        pre = []
        for col in zip(*segs.values()):
            if all(c is col[0] for c in col):
                pre.append(col[0])
            else:
                break
        out, k = list(pre), len(pre)
        rest = [(g, segs[v][k:]) for v, g in d.items()]
        # only factor when the alternatives differ in whole guarded blocks
        if any(len(r) == 0 for _, r in rest) or pre:
            blocks = []
            for g, r in rest:
                for s in r:
                    blocks.append((g, s))
            tot = 0
            for g, _ in rest:
                tot = bor(tot, g)
            ng = [b for b in rest if b[1]]
            new = []
            for g, r in sorted(ng, key=lambda b: b[1][0].id):
                gr = brestrict(g, tot)
                for s in r:
                    new.append(guard_cmp(s, gr))
            return {mklist(out + new): 1}
        # a list with one part in doubt, next to the list it is otherwise
        for v in list(d):
            if v.op != "list":
                continue
            dub = [i for i, c in enumerate(v.a) if not c.a[0] and c.a[1] is not TRUE]
            if len(dub) != 1:
                continue
            i = dub[0]
            c = v.a[i]
            alts = [(c.a[1].a[0], mklist(v.a[:i] + (mk("cmp", (), TRUE, c.a[2], c.a[3]),) + v.a[i + 1:])),
                    (bnot(c.a[1].a[0]), mklist(v.a[:i] + v.a[i + 1:]))]
            if any(w in d for _, w in alts):
                g = d.pop(v)
                for h, w in alts:
                    n = band(g, h)
                    if n:
                        d[w] = bor(d.get(w, 0), n)
                return _case_rules(d)
    return d


def lift(f):
    """Distribute a constructor over guarded alternatives of its arguments."""

    def g(*args):
        for i, x in enumerate(args):
            if isinstance(x, T) and x.op == "case":
                return mkcase([(gg, g(*args[:i], v, *args[i + 1:])) for gg, v in leaves(x)])
        return f(*args)

    g.__name__ = f.__name__
    g.raw = f
    return g


# ------------------------------------------------------------------------------------------- scalars
def Int(n):
    return mk("int", int(n))


def Str(s):
    return mk("str", s) if s else NIL


UNIT = mk("rec", None, None, (), ())


def rec(adt, variant, names, vals):
    vals = tuple(vals)
    for i, x in enumerate(vals):
        if x.op == "case" and not pushin(adt):
            return mkcase([(gg, rec(adt, variant, names, vals[:i] + (v,) + vals[i + 1:])) for gg, v in leaves(x)])
    names = tuple(names)
    vs = variants(adt) if adt else None
    if names and adt and vs and len(vs) == 1:
        x = None
        for n, v in zip(names, vals):
            if v.op == "fld" and v.a[1] == n and (x is None or v.a[0] is x):
                x = v.a[0]
            else:
                x = None
                break
        if x is not None:
            return x
    return mk("rec", adt, variant, names, vals)


def tup(*vals):
    return rec(None, None, tuple(str(i) for i in range(len(vals))), vals)


def Some(x):
    return rec(OPTION, "Some", ("0",), (x,))


NONE = mk("rec", OPTION, "None", (), ())


def Ok(x):
    return rec(RESULT, "Ok", ("0",), (x,))


def Err(x):
    return rec(RESULT, "Err", ("0",), (x,))


@lift
def fld(x, name):
    if x.op == "rec":
        for n, v in zip(x.a[2], x.a[3]):
            if n == name:
                return v
        return mk("undef")
    if x.op == "upd":
        return x.a[2] if x.a[1] == name else fld(x.a[0], name)
    if x.op in ("undef", "uninit"):
        return x
    return mk("fld", x, name)


@lift
def pay(x, adt, variant, name):
    if x.op == "rec":
        if x.a[1] != variant:
            return mk("undef")
        return fld(x, name)
    if x.op in ("undef", "uninit"):
        return x
    return mk("pay", x, adt, variant, name)


def isv_sym(x, adt, variant):
    vs = variants(adt)
    if not vs or variant not in vs:
        return None
    return isv(x, adt, variant).a[0]


@lift
def isv(x, adt, variant):
    if x.op == "rec":
        return TRUE if x.a[1] == variant else FALSE
    if x.op == "undef":
        return FALSE
    vs = variants(adt) or [variant]
    if len(vs) == 1:
        return TRUE
    i = vs.index(variant)
    n = 1
    for j in range(i):
        n = band(n, bnot(var_node(mk("isv", x, adt, vs[j]))))
    if i < len(vs) - 1:
        n = band(n, var_node(mk("isv", x, adt, variant)))
    return B(n)


# integers: linear forms  const + sum coef*term
def lin_parts(x):
    if x.op == "int":
        return x.a[0], {}
    if x.op == "lin":
        return x.a[0], dict(x.a[1])
    return 0, {x: 1}


def mklin(c, d):
    d = {t: k for t, k in d.items() if k}
    if not d:
        return Int(c)
    if c == 0 and len(d) == 1:
        t, k = next(iter(d.items()))
        if k == 1:
            return t
    return mk("lin", c, tuple(sorted(d.items(), key=lambda p: p[0].id)))


@lift
def add(x, y):
    c, d = lin_parts(x)
    c2, d2 = lin_parts(y)
    for t, k in d2.items():
        d[t] = d.get(t, 0) + k
    return mklin(c + c2, d)


@lift
def scale(x, k):
    c, d = lin_parts(x)
    return mklin(c * k, {t: n * k for t, n in d.items()})


def sub(x, y):
    return add(x, scale(y, -1))


@lift
def mul(x, y):
    if x.op == "int":
        return scale(y, x.a[0])
    if y.op == "int":
        return scale(x, y.a[0])
    x, y = sorted((x, y), key=lambda t: t.id)
    return mk("mul", x, y)


def _bounds(t):
    """(lower, upper) terms for a non-negative loop index, or None."""
    if t.op == "pos":
        return Int(0), sub(len_(t.a[0]), Int(1))
    if t.op == "el" and t.a[0].op == "range":
        return t.a[0].a[0], sub(t.a[0].a[1], Int(1))
    if t.op == "index" and t.a[0].op == "list" and len(t.a[0].a) == 1 and t.a[0].a[0].a[2] == "one":
        # one of the chosen positions of a sequence
        p = t.a[0].a[0]
        if len(p.a[0]) == 1 and p.a[3].op in ("el", "pos"):
            bs, _, _, v = open_cmp(p)
            if v.a[1] == ("o", bs[0][1]) and v.a[0] is bs[0][0]:
                return _bounds(v)
    return None


def _nonneg(c, d):
    return c >= 0 and all(k >= 0 for k in d.values())


@lift
def ge0(x):
    """x >= 0, all variables being unsigned."""
    c, d = lin_parts(x)
    if _nonneg(c, d) or c < 0 and _nonneg(c + sum(k for t, k in d.items() if t.op == "len" and t.a[0].op == "dbg"), d):
        # a debug form is never empty
        return TRUE
    if c < 0 and all(k <= 0 for k in d.values()):
        return FALSE
    for t, k in d.items():
        b = _bounds(t)
        if b and abs(k) == 1:
            rest = mklin(c, {u: n for u, n in d.items() if u is not t})
            lo = add(rest, scale(b[0] if k > 0 else b[1], k))
            cl, dl = lin_parts(lo) if lo.op != "case" else (-1, {})
            if lo.op != "case" and _nonneg(cl, dl):
                return TRUE
            if lo.op != "case" and len(dl) < len(d) and any(_bounds(u) for u in dl) and ge0(lo) is TRUE:
                return TRUE
            hi = add(rest, scale(b[1] if k > 0 else b[0], k))
            ch, dh = lin_parts(hi) if hi.op != "case" else (1, {})
            if hi.op != "case" and ch < 0 and all(n <= 0 for n in dh.values()):
                return FALSE
    if len(d) == 1:
        t, k = next(iter(d.items()))
        if k == 1 and c == -1 and t.op == "len":
            return nonempty(t.a[0])
        if k == -1 and c == 0:
            if t.op == "len":
                return Not(nonempty(t.a[0]))
            return Not(ge0(add(t, Int(-1))))
    items = sorted(d.items(), key=lambda p: p[0].id)
    if items[0][1] < 0:
        return Not(B(var_node(mk("ge0", mklin(-c - 1, {t: -k for t, k in d.items()})))))
    return B(var_node(mk("ge0", mklin(c, d))))


@lift
def eq0(x):
    c, d = lin_parts(x)
    if not d:
        return TRUE if c == 0 else FALSE
    if all(k > 0 for k in d.values()) and c > 0 or all(k < 0 for k in d.values()) and c < 0:
        return FALSE
    if ge0(x) is FALSE or ge0(scale(x, -1)) is FALSE:
        return FALSE
    if ge0(x) is TRUE:
        return ge0(scale(x, -1))
    if ge0(scale(x, -1)) is TRUE:
        return ge0(x)
    items = sorted(d.items(), key=lambda p: p[0].id)
    if items[0][1] < 0:
        x = scale(x, -1)
        c, d = lin_parts(x)
    return atom(mk("eq0", x))


def lt(x, y):
    return ge0(sub(sub(y, x), Int(1)))


def le(x, y):
    return ge0(sub(y, x))


INTS = ("int", "lin", "len", "pos", "mul")


@lift
def eq(x, y):
    if x is y:
        return TRUE
    if x.op in INTS or y.op in INTS:
        return eq0(sub(x, y))
    if x.op == "b" or y.op == "b":
        if x.op in ("b",) and y.op in ("b",):
            return B(_ite(x.a[0], y.a[0], bnot(y.a[0])))
        a, b = (x, y) if x.op == "b" else (y, x)
        n = tobool(b).a[0]
        return B(_ite(a.a[0], n, bnot(n)))
    if x.op == "str" and y.op == "str":
        return FALSE
    if x.op == "rec" and y.op == "rec":
        if x.a[1] != y.a[1]:
            return FALSE
        n = TRUE
        for a, b in zip(x.a[3], y.a[3]):
            n = And(n, eq(a, b))
        return n
    if y.op == "rec":
        x, y = y, x
    if x.op == "rec" and x.a[0] is not None or x.op == "rec" and x.a[1] is None:
        adt, v = x.a[0], x.a[1]
        if adt and variants(adt):
            n = isv(y, adt, v)
            multi = len(variants(adt)) > 1
            for nm, val in zip(x.a[2], x.a[3]):
                n = And(n, eq(val, pay(y, adt, v, nm) if multi else fld(y, nm)))
            return n
        if adt is None:
            n = TRUE
            for nm, val in zip(x.a[2], x.a[3]):
                n = And(n, eq(val, fld(y, nm)))
            return n
    if x.op == "disc" and y.op == "disc" and x.a[1] == y.a[1] and variants(x.a[1]) and len(variants(x.a[1])) <= 12:
        adt = x.a[1]
        if not any(v["fields"] for v in ADTS[adt]["variants"]):
            return eq(x.a[0], y.a[0])
        n = 0
        for v in variants(adt):
            n = bor(n, band(isv(x.a[0], adt, v).a[0], isv(y.a[0], adt, v).a[0]))
        return B(n)
    for a, b in ((x, y), (y, x)):
        if a.op == "set" and not a.a:
            return Not(nonempty(b))
        if a.op == "list" and not a.a:
            return Not(nonempty(b))
        if a.op == "str" and a.a[0] == "":
            return Not(nonempty(b))
    x, y = sorted((x, y), key=lambda t: t.id)
    return atom(mk("eq", x, y))


# ------------------------------------------------------------------------------------------- binders
def height(t):
    if t._h is None:
        h = 0
        if t.op in ("el", "pos") and t.a[1][0] == "c":
            h = t.a[1][1]
        elif t.op == "slot":
            h = t.a[0]
        elif t.op == "cmp":
            for _, hh in t.a[0]:
                h = max(h, hh)
        elif t.op in ("fold", "mu", "lam"):
            h = t.a[0]
        for k in kids(t):
            h = max(h, height(k))
        t._h = h
    return t._h


_EMPTY = frozenset()


def fv(t):
    """Open binder tags, placeholders (fresh numbers) occurring in the term."""
    if t._fv is None:
        s = set()
        if t.op in ("el", "pos") and t.a[1][0] == "o":
            s.add(t.a[1][1])
        elif t.op == "ph":
            s.add(t.a[0])
        for k in kids(t):
            s |= fv(k)
        t._fv = frozenset(s) if s else _EMPTY
    return t._fv


def el(seq, n):
    return mk("el", seq, ("o", n))


def pos(seq, n):
    return mk("pos", seq, ("o", n))


REBUILD = {}


class Subst:
    """Capture-avoiding simultaneous replacement of terms, renormalising on the way."""

    def __init__(self, m):
        self.m = m
        self.memo = {}
        self.keyfv = frozenset(x for k in m for x in fv(k))
        self.useful = all(fv(k) for k in m)
        self.cont = {}

    def occurs(self, t):
        """Some key occurs in t."""
        if self.useful and not (fv(t) & self.keyfv):
            return False
        r = self.cont.get(t)
        if r is None:
            r = t in self.m or any(self.occurs(k) for k in kids(t))
            self.cont[t] = r
        return r

    def __call__(self, t):
        if t in self.m:
            return self.m[t]
        if not self.occurs(t):
            return t
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.go(t)
        return r

    def tp(self, x):
        if isinstance(x, T):
            return self(x)
        if isinstance(x, tuple):
            return tuple(self.tp(y) for y in x)
        return x

    def bdd(self, n, memo=None):
        if n < 2:
            return n
        if memo is None:
            memo = {}
        r = memo.get(n)
        if r is None:
            a = tobool(self(_atoms[_bvar[n]])).a[0]
            r = memo[n] = _ite(a, self.bdd(_bhi[n], memo), self.bdd(_blo[n], memo))
        return r

    def cmps(self, c):
        """A bound part -> list of bound parts."""
        if not self.occurs(c):
            return [c]
        bs, g, kind, t = open_cmp(c)
        bs2 = []
        ren = {}
        sub_ = self
        for s, n in bs:
            s2 = sub_(s)
            if s2 is not s:
                ren[el(s, n)] = el(s2, n)
                ren[pos(s, n)] = pos(s2, n)
                m = dict(self.m)
                m.update(ren)
                sub_ = Subst(m)
            bs2.append((s2, n))
        return close(bs2, sub_(g), kind, sub_(t))

    def go(self, t):
        op, a = t.op, t.a
        if op == "b":
            return B(self.bdd(a[0]))
        if op == "case":
            return mkcase([(self(g).a[0], self(v)) for g, v in a])
        if op in ("set", "list"):
            ps = [q for p in a for q in self.cmps(p)]
            return mkset(ps) if op == "set" else mklist(ps)
        if op in ("mapof", "mm"):
            return {"mapof": mapof, "mm": mm}[op](self(a[0]), [q for p in a[1] for q in self.cmps(p)])
        if op == "any":
            n = 0
            for q in self.cmps(a[0]):
                n = bor(n, any_cmp(q).a[0])
            return B(n)
        if op == "cmp":
            qs = self.cmps(t)
            return qs[0] if len(qs) == 1 else mk("undef")
        if op in ("first", "pw", "lastof"):
            qs = [self.tp(x) if not (isinstance(x, T) and x.op == "cmp") else self.cmps(x) for x in a]
            qs2 = [x[0] if isinstance(x, list) and len(x) == 1 else (mk("undef") if isinstance(x, list) else x) for x in qs]
            return mk(op, *qs2)
        if op == "fold":
            c, slots = open_fold(t)
            qs = self.cmps(c)
            inits = self.tp(a[2])
            if len(qs) != 1:
                return mk("foldx", self.tp(a[1]), inits, tuple(qs), a[3])
            return close_fold(qs[0], slots, inits, a[3])
        if op == "mu":
            slots, rest, inits = open_mu(t)
            return close_mu(slots, self.tp(rest), self.tp(inits), t.a[3])
        if op == "lam":
            slots, body = open_lam(t)
            return close_lam(slots, self.tp(body))
        f = REBUILD.get(op)
        if f:
            return f(*[self.tp(x) for x in a])
        # a plain constructor; lift alternatives out
        args = [self.tp(x) for x in a]
        return relift(op, args)


def relift(op, args):
    for i, x in enumerate(args):
        if isinstance(x, T) and x.op == "case":
            return mkcase([(g, relift(op, args[:i] + [v] + args[i + 1:])) for g, v in leaves(x)])
    return mk(op, *args)


def subst(t, m):
    if not m:
        return t
    return Subst(m)(t)


def open_cmp(c):
    """-> ([(seq, n)], guard, kind, term) with fresh open binders (outermost first)."""
    bs, g, kind, t = c.a
    if not bs:
        return [], g, kind, t
    out = []
    m = {}
    seqs = []
    bs = list(bs)
    cur = list(bs)
    for i, (s, h) in enumerate(bs):
        s2 = subst(s, m) if m else s
        n = fresh()
        out.append((s2, n))
        # the closed variable mentions the seq as it stands inside the closed term
        m[mk("el", s, ("c", h))] = el(s2, n)
        m[mk("pos", s, ("c", h))] = pos(s2, n)
    sb = Subst(m)
    return out, sb(g), kind, sb(t)


SETK = ("single", "sym", "any", "mm")


@lift
def hashord(s):
    """The elements of a hashed collection, in no order a program can rely on."""
    if s.op in ("hashord", "mempty", "undef"):
        return s
    if s.op in ("set", "list") and not s.a:
        return s
    return mk("hashord", s)


def compound(s):
    return s.op in ("set", "list", "case", "rev", "hashord") or s.op == "range" and s.a[0].op == "int" and s.a[0].a[0] == 0


def close(bs, g, kind, t):
    """Close a part bound by bs (outermost first), expanding compound sequences."""
    if g is FALSE:
        return []
    ordered = kind in ("one", "syml")
    for i, (s, n) in enumerate(bs):
        alts = expand(s, kind, n)
        if alts is None or ordered and i > 0 and len(alts) != 1:
            continue
        out = []
        for nbs, ng, e, p in alts:
            m = {el(s, n): e}
            if p is not None:
                m[pos(s, n)] = p
            else:
                m[pos(s, n)] = mk("posin", s, e)
            sb = Subst(m)
            rest = []
            for s2, n2 in bs[i + 1:]:
                s3 = sb(s2)
                if s3 is not s2:
                    sb.m[el(s2, n2)] = el(s3, n2)
                    sb.m[pos(s2, n2)] = pos(s3, n2)
                    sb = Subst(sb.m)
                rest.append((s3, n2))
            out += close(bs[:i] + nbs + rest, And(ng, sb(g)), kind, sb(t))
        return out
    if t.op == "case" and kind not in ("fold", "step", "one", "syml"):
        out = []
        for gg, v in leaves(t):
            out += close(bs, And(g, B(gg)), kind, v)
        return out
    bs, g, t = shift(bs, g, t)
    if kind == "kv" and len(bs) == 1 and bs[0][0].op == "hashord" and fld(t, "0") is el(*bs[0]) \
            and pos(*bs[0]) not in kids_deep(g, t):
        s, n = bs[0]
        sb = Subst({el(s, n): el(s.a[0], n)})
        return close([(s.a[0], n)], sb(g), kind, sb(t))
    if kind in ("sym", "syml"):
        if kind == "sym" and t.op == "hashord":
            t = t.a[0]
        if kind == "sym" and t.op == "list":
            out = []
            for p in set_of(t):
                b2, g2, k2, t2 = open_cmp(p)
                out += close(bs + b2, And(g, g2), k2, t2)
            return out
        if kind == "sym" and t.op == "set" or kind == "syml" and t.op == "list" and (not bs or len(t.a) == 1):
            out = []
            for p in t.a:
                b2, g2, k2, t2 = open_cmp(p)
                k2 = {"sym": "sym", "single": "single"}[k2] if kind == "sym" else k2
                out += close(bs + b2, And(g, g2), k2, t2)
            return out
        if kind == "syml" and t.op == "str" and t.a[0] == "":
            return []
    # eta: all elements of the last sequence, as they are
    while bs and kind in ("single", "one"):
        s, n = bs[-1]
        if t is el(s, n) and n not in fv(g):
            bs = bs[:-1]
            kind = "sym" if kind == "single" else "syml"
            t = s
            if kind == "sym" and s.op in ("set",):
                return close(bs, g, kind, t)
            break
        break
    # binders nothing depends on
    if kind in SETK:
        nb = []
        for i in range(len(bs) - 1, -1, -1):
            s, n = bs[i]
            used = n in fv(g) or n in fv(t) or any(n in fv(s2) for s2, _ in nb)
            if used:
                nb.insert(0, bs[i])
            else:
                g = And(g, nonempty(s))
        if g is FALSE:
            return []
        bs = nb
    # name the binders by height, innermost first
    closed = []
    for i in range(len(bs) - 1, -1, -1):
        s, n = bs[i]
        h = 1 + max([height(g), height(t)] + [max(hh, height(s2)) for s2, hh in closed])
        sb = Subst({el(s, n): mk("el", s, ("c", h)), pos(s, n): mk("pos", s, ("c", h))})
        g, t = sb(g), sb(t)
        closed = [(s, h)] + [(sb(s2), h2) for s2, h2 in closed]
    return [mk("cmp", tuple(closed), g, kind, t)]


def shift(bs, g, t):
    """A window over neighbours is named by its first element: [.. s[i-1], s[i] .. 1 <= i] is
    [.. s[i], s[i+1] .. i+1 < len]."""
    for i, (s, n) in enumerate(bs):
        if s.op in ("hashord", "keys", "range", "from"):
            continue
        q, e = pos(s, n), el(s, n)
        ks = kids_deep(g, t, *[x for x, _ in bs[i + 1:]])
        if q not in ks:
            continue
        offs = set()
        for x in ks:
            if x is e:
                offs.add(0)
            elif x.op == "index" and x.a[0] is s:
                c, d = lin_parts(x.a[1])
                if len(d) == 1 and d.get(q) == 1:
                    offs.add(c)
        k = -min(offs) if offs else 0
        if k == 0:
            continue
        # the new position is the old one less k
        if k > 0 and not bimp(g.a[0], ge0(sub(q, Int(k))).a[0]):
            continue
        if k < 0 and not bimp(g.a[0], ge0(sub(sub(len_(s), Int(1)), add(q, Int(-k)))).a[0]):
            continue
        m = fresh()
        r = add(pos(s, m), Int(k))
        sb = Subst({e: index(s, r), q: r})
        nb = list(bs[:i]) + [(s, m)]
        for s2, n2 in bs[i + 1:]:
            s3 = sb(s2)
            if s3 is not s2:
                sb.m[el(s2, n2)] = el(s3, n2)
                sb.m[pos(s2, n2)] = pos(s3, n2)
                sb = Subst(sb.m)
            nb.append((s3, n2))
        g, t = sb(g), sb(t)
        # where it begins and ends
        if k > 0:
            g = And(g, ge0(sub(sub(len_(s), Int(1)), r)))
        else:
            g = And(g, ge0(r))
        bs = nb
    return bs, g, t


def expand(s, kind, n):
    """Alternatives [(binders, guard, element, position)] of a sequence that is itself structured."""
    if s.op == "case":
        out = []
        for g, v in leaves(s):
            sub_ = expand(v, kind, n)
            if sub_ is None:
                m = fresh()
                out.append(([(v, m)], B(g), el(v, m), pos(v, m)))
            else:
                out += [(b, And(B(g), g2), e, p) for b, g2, e, p in sub_]
        return out
    if s.op == "set" and kind in SETK + ("kv",):
        out = []
        for p in s.a:
            bs, g, k, t = open_cmp(p)
            if k == "single":
                out.append((bs, g, t, None))
            else:
                m = fresh()
                out.append((bs + [(t, m)], g, el(t, m), None))
        return out
    if s.op == "list":
        out = []
        off = Int(0)
        for p in s.a:
            bs, g, k, t = open_cmp(p)
            ps = None
            if k == "one":
                if not bs and g is TRUE:
                    ps = off
                    off = add(off, Int(1)) if off is not None else None
                elif len(bs) == 1 and g is TRUE:
                    ps = add(off, pos(*bs[0])) if off is not None else None
                    off = add(off, len_(bs[0][0])) if off is not None else None
                else:
                    off = None
                out.append((bs, g, t, ps))
            else:
                m = fresh()
                if not bs and g is TRUE:
                    ps = add(off, pos(t, m)) if off is not None else None
                    off = add(off, len_(t)) if off is not None else None
                else:
                    off = None
                out.append((bs + [(t, m)], g, el(t, m), ps))
        return out
    if s.op == "sminus" and kind in SETK:
        m = fresh()
        return [([(s.a[0], m)], Not(eq(el(s.a[0], m), s.a[1])), el(s.a[0], m), None)]
    if s.op in ("rev", "hashord") and kind in SETK:
        m = fresh()
        return [([(s.a[0], m)], TRUE, el(s.a[0], m), None)]
    if s.op == "slice" and s.a[1] is Int(0) and s.a[2].op == "len" and s.a[2].a[0] is s.a[0]:
        m = fresh()
        return [([(s.a[0], m)], TRUE, el(s.a[0], m), pos(s.a[0], m))]
    if s.op == "slice":
        v, lo, hi = s.a
        m = fresh()
        q = pos(v, m)
        return [([(v, m)], And(le(lo, q), lt(q, hi)), el(v, m), sub(q, lo))]
    if s.op == "range":
        a, b = s.a
        if a.op == "int" and b.op == "int" and b.a[0] - a.a[0] <= 8:
            return [([], TRUE, Int(i), Int(i - a.a[0])) for i in range(a.a[0], b.a[0])]
        c, d = lin_parts(b)
        ls = [t for t in d if t.op == "len" and d[t] == 1]
        if len(ls) == 1 and len(d) == 1 and c <= 0:
            m = fresh()
            v = ls[0].a[0]
            q = pos(v, m)
            return [([(v, m)], And(le(a, q), lt(q, b)), q, sub(q, a))]
    return None


def guard_cmp(p, gn):
    """Conjoin a guard node (without the part's own binders) to a part."""
    if gn == 1:
        return p
    bs, g, k, t = p.a
    if not bs or height(B(gn)) == 0:
        return mk("cmp", bs, And(g, B(gn)), k, t)
    bs, g, k, t = open_cmp(p)
    q = close(bs, And(g, B(gn)), k, t)
    return q[0] if len(q) == 1 else mk("cmp", (), FALSE, k, t)


# ------------------------------------------------------------------------------------------- sets
def _maybe_set(v):
    return v.op not in ("rec", "int", "lin", "b", "str", "list", "ptr", "minsert", "mapof", "mm", "uninit")


def set_parts(v):
    if v.op == "set":
        return list(v.a)
    return [mk("cmp", (), TRUE, "sym", v)]


def _ends(bs, n):
    """A test of the guard that a position is the first or the last one, and which of its values says so:
    (atom, polarity of the end, binder number, position)."""
    if n < 2:
        return
    for at in atoms_of(n):
        if at.op != "ge0":
            continue
        c, d = lin_parts(at.a[0])
        if len(d) > 2:
            continue
        for i, (s, h) in enumerate(bs):
            q = mk("pos", s, h if isinstance(h, tuple) else ("c", h))
            k = d.get(q)
            if k == -1 and c == -2 and len(d) == 2 and s.op not in ("hashord", "keys", "range", "from"):
                # len - pos - 2 >= 0: not the last
                if d.get(len_(s)) == 1:
                    yield at, 0, i, sub(len_(s), Int(1))
            elif k == 1 and c == -1 and len(d) == 1 and s.op not in ("hashord", "keys", "range", "from"):
                yield at, 0, i, Int(0)
            elif k == -1 and c == 0 and len(d) == 1 and s.op not in ("hashord", "keys", "range", "from"):
                yield at, 1, i, Int(0)


def one_point(p):
    """Parts of a set in which the first or last element of a sequence is treated on its own: those
    elements are named, not searched for.  None where there are none."""
    bs, g, kind, t = p.a
    if not bs:
        return None
    for at, pol, i, where in _ends(bs, g.a[0]):
        v = _avar[at]
        end, rest = _cof(g.a[0], v, pol), _cof(g.a[0], v, 1 - pol)
        if end:
            break
    else:
        return None
    obs, og, kind, ot = open_cmp(mk("cmp", bs, B(band(end, var_node(at) if pol else bnot(var_node(at)))), kind, t))
    s, n = obs[i]
    sb = Subst({el(s, n): index(s, where), pos(s, n): where})
    nb = obs[:i]
    for s2, n2 in obs[i + 1:]:
        s3 = sb(s2)
        if s3 is not s2:
            sb.m[el(s2, n2)] = el(s3, n2)
            sb.m[pos(s2, n2)] = pos(s3, n2)
            sb = Subst(sb.m)
        nb.append((s3, n2))
    out = close(nb, And(nonempty(s), sb(og)), kind, sb(ot))
    if rest:
        obs, og, kind, ot = open_cmp(mk("cmp", bs, B(band(rest, bnot(var_node(at)) if pol else var_node(at))), kind, t))
        out += close(obs, og, kind, ot)
    return out


def named_ends(d):
    """d: {(binders, kind, term): guard} with the ends of sequences named."""
    todo = [mk("cmp", bs, g, kind, t) for (bs, kind, t), g in d.items()]
    if all(one_point(p) is None for p in todo):
        return d
    out = {}
    while todo:
        p = todo.pop()
        if p.a[1] is FALSE:
            continue
        q = one_point(p)
        if q is not None:
            todo += q
            continue
        k = (p.a[0], p.a[2], p.a[3])
        out[k] = Or(out[k], p.a[1]) if k in out else p.a[1]
    return out


def mkset(parts):
    d = {}
    for p in parts:
        if p.a[1] is FALSE:
            continue
        k = (p.a[0], p.a[2], p.a[3])
        d[k] = Or(d[k], p.a[1]) if k in d else p.a[1]
    d = named_ends(d)
    d = uncovered(d)
    # a comprehension that filters what is there anyway
    for k in list(d):
        bs, kind, t = k
        if kind == "single" and bs and t.op == "el":
            s = t.a[0]
            if ((), "sym", s) in d and d[((), "sym", s)] is TRUE:
                d.pop(k)
        elif kind == "single" and not bs and t.op == "el" and ((), "sym", t.a[0]) in d and d[((), "sym", t.a[0])] is TRUE:
            d.pop(k)
        elif kind == "single" and not bs and t.op == "get" and False:
            pass
    x = without(d)
    if x is not None:
        return x
    ps = [mk("cmp", bs, g, kind, t) for (bs, kind, t), g in d.items()]
    ps = [when_some(p) if p.a[2] == "sym" and p.a[1] is not TRUE else p for p in ps]
    ps.sort(key=lambda p: p.id)
    if len(ps) == 1 and not ps[0].a[0] and ps[0].a[2] == "sym" and ps[0].a[1] is TRUE:
        return ps[0].a[3]
    if len(ps) > 1 and all(not p.a[0] and p.a[2] == "sym" for p in ps):
        # a partition is a plain choice
        tot, ok = 0, True
        for p in ps:
            if band(tot, p.a[1].a[0]) != 0:
                ok = False
            tot = bor(tot, p.a[1].a[0])
        if ok and tot == 1:
            return mk("case", *sorted(((p.a[1], p.a[3]) for p in ps), key=lambda x: x[1].id))
    return mk("set", *ps)


def without(d):
    """The set whose parts all leave one element out, as another set without it; else None."""
    if len(d) > 6 or not d:
        return None
    cand = None
    for (bs, kind, t), g in d.items():
        if kind == "sym":
            xs = {t.a[1]} if t.op == "sminus" else set()
        elif kind == "single":
            xs = set()
            if not bs and g.a[0] < 2:
                return None
            for at in atoms_of(g.a[0]) if g.a[0] > 1 else ():
                if at.op == "eq" and t in at.a and bimp(g.a[0], bnot(var_node(at))):
                    xs.add(at.a[0] if at.a[1] is t else at.a[1])
        else:
            return None
        if bs:
            vs = {mk("el", s, ("c", h)) for s, h in bs} | {mk("pos", s, ("c", h)) for s, h in bs}
            xs = {x for x in xs if not any(_mentions(x, v) for v in vs)}
        cand = xs if cand is None else cand & xs
        if not cand:
            return None
    if not any(bs for bs, _, _ in d) and not any(k == "sym" for _, k, _ in d):
        return None
    x = min(cand, key=lambda y: y.id)
    out = []
    for (bs, kind, t), g in d.items():
        if kind == "sym":
            q = mk("cmp", bs, g, kind, t.a[0])
        else:
            q = mk("cmp", bs, B(_cof(g.a[0], _bvar[eq(t, x).a[0]], 0)), kind, t)
        out += close(*open_cmp(q)) if bs else [q]
    return sminus(mkset(out), x)


def uncovered(d):
    """Elements another part has anyway need no test that it has not."""
    whole = [t for (bs, kind, t), g in d.items() if not bs and kind == "sym" and g is TRUE]
    if not whole:
        return d
    out, ch = {}, False
    for (bs, kind, t), g in d.items():
        if kind == "single" and g.a[0] > 1:
            n = g.a[0]
            for w in whole:
                c = in_(t, w)
                if c.a[0] > 1:
                    n = _cof(n, _bvar[c.a[0]], 0) if _blo[c.a[0]] == 0 and _bhi[c.a[0]] == 1 else n
            if n != g.a[0]:
                ch = True
                for q in (close(*open_with(bs, B(n), kind, t)) if bs else [mk("cmp", bs, B(n), kind, t)]):
                    if q.a[1] is not FALSE:
                        k = (q.a[0], q.a[2], q.a[3])
                        out[k] = Or(out[k], q.a[1]) if k in out else q.a[1]
                continue
        k = (bs, kind, t)
        out[k] = Or(out[k], g) if k in out else g
    return out if ch else d


def open_with(bs, g, kind, t):
    return open_cmp(mk("cmp", bs, g, kind, t))


def mkset_guarded(pgs):
    return mkset([guard_cmp(p, g) for p, g in pgs])


EMPTY = mk("set")


def parts_under(v):
    """Parts of a set value, alternatives turned into guards."""
    if v.op == "case":
        out = []
        for g, w in leaves(v):
            out += [guard_cmp(p, g) for p in parts_under(w)]
        return out
    if v.op == "list":
        return set_of(v)
    return set_parts(v)


def union(a, b):
    return mkset(parts_under(a) + parts_under(b))


def sinsert(s, x):
    return mkset(parts_under(s) + close([], TRUE, "single", x))


def kids_deep(*ts):
    seen, st = set(), list(ts)
    while st:
        t = st.pop()
        if t not in seen:
            seen.add(t)
            st.extend(kids(t))
    return seen


def set_of(lst):
    """The parts of the set of the elements of a list value."""
    out = []
    for p in list_segs(lst):
        bs, g, k, t = open_cmp(p)
        if k == "one":
            out += close(bs, g, "single", t)
        else:
            out += close(bs, g, "sym", t)
    return out


def toset(v):
    if v.op == "case":
        return mkset(parts_under(v))
    if v.op == "list":
        return mkset(set_of(v))
    if v.op == "hashord":
        return v.a[0]
    return v


@lift
def sminus(s, x):
    if s.op == "set":
        if not s.a:
            return s
        rest = []
        hit = False
        for p in s.a:
            if not p.a[0] and p.a[2] == "single" and p.a[3] is x:
                hit = True
            else:
                rest.append(p)
        if hit:
            r = mkset(rest)
            return sminus(r, x)
    if s.op == "sminus" and s.a[1] is x:
        return s
    return mk("sminus", s, x)


@lift
def in_(x, s):
    if s.op == "set":
        n = 0
        for p in s.a:
            bs, g, k, t = open_cmp(p)
            if k == "single":
                c = And(g, eq(x, t))
            else:
                c = And(g, in_(x, t))
            if bs:
                c = any_close(bs, c)
            n = bor(n, c.a[0])
        return B(n)
    if s.op == "list":
        return in_(x, mkset(set_of(s)))
    if s.op == "sminus":
        return And(in_(x, s.a[0]), Not(eq(x, s.a[1])))
    if x.op == "el" and x.a[0] is s or picked(x, s):
        return TRUE
    if s.op == "keys":
        return has(s.a[0], x)
    return atom(mk("in", x, s))


def picked(x, s):
    """Whether x is one of the elements some filter keeps of s."""
    if x.op != "index" or x.a[0].op != "list" or len(x.a[0].a) != 1:
        return False
    p = x.a[0].a[0]
    if p.a[2] != "one" or len(p.a[0]) != 1 or p.a[0][0][0] is not s:
        return False
    bs, _, _, t = open_cmp(p)
    return t is el(*bs[0])


def any_close(bs, g):
    n = 0
    # disjunction splits
    for c in close(bs, g, "any", TRUE):
        n = bor(n, any_cmp(c).a[0])
    return B(n)


def pos_range(s, p, g):
    """Bounds ([lower], [upper]) when the guard says nothing but that the position p of s lies between them."""
    n = g.a[0]
    if n <= 1:
        return None
    lo, hi = [], []
    e = el_of(p)
    for at in atoms_of(n):
        if at.op != "ge0":
            return None
        c, d = lin_parts(at.a[0])
        k = d.get(p)
        if k not in (1, -1):
            return None
        x = sub(at.a[0], scale(p, k))
        if _mentions(x, p) or _mentions(x, e):
            return None
        v = var_node(at)
        if bimp(n, v):
            # k*p + x >= 0
            (lo if k == 1 else hi).append(scale(x, -1) if k == 1 else x)
        elif bimp(n, bnot(v)):
            # k*p + x <= -1
            if k == 1:
                hi.append(scale(add(x, Int(1)), -1))
            else:
                lo.append(add(x, Int(1)))
        else:
            return None
        if lo and lo[-1].op == "case" or hi and hi[-1].op == "case":
            return None
    return lo, hi


def el_of(p):
    return mk("el", p.a[0], p.a[1])


def any_cmp(c):
    bs, g, _, _ = c.a
    if not bs:
        return g
    if g is FALSE:
        return FALSE
    # exists x in S: x = e   is membership
    if len(bs) == 1:
        s, h = bs[0]
        v = mk("el", s, ("c", h))
        n = g.a[0]
        if n > 1 and _blo[n] == 0 and _bhi[n] == 1:
            at = _atoms[_bvar[n]]
            if at.op == "eq" and v in at.a:
                o = at.a[0] if at.a[1] is v else at.a[1]
                if not _mentions(o, v):
                    return in_(o, s)
    if len(bs) == 1:
        r = pos_range(bs[0][0], mk("pos", bs[0][0], ("c", bs[0][1])), g)
        if r is not None:
            s, (lo, hi) = bs[0][0], r
            e = nonempty(s)
            for l in lo:
                e = And(e, ge0(sub(sub(len_(s), Int(1)), l)))
                for h in hi:
                    e = And(e, ge0(sub(h, l)))
            for h in hi:
                e = And(e, ge0(h))
            return e
    # independent conjuncts move out
    n = g.a[0]
    out = 1
    vs = {mk("el", s, ("c", h)) for s, h in bs} | {mk("pos", s, ("c", h)) for s, h in bs}
    ch = True
    while ch and n > 1:
        ch = False
        for at in atoms_of(n):
            if any(_mentions(at, v) for v in vs):
                continue
            vi = _avar[at]
            if _cof(n, vi, 0) == 0:
                out = band(out, _node(vi, 0, 1))
                n = _cof(n, vi, 1)
                ch = True
                break
            if _cof(n, vi, 1) == 0:
                out = band(out, _node(vi, 1, 0))
                n = _cof(n, vi, 0)
                ch = True
                break
    if n == 1:
        e = 1
        for s, h in bs:
            e = band(e, nonempty(s).a[0])
        if len(bs) == 1:
            return B(band(out, e))
    if out != 1:
        c2 = mk("cmp", bs, B(n), "any", TRUE)
        return B(band(out, any_cmp(c2).a[0]))
    return atom(mk("any", mk("cmp", bs, g, "any", TRUE)))


def _mentions(t, v):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x is v:
            return True
        for k in kids(x):
            if k not in seen:
                seen.add(k)
                st.append(k)
    return False


@lift
def nonempty(s):
    if s.op in ("set", "list"):
        n = 0
        for p in s.a:
            bs, g, k, t = open_cmp(p)
            if k in ("single", "one"):
                c = g
            else:
                c = And(g, nonempty(t))
            if bs:
                c = any_close(bs, c)
            n = bor(n, c.a[0])
        return B(n)
    if s.op == "str":
        return TRUE if s.a[0] else FALSE
    if s.op == "dbg":
        return TRUE
    if s.op in ("slice", "range", "vset", "mkeys"):
        return ge0(sub(len_(s), Int(1)))
    if s.op in ("rev", "hashord"):
        return nonempty(s.a[0])
    if s.op == "minsert":
        return TRUE
    if s.op == "mempty":
        return FALSE
    if s.op == "from":
        return TRUE
    if s.op == "mm":
        return nonempty(keys(s))
    if s.op == "keys":
        return nonempty(s.a[0])
    if s.op == "mapof" and s.a[0].op == "mempty":
        n = 0
        for p in s.a[1]:
            bs, g, k, t = open_cmp(p)
            n = bor(n, (any_close(bs, g) if bs else g).a[0])
        return B(n)
    return B(var_node(mk("ge0", mklin(-1, {mk("len", s): 1}))))


@lift
def len_(s):
    if s.op == "list":
        c, syms = 0, Int(0)
        tot = Int(0)
        for p in s.a:
            bs, g, k, t = p.a
            if k == "one" and not bs and g is TRUE:
                tot = add(tot, Int(1))
            elif k == "syml" and not bs and g is TRUE:
                tot = add(tot, len_(t))
            elif k == "one" and len(bs) == 1 and g is TRUE:
                tot = add(tot, len_(bs[0][0]))
            elif len(s.a) == 1 and k == "syml" and not bs:
                return mkcase([(g.a[0], len_(t)), (bnot(g.a[0]), Int(0))])
            elif len(s.a) == 1 and k == "one" and t is not UNIT and (bs or g is not TRUE):
                return len_(mk("list", mk("cmp", bs, g, k, UNIT)))
            else:
                return mk("len", s)
        return tot
    if s.op == "set":
        if not s.a:
            return Int(0)
        if len(s.a) == 1 and not s.a[0].a[0] and s.a[0].a[2] == "single" and s.a[0].a[1] is TRUE:
            return Int(1)
    if s.op == "str":
        return Int(len(s.a[0]))
    if s.op == "range":
        return sub(s.a[1], s.a[0])
    if s.op == "slice":
        return sub(s.a[2], s.a[1])
    if s.op == "vset":
        return len_(s.a[0])
    if s.op in ("rev", "hashord"):
        return len_(s.a[0])
    if s.op == "keys":
        return len_(s.a[0])
    if s.op == "mempty":
        return Int(0)
    if s.op == "pw":
        return len_(s.a[0])
    return mk("len", s)


# ------------------------------------------------------------------------------------------- lists
def _maybe_list(v):
    return v.op in ("list", "str", "fld", "arg", "ph", "slot", "pay", "el", "get", "index", "slice", "call", "mures", "fold", "hav",
                    "lem", "out", "ext", "rcall", "mu", "apply", "vset", "rev", "hashord")


def list_segs(v):
    if v.op == "list":
        return list(v.a)
    if v.op == "str" and v.a[0] == "":
        return []
    return [mk("cmp", (), TRUE, "syml", v)]


def mklist(segs):
    out = []
    for s in segs:
        if s.a[1] is FALSE:
            continue
        if s.a[2] == "syml" and s.a[1] is not TRUE:
            s = when_some(s)
        if s.a[2] == "syml" and s.a[3].op == "str":
            if s.a[3].a[0] == "":
                continue
            if out and not s.a[0] and not out[-1].a[0] and out[-1].a[2] == "syml" and out[-1].a[3].op == "str" \
                    and out[-1].a[1] is s.a[1]:
                out[-1] = mk("cmp", (), s.a[1], "syml", Str(out[-1].a[3].a[0] + s.a[3].a[0]))
                continue
        if s.a[2] == "syml" and s.a[3].op == "set" and not s.a[3].a:
            continue
        if s.a[2] == "syml" and s.a[3].op == "list" and not s.a[0]:
            for x in s.a[3].a:
                out.append(guard_cmp(x, s.a[1].a[0]))
            continue
        # adjacent slices of one list
        if out and s.a[2] == "syml" and s.a[3].op == "slice" and not s.a[0] and out[-1].a[2] == "syml" \
                and out[-1].a[3].op == "slice" and not out[-1].a[0] and out[-1].a[1] is s.a[1] \
                and out[-1].a[3].a[0] is s.a[3].a[0] and out[-1].a[3].a[2] is s.a[3].a[1]:
            p = out.pop()
            j = slice_(s.a[3].a[0], p.a[3].a[1], s.a[3].a[2])
            s = mk("cmp", (), s.a[1], "syml", j)
        if out and not s.a[0] and not out[-1].a[0] and s.a[1] is not TRUE and out[-1].a[1] is not TRUE \
                and band(s.a[1].a[0], out[-1].a[1].a[0]) == 0:
            # exclusive neighbours are one alternative
            p = out.pop()
            kd = p.a[2] if p.a[2] == s.a[2] else "syml"
            v, w = p.a[3], s.a[3]
            if kd == "syml":
                v = v if p.a[2] == "syml" else mklist([mk("cmp", (), TRUE, "one", v)])
                w = w if s.a[2] == "syml" else mklist([mk("cmp", (), TRUE, "one", w)])
            g = Or(p.a[1], s.a[1])
            gn = g.a[0]
            v = _mkalt([(brestrict(p.a[1].a[0], gn), v), (brestrict(s.a[1].a[0], gn), w)])
            s = mk("cmp", (), g, kd, v)
        out.append(s)
    if len(out) == 1 and not out[0].a[0] and out[0].a[2] == "syml" and out[0].a[1] is TRUE:
        return out[0].a[3]
    return mk("list", *out)


def _mkalt(ls):
    """A choice between list segments, left as it is."""
    flat = {}
    for g, v in ls:
        for gg, vv in leaves(v):
            n = band(g, gg)
            if n:
                flat[vv] = bor(flat.get(vv, 0), n)
    if len(flat) == 1:
        return next(iter(flat))
    return mk("case", *sorted(((B(g), v) for v, g in flat.items()), key=lambda x: x[1].id))


def when_some(p):
    """All elements of t if g: g only matters where there are some."""
    bs, g, k, t = p.a
    if t.op in ("case", "str", "set", "list"):
        return p
    ne = nonempty(t).a[0]
    if ne < 2:
        return p
    g2 = B(brestrict(g.a[0], ne))
    return p if g2 is g else mk("cmp", bs, g2, k, t)


NIL = mk("list")


def segs_under(v):
    if v.op == "case":
        m = mkcase([(g, w) for g, w in leaves(v)])
        if m.op != "case":
            return list_segs(m)
        return None
    return list_segs(v)


@lift
def concat(a, b):
    return mklist(list_segs(a) + list_segs(tolist(b)))


def tolist(v):
    return v


@lift
def push(v, x):
    return mklist(list_segs(v) + [mk("cmp", (), TRUE, "one", x)])


@lift
def slice_(v, lo, hi):
    if lo is Int(0) and hi is len_(v):
        return v
    if lo is hi:
        return NIL
    if v.op == "slice":
        return slice_(v.a[0], add(v.a[1], lo), add(v.a[1], hi))
    if v.op == "range":
        return mk("range", add(v.a[0], lo), add(v.a[0], hi))
    if v.op == "list":
        # cut at segment borders
        segs, off = list(v.a), Int(0)
        offs = [off]
        ok = True
        for s in segs:
            bs, g, k, t = s.a
            if g is not TRUE or len(bs) > 1 or bs and k != "one":
                ok = False
                break
            n = Int(1) if k == "one" and not bs else (len_(bs[0][0]) if bs else len_(t))
            off = add(off, n)
            offs.append(off)
        if ok:
            if lo in offs and hi in offs:
                i, j = offs.index(lo), len(offs) - 1 - offs[::-1].index(hi)
                return mklist(segs[i:j])
            # strip whole segments at either end, then cut within a symbolic one
            for i, s in enumerate(segs):
                if s.a[2] == "syml" and not s.a[0]:
                    if ge0(sub(lo, offs[i])) is TRUE and ge0(sub(offs[i + 1], hi)) is TRUE:
                        return slice_(s.a[3], sub(lo, offs[i]), sub(hi, offs[i]))
            if lo is offs[0] and segs and segs[0].a[2] == "syml" and not segs[0].a[0] and len(segs) == 2 and segs[1].a[2] == "one" \
                    and not segs[1].a[0]:
                # v ++ [x] cut before or inside v
                d = sub(offs[1], hi)
                if ge0(d) is TRUE:
                    return slice_(segs[0].a[3], lo, hi)
    return mk("slice", v, lo, hi)


@lift
def index(v, i):
    if v.op == "list":
        off = Int(0)
        if len(v.a) == 1 and not v.a[0].a[0] and v.a[0].a[2] == "syml":
            # present or empty: an index into it says which
            return index(v.a[0].a[3], i)
        for s in v.a:
            bs, g, k, t = s.a
            if g is not TRUE or len(bs) > 1 or bs and k != "one":
                break
            n = Int(1) if k == "one" and not bs else (len_(bs[0][0]) if bs else len_(t))
            nxt = add(off, n)
            if ge0(sub(i, off)) is TRUE and ge0(sub(sub(nxt, i), Int(1))) is TRUE or i is off and k == "one" and not bs:
                if k == "one" and not bs:
                    return t
                if k == "one":
                    b2, _, _, t2 = open_cmp(s)
                    j = sub(i, off)
                    s0, n0 = b2[0]
                    return subst(t2, {el(s0, n0): index(s0, j), pos(s0, n0): j})
                return index(t, sub(i, off))
            if k == "one" and not bs and ge0(sub(i, nxt)) is not TRUE and i is not nxt:
                # unknown whether it is this element
                e = eq0(sub(i, off))
                break
            off = nxt
        if len(v.a) == 1 and v.a[0].a[2] == "one" and len(v.a[0].a[0]) == 1 and v.a[0].a[1] is not TRUE:
            b2, g2, _, t2 = open_cmp(v.a[0])
            s0, n0 = b2[0]
            r = pos_range(s0, pos(s0, n0), g2)
            if r is not None and len(r[0]) <= 1:
                # a stretch of s0
                l = r[0][0] if r[0] else Int(0)
                ok = ge0(l).a[0]
                j = add(mkcase([(ok, l), (bnot(ok), Int(0))]), i)
                return subst(t2, {el(s0, n0): index(s0, j), pos(s0, n0): j})
            if t2 is not el(s0, n0):
                m = {el(s0, n0): index(mklist(close(b2, g2, "one", el(s0, n0))), i)}
                if t2 is pos(s0, n0):
                    return mk("index", v, i)
                if _mentions(t2, pos(s0, n0)):
                    m[pos(s0, n0)] = index(mklist(close(b2, g2, "one", pos(s0, n0))), i)
                return subst(t2, m)
        # last element of v ++ [x]
        if v.a and v.a[-1].a[2] == "one" and not v.a[-1].a[0] and v.a[-1].a[1] is TRUE:
            n = len_(v)
            if sub(n, Int(1)) is i:
                return v.a[-1].a[3]
            if n.op != "len" and ge0(sub(sub(n, Int(2)), i)) is TRUE:
                return index(mklist(v.a[:-1]), i)
    if i.op == "index" and i.a[0].op == "list" and len(i.a[0].a) == 1 and v.op != "list":
        # the element at one of the chosen positions of v
        p = i.a[0].a[0]
        if len(p.a[0]) == 1 and p.a[2] == "one" and p.a[3].op == "pos":
            bs, g, _, t = open_cmp(p)
            if bs[0][0] is v and t is pos(*bs[0]):
                return index(mklist(close(bs, g, "one", el(*bs[0]))), i.a[1])
    if v.op == "slice":
        return index(v.a[0], add(v.a[1], i))
    if v.op == "vset":
        e = eq(v.a[1], i)
        if e is TRUE:
            return v.a[2]
        if e is FALSE:
            return index(v.a[0], i)
        return mkcase([(e.a[0], v.a[2]), (bnot(e.a[0]), index(v.a[0], i))])
    if v.op == "rev":
        return index(v.a[0], sub(sub(len_(v.a[0]), Int(1)), i))
    if v.op in ("range", "from"):
        return add(v.a[0], i)
    if i.op == "pos" and i.a[0] is v:
        return mk("el", v, i.a[1])
    return mk("index", v, i)


@lift
def vset(v, i, x):
    if x.op == "index" and x.a[0] is v and x.a[1] is i:
        return v
    if x.op == "el" and x.a[0] is v and i is mk("pos", v, x.a[1]):
        return v
    if v.op == "vset" and v.a[1] is i:
        return vset(v.a[0], i, x)
    if v.op == "list":
        off = Int(0)
        segs = list(v.a)
        for j, s in enumerate(segs):
            bs, g, k, t = s.a
            if g is not TRUE or bs:
                break
            n = Int(1) if k == "one" else len_(t)
            if k == "one" and i is off:
                segs[j] = mk("cmp", (), TRUE, "one", x)
                return mklist(segs)
            if k == "syml" and ge0(sub(sub(add(off, n), Int(1)), i)) is TRUE and ge0(sub(i, off)) is TRUE:
                segs[j] = mk("cmp", (), TRUE, "syml", vset(t, sub(i, off), x))
                return mklist(segs)
            off = add(off, n)
    return mk("vset", v, i, x)


# ------------------------------------------------------------------------------------------- maps
MEMPTY = mk("mempty")


@lift
def minsert(m, k, v):
    if v.op == "get" and v.a[0] is m and v.a[1] is k and has(m, k) is TRUE:
        return m
    if m.op == "minsert" and m.a[1] is k:
        return minsert(m.a[0], k, v)
    if m.op == "mremove" and m.a[1] is k:
        return minsert(m.a[0], k, v)
    if v.op == "set" and m.op != "minsert":
        own = mk("cmp", (), TRUE, "sym", get(m, k))
        h = has(m, k)
        if h is not TRUE and h is not FALSE:
            rest = [p for p in v.a if not (not p.a[0] and p.a[2] == "sym" and p.a[3] is own.a[3] and p.a[1] is h)]
            if len(rest) == len(v.a) - 1:
                return mm(m, mm_parts([], TRUE, k, mkset(rest) if rest else None))
    if m.op == "minsert" and eq(m.a[1], k) is FALSE and m.a[1].id > k.id:
        return minsert(minsert(m.a[0], k, v), m.a[1], m.a[2])
    return mk("minsert", m, k, v)


@lift
def mremove(m, k):
    if m.op == "minsert" and m.a[1] is k:
        return mremove(m.a[0], k)
    if m.op == "mempty":
        return m
    if m.op == "mremove" and m.a[1] is k:
        return m
    return mk("mremove", m, k)


@lift
def has(m, k):
    if m.op == "minsert":
        return Or(eq(m.a[1], k), has(m.a[0], k))
    if m.op == "mempty":
        return FALSE
    if m.op == "mremove":
        return And(Not(eq(m.a[1], k)), has(m.a[0], k))
    if k.op == "el" and k.a[0].op == "keys" and k.a[0].a[0] is m or k.op == "index" and picked(k, keys(m)):
        return TRUE
    if m.op == "mapof":
        n = has(m.a[0], k)
        for p in m.a[1]:
            bs, g, _, t = open_cmp(p)
            c = And(g, eq(fld(t, "0"), k))
            n = Or(n, any_close(bs, c) if bs else c)
        return n
    if m.op == "mm":
        n = has(m.a[0], k)
        for p in m.a[1]:
            if fld(p.a[3], "1") is MMC:
                bs, g, _, t = open_cmp(p)
                c = And(g, eq(fld(t, "0"), k))
                n = Or(n, any_close(bs, c) if bs else c)
        return n
    return atom(mk("has", m, k))


@lift
def get(m, k):
    """m[k], k being present."""
    if m.op == "minsert":
        e = eq(m.a[1], k)
        if e is TRUE:
            return m.a[2]
        if e is FALSE:
            return get(m.a[0], k)
        return mkcase([(e.a[0], m.a[2]), (bnot(e.a[0]), get(m.a[0], k))])
    if m.op == "mremove":
        return get(m.a[0], k)
    if m.op == "mempty":
        return mk("undef")
    if m.op == "mapof" and m.a[0].op == "mempty" and len(m.a[1]) == 1:
        bs, g, _, t = open_cmp(m.a[1][0])
        if len(bs) == 1 and g is TRUE and fld(t, "0") is el(*bs[0]):
            return subst(fld(t, "1"), {el(*bs[0]): k})
    if k.op == "first" and False:
        pass
    return mk("get", m, k)


def opt_get(m, k):
    h = has(m, k)
    return mkcase([(h.a[0], Some(get(m, k))), (bnot(h.a[0]), NONE)])


def opt_index(v, i):
    g = ge0(sub(sub(len_(v), Int(1)), i))
    return mkcase([(g.a[0], Some(index(v, i))), (bnot(g.a[0]), NONE)])


def opt_head(v):
    g = nonempty(v)
    return mkcase([(g.a[0], Some(index(v, Int(0)))), (bnot(g.a[0]), NONE)])


@lift
def keys(m):
    if m.op == "mapof" and m.a[0].op == "mempty":
        return m_keys_of(m)
    if m.op == "mempty":
        return EMPTY
    if m.op == "minsert":
        return sinsert(keys(m.a[0]), m.a[1])
    if m.op == "mm":
        ps = parts_under(keys(m.a[0]))
        for p in m.a[1]:
            if fld(p.a[3], "1") is MMC:
                bs, g, _, t = open_cmp(p)
                ps = ps + close(bs, g, "single", fld(t, "0"))
        return mkset(ps)
    return mk("keys", m)


def m_keys_of(m):
    ps = []
    for p in m.a[1]:
        bs, g, _, t = open_cmp(p)
        ps += close(bs, g, "single", fld(t, "0"))
    return mkset(ps)


def mapof(base, parts):
    """base with key->value pairs of the parts inserted."""
    if base.op == "case":
        return mkcase([(g, mapof(b, parts)) for g, b in leaves(base)])
    out = []
    if base.op == "mapof":
        out, base = list(base.a[1]), base.a[0]
    for p in parts:
        if p.a[1] is FALSE:
            continue
        out.append(p)
    if not out:
        return base
    if len(out) == 1 and not out[0].a[0]:
        g, t = out[0].a[1], out[0].a[3]
        ins = minsert(base, fld(t, "0"), fld(t, "1"))
        return ins if g is TRUE else mkcase([(g.a[0], ins), (bnot(g.a[0]), base)])
    # every entry of a map overwritten
    if len(out) == 1 and base.op != "mempty":
        bs, g, _, t = out[0].a
        if len(bs) == 1 and g is TRUE and bs[0][0].op == "keys" and bs[0][0].a[0] is base \
                and fld(t, "0") is mk("el", bs[0][0], ("c", bs[0][1])):
            base = MEMPTY
    # the identity on the keys of one map
    if len(out) == 1 and base.op == "mempty":
        bs, g, _, t = out[0].a
        if len(bs) == 1 and g is TRUE and bs[0][0].op == "keys":
            m = bs[0][0].a[0]
            v = mk("el", bs[0][0], ("c", bs[0][1]))
            if fld(t, "0") is v and fld(t, "1") is mk("get", m, v):
                return m
    # two parts over the same binders and keys with complementary guards keep their order
    return mk("mapof", base, tuple(out))


MMC = mk("rec", "mmc", None, (), ())


def mm1(x):
    return rec("mm1", None, ("0",), (x,))


def mms(x):
    return rec("mms", None, ("0",), (x,))


def mm(base, parts):
    """base with set values at keys enlarged, creating entries.  Parts of kind 'mm'; terms
    (key, mmc) creates the entry, (key, mm1 x) adds x, (key, mms s) adds all of s."""
    if base.op == "case":
        return mkcase([(g, mm(b, parts)) for g, b in leaves(base)])
    d = {}
    ps = []
    if base.op == "mm":
        ps, base = list(base.a[1]), base.a[0]
    for p in list(ps) + list(parts):
        if p.a[1] is FALSE:
            continue
        k = (p.a[0], "mm", p.a[3])
        d[k] = Or(d[k], p.a[1]) if k in d else p.a[1]
    d = named_ends(d)
    # adding an element creates the entry
    made = {}
    for (bs, _, t), g in d.items():
        if fld(t, "1").op == "rec" and fld(t, "1").a[0] == "mm1":
            k = (bs, fld(t, "0"))
            made[k] = bor(made.get(k, 0), g.a[0])
    for (bs, kd, t), g in list(d.items()):
        if fld(t, "1") is MMC and (bs, fld(t, "0")) in made:
            n = band(g.a[0], bnot(made[bs, fld(t, "0")]))
            d.pop((bs, kd, t))
            if n:
                d[bs, kd, t] = B(n)
    d = {(bs, t): g for (bs, _, t), g in d.items()}
    if not d:
        return base
    return mk("mm", base, tuple(sorted((mk("cmp", bs, g, "mm", t) for (bs, t), g in d.items()), key=lambda p: p.id)))


def mm_parts(bs, g, k, val):
    """The parts that enlarge the entry at k by the set val (None: creation only)."""
    out = close(bs, g, "mm", tup(k, MMC))
    for p in (set_parts(val) if val is not None else ()):
        b2, g2, kd, t = open_cmp(p)
        out += close(bs + b2, And(g, g2), "mm", tup(k, mm1(t) if kd == "single" else mms(t)))
    return out


# ------------------------------------------------------------------------------------------- folds
def close_fold(c, slots, inits, i):
    """c: a closed part of kind 'step' whose term is rec of the step terms over ph slots."""
    h = 1 + height(c)
    m = {s: mk("slot", h, j) for j, s in enumerate(slots)}
    bs, g, kind, t = c.a
    sb = Subst(m)
    c2 = mk("cmp", tuple((sb(s), hh) for s, hh in bs), sb(g), kind, sb.tp(t) if isinstance(t, tuple) else sb(t))
    return mk("fold", h, c2, tuple(inits), i)


def open_fold(t):
    h, c, inits, i = t.a
    slots = [mk("ph", fresh()) for _ in inits]
    sb = Subst({mk("slot", h, j): s for j, s in enumerate(slots)})
    bs, g, kind, tt = c.a
    c2 = mk("cmp", tuple((sb(s), hh) for s, hh in bs), sb(g), kind, sb(tt))
    return c2, slots


def close_mu(slots, rest, inits, i):
    """rest: tuple of terms over the ph slots."""
    h = 1 + max([height(x) for x in kids_t((rest,))] + [0])
    sb = Subst({s: mk("slot", h, j) for j, s in enumerate(slots)})
    return mk("mu", h, sb.tp(rest), tuple(inits), i)


def open_mu(t):
    h, rest, inits, i = t.a
    slots = [mk("ph", fresh()) for _ in inits]
    sb = Subst({mk("slot", h, j): s for j, s in enumerate(slots)})
    return slots, sb.tp(rest), inits


def close_lam(params, body):
    """A function value: what it returns, its panics and its effects, over its parameters."""
    h = 1 + max([height(x) for x in body] + [0])
    sb = Subst({s: mk("slot", h, j) for j, s in enumerate(params)})
    return mk("lam", h, len(params), sb.tp(tuple(body)))


def open_lam(t):
    h, n, body = t.a
    slots = [mk("ph", fresh()) for _ in range(n)]
    sb = Subst({mk("slot", h, j): s for j, s in enumerate(slots)})
    return slots, sb.tp(body)


def apply_(how, f, *args):
    if f.op == "lam" and f.a[1] == len(args) and len(f.a[2]) == 2:
        slots, body = open_lam(f)
        return subst(body[0], dict(zip(slots, args)))
    return relift("apply", [how, f] + list(args))


def _set_minus_parts(v, w):
    """The parts of set v that w lacks when v = w + parts, else None."""
    wp = set(set_parts(w)) if w.op != "case" else None
    if wp is None:
        return None
    vp = set(v.a)
    if wp <= vp and wp != vp:
        return list(vp - wp)
    return None


def vsetl(*a):
    return vset(*a)


REBUILD.update(
    fld=fld, pay=pay, isv=isv, ge0=ge0, eq0=eq0, eq=eq, len=len_, slice=slice_, index=index, vset=vset,
    minsert=minsert, mremove=mremove, has=has, get=get, keys=keys, sminus=sminus, mul=mul,
    rec=lambda adt, v, ns, vs: rec(adt, v, ns, vs),
    lin=lambda c, ts: _relin(c, ts),
    steps=lambda *a: mk("steps", *a),
    range=lift(lambda a, b: mk("range", a, b)),
)
REBUILD["from"] = lift(lambda a: mk("from", a))
REBUILD["hashord"] = hashord
REBUILD["in"] = in_
REBUILD["apply"] = apply_


def _relin(c, ts):
    r = Int(c)
    for t, k in ts:
        r = add(r, scale(t, k))
    return r


# ------------------------------------------------------------------------------------------- printing
def show_b(n):
    if n == 1:
        return "T"
    if n == 0:
        return "F"
    # sum of paths, short
    out = []

    def go(n, acc):
        if len(out) > 12:
            return
        if n == 1:
            out.append("&".join(acc) or "T")
            return
        if n == 0:
            return
        a = show(_atoms[_bvar[n]])
        go(_bhi[n], acc + [a])
        go(_blo[n], acc + ["!" + a])

    go(n, [])
    return out[0] if len(out) == 1 else "(" + " | ".join(out) + ")"


def _sh(adt):
    return adt.split("::")[-1] if adt else ""


_sm = {}


def show(t):
    r = _sm.get(t)
    if r is None:
        r = _sm[t] = _show(t)
    return r


def show_seq(s):
    return show(s)


def _tag(tag):
    return "%s%d" % (tag[0] if tag[0] == "o" else "", tag[1])


def show_cmp(p):
    bs, g, k, t = p.a
    tt = "*" + show(t) if k in ("sym", "syml") else show(t)
    s = tt
    if bs:
        s += " for " + ", ".join("x%d in %s" % (h, show(q)) for q, h in bs)
    if g is not TRUE:
        s += " if " + show(g)
    return s


def _show(t):
    op, a = t.op, t.a
    if op == "b":
        return show_b(a[0])
    if op == "int":
        return str(a[0])
    if op == "str":
        return repr(a[0])
    if op == "arg":
        return "$%s" % (a[0],)
    if op == "case":
        return "{" + "; ".join("%s -> %s" % (show(g), show(v)) for g, v in a) + "}"
    if op == "rec":
        n = _sh(a[0])
        if a[1] and a[1] != n:
            n = a[1]
        if a[2] and a[2][0] == "0":
            return "%s(%s)" % (n, ", ".join(show(v) for v in a[3]))
        return "%s{%s}" % (n, ", ".join("%s: %s" % (k, show(v)) for k, v in zip(a[2], a[3])))
    if op == "fld":
        return "%s.%s" % (show(a[0]), a[1])
    if op == "pay":
        return "%s.%s.%s" % (show(a[0]), a[2], a[3])
    if op == "isv":
        return "(%s is %s)" % (show(a[0]), a[2])
    if op == "lin":
        s = " + ".join(("%d*" % k if k != 1 else "") + show(x) for x, k in a[1])
        return "(%s%s)" % (s, " %+d" % a[0] if a[0] else "")
    if op == "ge0":
        return "(0 <= %s)" % show(a[0])
    if op == "eq0":
        return "(0 == %s)" % show(a[0])
    if op == "eq":
        return "(%s == %s)" % (show(a[0]), show(a[1]))
    if op in ("el", "pos"):
        return ("x" if op == "el" else "i") + _tag(a[1])
    if op == "slot":
        return "s%d.%s" % (a[0], a[1])
    if op == "set":
        return "{|" + "; ".join(show_cmp(p) for p in a) + "|}"
    if op == "list":
        return "[" + "; ".join(show_cmp(p) for p in a) + "]"
    if op == "cmp":
        return "<" + show_cmp(t) + ">"
    if op in ("mapof", "mm"):
        return "%s(%s; %s)" % (op, show(a[0]), "; ".join(show_cmp(p) for p in a[1]))
    if op == "get":
        return "%s[%s]" % (show(a[0]), show(a[1]))
    if op == "index":
        return "%s[%s]" % (show(a[0]), show(a[1]))
    if op == "slice":
        return "%s[%s..%s]" % tuple(show(x) for x in a)

    def f(x):
        if isinstance(x, T):
            return show(x)
        if isinstance(x, tuple):
            return "(" + ", ".join(f(y) for y in x) + ")"
        return str(x)

    return "%s(%s)" % (op, ", ".join(f(x) for x in a))
