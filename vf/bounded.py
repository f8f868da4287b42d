"""Fixpoints cut off after a constant number of rounds.

A loop of the code under analysis that is a loop of the reference model with one more slot, a
counter that only serves to leave the loop after a fixed number of rounds, computes the same as the
reference as long as the rounds suffice and something else beyond.  Taking the counter out must give
the reference form exactly; that shows both the construct and where it is.
"""
from terms import *
import terms as TT
from interp import canon_order

LIMIT = 1 << 20


def mus(ts):
    seen, st, out = set(), [t for t in ts if t is not None], []
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == "mu" and not fv(t):
            out.append(t)
        st.extend(kids(t))
    return out


def mentions(n, x):
    """The atoms of a guard that read x."""
    return [a for a in atoms_of(n) if fv(a) & fv(x)]


def drop_counter(t):
    """(the fixpoint without its round counter, the bound), or None."""
    slots, rest, inits = open_mu(t)
    if len(slots) < 2:
        return None
    for i, s in enumerate(slots):
        d = sub(rest[1 + i], s)
        if d.op != "int" or d.a[0] <= 0 or inits[i].op != "int" or i == t.a[3]:
            continue
        others = [j for j in range(len(slots)) if j != i]
        val = {}
        bound = None
        ok = True
        for x in [rest[0]] + [rest[1 + j] for j in others]:
            for at in atoms_in(x, s):
                if at.op not in ("ge0", "eq0"):
                    ok = False
                    break
                c, lin = lin_parts(at.a[0])
                if set(lin) != {s} or abs(c) > LIMIT:
                    ok = False
                    break
                # what it says in the first round, when the bound is far
                v = subst(at, {s: inits[i]}) if not isinstance(at, int) else None
                v = tobool(v)
                if v.op != "b" or v.a[0] > 1:
                    ok = False
                    break
                val[at] = v
                bound = abs(c)
            if not ok:
                break
        if not ok or not val or bound < 2:
            continue
        sb = Subst(val)
        new = [sb(rest[0])] + [sb(rest[1 + j]) for j in others]
        if any(fv(x) & fv(s) for x in new):
            continue
        phs = [slots[j] for j in others]
        ini = [inits[j] for j in others]
        order = canon_order(phs, new[1:], ini, new[0])
        seq = [others[k] for k in order]
        return close_mu([slots[j] for j in seq], (new[0],) + tuple(new[1 + k] for k in order),
                        [inits[j] for j in seq], seq.index(t.a[3])), bound
    return None


def atoms_in(x, s):
    """Guards' atoms anywhere in x that read s directly."""
    seen, st, out = set(), [x], []
    while st:
        y = st.pop()
        if y in seen or not fv(y) & fv(s):
            continue
        seen.add(y)
        if y.op in ("ge0", "eq0"):
            c, lin = lin_parts(y.a[0])
            if s in lin:
                out.append(y)
                continue
        if y is s:
            out.append(y)
            continue
        st.extend(kids(y))
    return out


def unbounded(ts):
    """The terms with round counters taken out -> (terms, bounds found)."""
    found = []
    for _ in range(4):
        m = {}
        for t in mus(ts):
            r = drop_counter(t)
            if r:
                m[t] = r[0]
                found.append(r[1])
        if not m:
            break
        sb = Subst(m)
        ts = [sb(t) if t is not None else None for t in ts]
    return ts, found
