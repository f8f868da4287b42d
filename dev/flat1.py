import sys
sys.path.insert(0, "/verif/vf")
from mir import Crate
import compare
from compare import *
from interp import canon
d, c, fn = sys.argv[1:4]
p = Pair(Crate("/verif/work/spec-mir/%s.json" % c), Crate(d + "/%s.json" % c))
name = [n for n in p.cs.fns if n.endswith("::" + fn)][0]
def deep(x, y, path=(), out=None, seen=None):
    if x is y or (x, y) in seen or len(out) > 12: return
    seen.add((x, y))
    if x.op != y.op or x.op in ("lin", "str", "int"):
        out.append((path, x, y)); return
    if x.op == "b":
        ax, ay = atoms_of(x.a[0]), atoms_of(y.a[0])
        p = [t for t in ax if t not in ay]; q = [t for t in ay if t not in ax]
        if not p or not q: out.append((path, x, y)); return
        for u, v in zip(p, q): deep(u, v, path + ("b",), out, seen)
        return
    if x.op in ("set", "list", "case", "xlist"):
        p = [k for k in x.a if k not in y.a]; q = [k for k in y.a if k not in x.a]
        if len(p) != len(q) or not p: out.append((path, x, y)); return
        for u, v in zip(p, q):
            if isinstance(u, tuple):
                for w, z in zip(u, v): deep(w, z, path + (x.op,), out, seen)
            else: deep(u, v, path + (x.op,), out, seen)
        return
    kx, ky = list(kids(x)), list(kids(y))
    if len(kx) != len(ky): out.append((path, x, y)); return
    for u, v in zip(kx, ky): deep(u, v, path + (x.op + (":" + str(x.a[0]) if isinstance(x.a[0], str) else ""),), out, seen)

def done(a, b):
    if a.n != b.n:
        out = []
        deep(B(a.n), B(b.n), (), out, set())
        for p, x, y in out: print("  D", ".".join(p)[-200:], "\n     ", show(x)[:9000], "\n     ", show(y)[:9000])
    th = theory([a.ret, b.ret] + a.outs + b.outs + [B(a.n), B(b.n)])
    m = band(band(a.n, b.n), th)
    print("n equal:", a.n == b.n, "th", th == 1)
    if a.n != b.n:
        print(first_diff(B(a.n), B(b.n)))
    from peel import Flat
    for x, y in zip([a.ret] + a.outs, [b.ret] + b.outs):
        if x is y: continue
        x, y = canon(x, m), canon(y, m)
        if x is y: continue
        print("DIFF", first_diff(x, y))
        x, y = Flat()(x), Flat()(y)
        x, y = canon(x, m), canon(y, m)
        print("FLAT", x is y, first_diff(x, y))
        if x.op == y.op == "case" and "-v" in sys.argv:
            for g, v in x.a: print("  L", show(g), "=>", show(v))
            for g, v in y.a: print("  R", show(g), "=>", show(v))
att = p.attempt
rec = []
def att2(n, im, l):
    r = att(n, im, l)
    if n == name and r[0]: rec.append((len(l), r[0]))
    return r
p.attempt = att2
p.run(wanted=p.closure([name]))
for l, (a, b) in rec:
    print("PLAN", l)
    done(a, b)
