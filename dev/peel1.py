"""peel1.py DUMPDIR CRATE FUNCTION: shows the peeled forms of one function (development only)."""
import sys
sys.path.insert(0, "/verif/vf")
from mir import Crate
import compare
from compare import *
from peel import Peel
from interp import canon

d, c, fn = sys.argv[1:4]
K = int(sys.argv[4]) if len(sys.argv) > 4 else 2
p = Pair(Crate("/verif/work/spec-mir/%s.json" % c), Crate(d + "/%s.json" % c))
keep = {}
p.peel = lambda a, b: keep.setdefault(p.cur, (a, b)) and None
one = p.one
def one2(n, im):
    p.cur = n
    one(n, im)
p.one = one2
name = [n for n in p.cs.fns if n.endswith("::" + fn)][0]
p.run(wanted=p.closure([name]))
for k, (a, b) in keep.items():
    print("-----", k, p.res[(k, None)].why if (k, None) in p.res else "")
    print(peeled(a, b, K))
    from terms import _bvar, _bhi, _blo, _atoms
    P = Peel(K, 30)
    xs = [P(t) for t in [a.ret] + a.outs] + [P(B(a.n))]
    ys = [P(t) for t in [b.ret] + b.outs] + [P(B(b.n))]
    th = theory(xs + ys)
    pa, pb = (band(band(z[-1].a[0], th), bnot(P.cut)) for z in (xs, ys))
    def cube(n):
        while n > 1:
            if _bhi[n] != 0:
                print("      +", show(_atoms[_bvar[n]])[:200]); n = _bhi[n]
            else:
                print("      -", show(_atoms[_bvar[n]])[:200]); n = _blo[n]
    if band(pa, bnot(pb)):
        print("  expected to return, found to panic:")
        cube(band(pa, bnot(pb)))
    m = band(pa, pb)
    for i, (x, y) in enumerate(zip(xs, ys)):
        x, y = canon(x, m), canon(y, m)
        if x is not y:
            print("  slot", i, first_diff(x, y)[:3000])
    print("SPEC n", show(B(a.n))[:6000])
    print("IMPL n", show(B(b.n))[:6000])
