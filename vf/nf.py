"""Normal form of a root function, and a small command line for looking at them."""
import sys

from mir import Crate
from terms import *
import terms as TT
from interp import WORLD, WORLDARG, Interp, State, Unmodelled, NeedMu, Leak, norm, norm_path, has_ptr, merge


PUSHNAMES = ("Tabler", "Dfa", "Grammar", "Clr", "Slr", "Lalr", "Builder")


def setup(crates):
    for c in crates:
        for p, a in c.adts.items():
            if p not in TT.ADTS:
                TT.ADTS[p] = a
            if p.split("::")[-1] in PUSHNAMES:
                TT.PUSHIN.add(p)


class NF:
    def __init__(self, ret, outs, n, ip, out_roots=()):
        self.ret, self.outs, self.n = ret, outs, n
        self.out_roots = list(out_roots)
        self.unknown = dict(ip.unknown)
        self.used = set(ip.used)

    def key(self):
        return (self.ret, tuple(self.outs), self.n)


def normal_form(ip, name, selft=None):
    ip.exact_rest = False
    try:
        x = normal_form_(ip, name, selft)
        if not leaks(x):
            return x
    except Leak:
        pass
    ip.exact_rest = True
    try:
        x = normal_form_(ip, name, selft)
    finally:
        ip.exact_rest = False
    if leaks(x):
        raise Leak("what is left of an iterator")
    return x


def leaks(x):
    ts = kids_deep(*[t for t in [x.ret, B(x.n)] + list(x.outs) if t is not None])
    return any(t.op == "rest" for t in ts)


def normal_form_(ip, name, selft=None):
    fn = ip.fns[name]
    ip.unknown = {}
    ip.used = set()
    ip.budget = 400000
    st = State(1, {})
    args, outs = [], []
    ts = dict(selft or {})
    for i in range(fn.argc):
        t = ip.rt(fn.locals[i + 1][0], ts)
        a = mk("arg", i)
        if t[0] == "ref" and t[1]:
            st.mem[("A", i)] = a
            args.append(mk("ptr", ("A", i), ()))
            outs.append(("A", i))
        else:
            args.append(a)
    ip.endless = []
    if ip.world:
        st.mem[WORLD] = mk("arg", WORLDARG)
        outs.append(WORLD)
    ret, fin = ip.run_fn(fn, args, ts, st)
    if fin is None:
        if len(ip.endless) == 1 and not ip.stack:
            g, t = ip.endless[0]
            return NF(norm(t, g), [], g, ip)
        return NF(None, [], 0, ip)
    n = fin.g
    # returned pointers into arguments: as they are
    r = norm(ret, n)
    os = [norm(fin.mem[o], n) for o in outs]
    return NF(r, os, n, ip, [(o[0], WORLDARG) if o == WORLD else o for o in outs])


def main():
    c = Crate(sys.argv[1])
    setup([c])
    ip = Interp(c, opaque=())
    pat = sys.argv[2] if len(sys.argv) > 2 else ""
    import time
    for nme, fn in list(c.fns.items()):
        if pat not in nme or fn.d.get("derived") and not pat or fn.d.get("closure") or "promoted" in nme:
            continue
        t = time.time()
        try:
            x = normal_form(ip, nme)
            print("==", nme, "%.2fs" % (time.time() - t), x.unknown or "")
            print("   N =", show(B(x.n))[:600])
            print("   R =", show(x.ret)[:3000] if x.ret else None)
            for i, o in enumerate(x.outs):
                print("   O%d =" % i, show(o)[:6000])
        except (Unmodelled, NeedMu) as e:
            print("==", nme, "UNMODELLED", type(e).__name__, e)


if __name__ == "__main__":
    main()
