"""Value-flow normal forms of function bodies.

Every body is walked once per control-flow region: alternatives are joined under guards (not
enumerated as paths), local calls are inlined, loops are summarised.  Nothing is executed and no
solver is asked: two functions with the same normal form compute the same thing on every input.
"""
import re
import time
import zlib

from cfg import Cfg
from terms import *
import terms as TT


class Unmodelled(Exception):
    pass


class NeedMu(Exception):
    pass


class Leak(Unmodelled):
    """What is left of an iterator matters, and it was taken for unknown."""


class State:
    __slots__ = ("g", "mem")

    def __init__(self, g, mem):
        self.g = g
        self.mem = mem

    def copy(self):
        return State(self.g, dict(self.mem))


def merge(sts):
    sts = [s for s in sts if s is not None and s.g != 0]
    if not sts:
        return None
    if len(sts) == 1:
        return sts[0]
    tot = 0
    for s in sts:
        tot = bor(tot, s.g)
    gs = [brestrict(s.g, tot) for s in sts]
    mem = {}
    roots = {}
    for s in sts:
        for r in s.mem:
            roots[r] = 1
    for r in roots:
        vs = [s.mem.get(r) for s in sts]
        x = vs[0]
        if all(v is x for v in vs):
            mem[r] = x
        else:
            mem[r] = mkcase([(g, v) for g, v in zip(gs, vs) if v is not None])
    return State(tot, mem)


UNINIT = mk("uninit")


def norm_path(p):
    """Path without generic arguments."""
    out, d = [], 0
    i = 0
    while i < len(p):
        c = p[i]
        if c == "<":
            if d == 0 and (i == 0 or p[i - 1] in " (&"):
                # qualified path <A as B>: keep verbatim
                pass
            d += 1
        elif c == ">" and not (i and p[i - 1] == "-"):
            d -= 1
            if d == 0:
                i += 1
                continue
        if d == 0:
            out.append(c)
        i += 1
    return re.sub(r":{3,}", "::", "".join(out)).replace("::::", "::").strip(":")


REFS = ("alloc::boxed::Box", "alloc::rcs::rc::Rc", "alloc::rc::Rc", "alloc::sync::Arc", "alloc::borrow::Cow",
        "core::mem::manually_drop::ManuallyDrop", "core::mem::maybe_uninit::MaybeUninit")
PTRWRAP = ("alloc::boxed::Box", "core::ptr::unique::Unique", "core::ptr::non_null::NonNull", "alloc::boxed::BoxRaw")
TRANSPARENT_FIELDS = ("core::mem::maybe_uninit::MaybeUninit", "core::mem::manually_drop::ManuallyDrop")


def strip(t):
    while t[0] in ("ref", "ptr") or t[0] == "adt" and t[1] in REFS:
        t = t[2] if t[0] in ("ref", "ptr") else t[2][0] if t[1] != "alloc::borrow::Cow" else t[2][-1]
    return t


def strip_ref(t):
    while t[0] in ("ref", "ptr"):
        t = t[2]
    return t


class Frame:
    __slots__ = ("fn", "fid", "ts", "cfg", "self_")

    def __init__(self, fn, fid, ts, cfg):
        self.fn, self.fid, self.ts, self.cfg = fn, fid, ts, cfg


class Nest(Exception):
    """The loop over a flattened sequence has no closed form: look at it as nested loops."""


class Fnval:
    pass


# what a program does to the outside world, in order; the calls that do something
WORLD = ("W",)
WORLDARG = 90
IO = re.compile(r"^(std::io::|std::fs::|core::io::|alloc::io::|std::process::|prettytable::(.*::)?(print|to_csv))")
NOIO = re.compile(r"^std::fs::read|^std::fs::(metadata|exists|canonicalize)|File::open$|::io::error::|BufReader::new$|BufWriter::new$|LineWriter::new$|"
                  r"with_capacity$|::(stdin|stdout|stderr|lock|by_ref|get_ref|get_mut|into_inner|kind|id)$|std::fs::.*OpenOptions::(new|read|write|"
                  r"append|truncate|create|create_new)$")


class Interp:
    def __init__(self, crate, opaque=(), budget=400000):
        self.crate = crate
        self.fns = crate.fns
        self.by_norm = {}
        for n in self.fns:
            self.by_norm.setdefault(norm_path(n), n)
        for a in crate.adts.values():
            if a["path"] not in TT.ADTS or a.get("local"):
                TT.ADTS[a["path"]] = a
        self.opaque = set(opaque)
        self.lemmas = {}
        self.assumed = set()
        self.deadline = None
        self.cfgs = {}
        self.fnitems = {}
        self.clots = {}
        self.stack = []
        self.tcache = {}
        self.budget = budget
        self.unknown = {}
        self.exact_rest = False
        self.used = set()
        self.impls = {}
        for im in crate.impls:
            if im["trait"]:
                self.impls.setdefault(im["trait"], []).append(im)
        # a program: what it does to the outside is a text and list of calls of its own
        self.world = "crate::main" in self.fns
        self.lamfx = 0
        self.endless = []
        import models
        self.models = models

    # ---------------------------------------------------------------- types
    def rt(self, i, ts):
        key = (i, id(ts))
        r = self.tcache.get(i)
        if r is not None:
            return r
        r, closed = self._rt(i, ts)
        if closed:
            self.tcache[i] = r
        return r

    def _rt(self, i, ts, depth=0):
        t = self.crate.types[i]
        k = t[0]
        if depth > 40:
            return ("other", "deep"), False
        if k == "param":
            return (ts.get(t[1], ("param", t[1])), False)
        if k == "ref" or k == "ptr":
            r, c = self._rt(t[2], ts, depth + 1)
            return (k, t[1], r), c
        if k == "adt":
            rs = [self._rt(a, ts, depth + 1) for a in t[2]]
            return ("adt", t[1], tuple(r for r, _ in rs)), all(c for _, c in rs)
        if k == "tuple":
            rs = [self._rt(a, ts, depth + 1) for a in t[1]]
            return ("tuple", tuple(r for r, _ in rs)), all(c for _, c in rs)
        if k in ("slice", "array"):
            r, c = self._rt(t[1], ts, depth + 1)
            return (k, r), c
        return tuple(x if not isinstance(x, list) else tuple(x) for x in t), True

    def tyof(self, fr, place):
        return self.rt(place[2], fr.ts)

    def opty(self, fr, o):
        if o[0] in ("copy", "move"):
            return self.rt(o[1][2], fr.ts)
        c = o[1]
        if "ty" in c:
            return self.rt(c["ty"], fr.ts)
        if c["k"] == "str":
            return ("ref", False, ("prim", "str"))
        if c["k"] == "fn":
            return ("fndef", c["path"])
        return ("other", "?")

    # ---------------------------------------------------------------- memory
    def step_load(self, v, e):
        k = e[0]
        if k == "f":
            _, name, adt, var = e
            if adt is None:
                return fld(v, name)
            if adt in TRANSPARENT_FIELDS:
                return v
            vs = variants(adt)
            if vs and len(vs) > 1 or not vs and isinstance(var, str) and var != adt.split("::")[-1]:
                return pay(v, adt, var, name)
            return fld(v, name)
        if k == "k":
            return get(v, e[1])
        if k == "i":
            return index(v, e[1])
        if k == "s":
            return slice_(v, e[1], e[2])
        if k == "from":
            return v.a[0] if v.op == "from" else mk("fromof", v)
        raise Unmodelled("path " + str(k))

    def load(self, st, root, path):
        v = st.mem.get(root, UNINIT)
        for e in path:
            v = self.step_load(v, e)
        return simp(v, st.g)

    def upd(self, v, path, x):
        if not path:
            return x
        if v.op == "case":
            return mkcase([(g, self.upd(w, path, x)) for g, w in leaves(v)])
        e, rest = path[0], path[1:]
        k = e[0]
        if k == "f":
            _, name, adt, var = e
            if adt in TRANSPARENT_FIELDS:
                return self.upd(v, rest, x)
            nv = self.upd(self.step_load(v, e), rest, x)
            if v.op == "rec" and name in v.a[2] and (var is None or not isinstance(var, str) or v.a[1] == var):
                return rec(v.a[0], v.a[1], v.a[2], [nv if n == name else w for n, w in zip(v.a[2], v.a[3])])
            if adt is None:
                n = var if isinstance(var, int) else None
                if n is None:
                    raise Unmodelled("store to field of unknown tuple")
                names = tuple(str(i) for i in range(n))
                return rec(None, None, names, [nv if m == name else fld(v, m) for m in names])
            names = fields(adt, var)
            if not names or name not in names:
                raise Unmodelled("store to field of " + str(adt))
            multi = len(variants(adt)) > 1
            return rec(adt, var, names, [nv if m == name else (pay(v, adt, var, m) if multi else fld(v, m)) for m in names])
        if k == "k":
            return minsert(v, e[1], self.upd(get(v, e[1]), rest, x))
        if k == "i":
            return vset(v, e[1], self.upd(index(v, e[1]), rest, x))
        if k == "s":
            mid = self.upd(slice_(v, e[1], e[2]), rest, x)
            return concat(concat(slice_(v, Int(0), e[1]), mid), slice_(v, e[2], len_(v)))
        if k == "from":
            return mk("from", x)
        raise Unmodelled("path " + str(k))

    def store(self, st, alts, x):
        """alts: [(guard, root, path)]"""
        for g, root, path in alts:
            old = st.mem.get(root, UNINIT)
            new = self.upd(old, path, x)
            if g == 1 or bimp(st.g, g):
                st.mem[root] = new
            else:
                st.mem[root] = mkcase([(g, new), (bnot(g), old)])

    def ptr_alts(self, v, g=1):
        out = []
        for gg, w in leaves(v):
            if w.op == "ptr":
                out.append((gg, w.a[0], w.a[1]))
            else:
                return None
        return out

    def loadp(self, st, v):
        """The pointee of a possibly-pointer value (shared references are the value itself)."""
        if v.op == "ptr":
            return self.load(st, v.a[0], v.a[1])
        if v.op == "case":
            v = simp(v, st.g)
            if v.op != "case":
                return self.loadp(st, v)
            if any(w.op == "ptr" for _, w in leaves(v)):
                return mkcase([(g, self.loadp(st, w)) for g, w in leaves(v)])
        return v

    def storep(self, st, v, x):
        v = simp(v, st.g)
        alts = self.ptr_alts(v)
        if alts is None:
            raise Unmodelled("store through a non-pointer " + v.op)
        self.store(st, alts, x)

    def cell(self, st, v):
        r = ("V", fresh())
        st.mem[r] = v
        return mk("ptr", r, ())

    def deep(self, st, v, depth=0):
        """Replace pointers inside a value by what they point to (for opaque uses)."""
        v = self.loadp(st, v)
        if depth > 6:
            return v
        if has_ptr(v):
            if v.op == "rec":
                return rec(v.a[0], v.a[1], v.a[2], [self.deep(st, w, depth + 1) for w in v.a[3]])
            if v.op == "case":
                return mkcase([(g, self.deep(st, w, depth + 1)) for g, w in leaves(v)])
            if v.op in ("list", "set"):
                ps = []
                for p in v.a:
                    bs, g, k, t = open_cmp(p)
                    ps += close(bs, g, k, self.deep(st, t, depth + 1))
                return mklist(ps) if v.op == "list" else mkset(ps)
        return v

    # ---------------------------------------------------------------- places
    def resolve(self, fr, st, place):
        """[(guard, root, path)] or ('v', value)"""
        cur = [(1, ("L", fr.fid, place[0]), ())]
        val = None
        for e in place[1]:
            k = e[0]
            if k == "deref":
                if val is None:
                    vs = []
                    for g, r, p in cur:
                        v = self.load(st, r, p)
                        for gg, w in leaves(v):
                            n = band(g, gg)
                            if band(n, st.g):
                                vs.append((n, w, r, p))
                    if all(w.op == "ptr" for _, w, _, _ in vs) and vs:
                        cur = [(g, w.a[0], w.a[1]) for g, w, _, _ in vs]
                    elif not any(w.op == "ptr" for _, w, _, _ in vs):
                        # a shared reference or box: the value itself, in place
                        pass
                    else:
                        val = mkcase([(g, self.loadp(st, w)) for g, w, _, _ in vs])
                        cur = None
                else:
                    val = self.loadp(st, val)
                continue
            if k == "downcast":
                continue
            if k == "field":
                el_ = ("f", e[1], e[3], e[4])
                if e[3] in PTRWRAP:
                    continue
            elif k == "index":
                el_ = ("i", self.load(st, ("L", fr.fid, e[1]), ()))
            elif k == "cindex":
                if e[3]:
                    el_ = ("i~", e[1])
                else:
                    el_ = ("i", Int(e[1]))
            elif k == "subslice":
                el_ = ("s~", e[1], e[2], e[3])
            else:
                raise Unmodelled("projection " + k)
            if el_[0] in ("i~", "s~"):
                def fix(v):
                    n = len_(v)
                    if el_[0] == "i~":
                        return ("i", sub(n, Int(el_[1])))
                    return ("s", Int(el_[1]), sub(n, Int(el_[2])) if el_[3] else Int(el_[2]))
                if val is not None:
                    val = self.step_load(val, fix(val))
                else:
                    cur = [(g, r, p + (fix(self.load(st, r, p)),)) for g, r, p in cur]
                continue
            if val is not None:
                val = self.step_load(val, el_)
            else:
                cur = [(g, r, p + (el_,)) for g, r, p in cur]
        if val is not None:
            return ("v", val)
        return cur

    def read(self, fr, st, place):
        r = self.resolve(fr, st, place)
        if r and r[0] == "v":
            return simp(r[1], st.g)
        if len(r) == 1:
            return self.load(st, r[0][1], r[0][2])
        return mkcase([(g, self.load(st, a, p)) for g, a, p in r])

    def write(self, fr, st, place, x):
        if not place[1]:
            st.mem[("L", fr.fid, place[0])] = x
            return
        r = self.resolve(fr, st, place)
        if r and r[0] == "v":
            raise Unmodelled("write through value")
        self.store(st, r, x)

    # ---------------------------------------------------------------- operands
    def const(self, fr, st, c):
        k = c["k"]
        if k == "int":
            t = self.rt(c["ty"], fr.ts) if "ty" in c else ("prim", "usize")
            return self.intval(c["v"], t)
        if k == "str":
            return Str(c["v"])
        if k == "bytes":
            return mk("bytes", tuple(c["v"]))
        if k == "fn":
            return self.fnitem(c, fr.ts)
        if k == "zst":
            t = self.rt(c["ty"], fr.ts)
            return self.zst(t, fr, c)
        if k == "promoted":
            return self.promoted(fr, st, c)
        if k == "named":
            v = c.get("val")
            if isinstance(v, dict):
                return self.const(fr, st, v)
            return mk("const", c["path"])
        if k == "static":
            return mk("static", c["path"])
        return mk("const", str(sorted(c.items(), key=str)))

    def intval(self, v, t):
        if t == ("prim", "bool"):
            return TRUE if v else FALSE
        if t == ("prim", "char"):
            return Str(chr(v))
        if t[0] == "prim":
            return Int(v)
        if t[0] == "adt":
            vs = TT.ADTS.get(t[1])
            if vs:
                for x in vs["variants"]:
                    if int(x["discr"]) == v and not x["fields"]:
                        return rec(t[1], x["name"], (), ())
        return Int(v)

    def zst(self, t, fr, c):
        if t[0] == "tuple":
            return UNIT
        if t[0] == "closure":
            return self.closure(t[1], (), fr)
        if t[0] == "adt":
            vs = variants(t[1])
            return rec(t[1], vs[0] if vs and len(vs) == 1 else None, (), ())
        if t[0] == "fndef":
            return mk("fnitem", t[1], 0)
        return mk("const", str(t))

    def fnitem(self, c, ts):
        ta = tuple(self.rt(a, ts) for a in c["args"])
        path = c.get("resolved") if c.get("rlocal") else c["path"]
        key = (path, ta)
        t = mk("fnitem", norm_path(path), self.tykey(ta))
        self.fnitems[t] = (c, ts)
        return t

    def tykey(self, ta):
        return 0

    def closure(self, path, vals, fr):
        n = "clo:" + path
        names = tuple(str(i) for i in range(len(vals)))
        self.clots[n] = fr.ts
        return rec(n, None, names, vals)

    def promoted(self, fr, st, c):
        for nm in ("%s::{promoted#%d}" % (c["def"], c["idx"]), "%s::promoted[%d]" % (c["def"], c["idx"])):
            if nm in self.fns:
                r, s2 = self.run_fn(self.fns[nm], [], fr.ts, st)
                return r
        raise Unmodelled("promoted %s" % c["def"])

    def operand(self, fr, st, o):
        if o[0] == "const":
            return self.const(fr, st, o[1])
        return self.read(fr, st, o[1])

    # ---------------------------------------------------------------- rvalues
    def rvalue(self, fr, st, r, dest):
        k = r[0]
        if k == "use":
            return self.operand(fr, st, r[1])
        if k == "ref":
            if r[1] in ("shared", "fake"):
                return self.read(fr, st, r[2])
            return self.addr(fr, st, r[2])
        if k == "rawptr":
            return self.addr(fr, st, r[2])
        if k == "discr":
            v = self.read(fr, st, r[1])
            return mk("disc", v, strip(self.tyof(fr, r[1]))[1])
        if k == "bin":
            return self.binop(r[1], self.operand(fr, st, r[2]), self.operand(fr, st, r[3]), fr, r, st)
        if k == "un":
            v = self.operand(fr, st, r[2])
            if r[1] == "Not":
                return Not(tobool(v))
            if r[1] == "PtrMetadata":
                return len_(self.loadp(st, v))
            if r[1] == "Neg":
                return scale(v, -1)
            return mk("un", r[1], v)
        if k == "agg":
            return self.aggregate(fr, st, r)
        if k == "cast":
            return self.cast(fr, st, r)
        if k == "repeat":
            v = self.operand(fr, st, r[1])
            m = re.match(r"^(\d+)", str(r[2]))
            if m and int(m.group(1)) <= 16:
                return mklist([mk("cmp", (), TRUE, "one", v)] * int(m.group(1)))
            return mk("repeat", v, str(r[2]))
        raise Unmodelled("rvalue " + k)

    def is_box(self, fr, place):
        t = self.rt(place[2], fr.ts)
        return t[0] == "adt" and t[1] == "alloc::boxed::Box"

    def addr(self, fr, st, place):
        r = self.resolve(fr, st, place)
        if r and r[0] == "v":
            return r[1]
        if len(r) == 1:
            return mk("ptr", r[0][1], r[0][2])
        return mkcase([(g, mk("ptr", a, p)) for g, a, p in r])

    def aggregate(self, fr, st, r):
        kind = r[1]
        vals = [self.operand(fr, st, o) for o in r[2]]
        if kind[0] == "tuple":
            return tup(*vals) if vals else UNIT
        if kind[0] == "array":
            out = NIL
            for v in vals:
                out = push(out, v)
            return out
        if kind[0] == "closure":
            return self.closure(kind[1], vals, fr)
        if kind[0] == "adt":
            adt, var, names = kind[1], kind[2], kind[3]
            if adt in TRANSPARENT_FIELDS:
                return vals[0] if vals else UNINIT
            return rec(adt, var, names, vals)
        raise Unmodelled("aggregate " + str(kind[0]))

    def binop(self, op, x, y, fr, r, st):
        x, y = self.loadp(st, x), self.loadp(st, y)
        if op == "Sub":
            t = self.opty(fr, r[2])
            if t[0] == "prim" and str(t[1]).startswith("u"):
                # an underflow panics
                st.g = band(st.g, ge0(sub(x, y)).a[0])
        v = binop(op, x, y)
        if op[:3] in ("Add", "Sub", "Mul"):
            t = strip(self.opty(fr, r[2]))
            if t[0] == "prim" and t[1] in ("u8", "i8", "u16", "i16"):
                return int_cast(v, ("prim", "i128"), t)
        return v

    def cast(self, fr, st, r):
        how = r[1]
        if how == "BoxDerefTransmute":
            o = r[2]
            p = o[1]
            proj = list(p[1])
            while proj and proj[-1][0] == "field" and (proj[-1][3] in PTRWRAP or proj[-1][3] is None or "Unique" in str(proj[-1][3])):
                proj.pop()
            # the box: a copy of it is a place that leads to the boxed value's own place
            if not proj:
                v = self.load(st, ("L", fr.fid, p[0]), ())
                if v.op == "ptr" or v.op == "case" and all(w.op == "ptr" for _, w in leaves(v)):
                    return v
            return self.addr(fr, st, [p[0], proj, None])
        if how == "IntToInt":
            return int_cast(self.operand(fr, st, r[2]), strip(self.opty(fr, r[2])), strip(self.rt(r[3], fr.ts)))
        return self.operand(fr, st, r[2])

    # ---------------------------------------------------------------- running
    def cfg(self, fn):
        c = self.cfgs.get(fn.name)
        if c is None:
            c = self.cfgs[fn.name] = Cfg(fn)
        return c

    def run_fn(self, fn, args, ts, st):
        """-> (return value, state) ; state None when it never returns"""
        if len(self.stack) > 60:
            raise Unmodelled("call depth")
        cfg = self.cfg(fn)
        if cfg.irreducible:
            raise Unmodelled("irreducible control flow in " + fn.name)
        self.used.add(fn.name)
        fr = Frame(fn, fresh(), ts, cfg)
        st = st.copy()
        if fn.d.get("closure") and fn.argc == len(args) + 0:
            pass
        for i, a in enumerate(args):
            st.mem[("L", fr.fid, i + 1)] = a
        self.stack.append(fn.name)
        try:
            ex = self.region(fr, 0, None, st, None)
        finally:
            self.stack.pop()
        out = merge([s for t, s in ex if t == "ret"])
        if out is None:
            return None, None
        ret = out.mem.get(("L", fr.fid, 0), UNIT)
        out = State(out.g, {r: v for r, v in out.mem.items() if not (r[0] == "L" and r[1] == fr.fid)})
        return simp(ret, out.g), out

    def region(self, fr, entry, nodes, st, latch):
        """-> [(target, state)], targets outside nodes, 'ret', or 'latch'"""
        cfg = fr.cfg
        pend = {entry: [st]}
        outs = []
        for b in cfg.rpo:
            if nodes is not None and b not in nodes or b not in pend:
                continue
            s = merge(pend.pop(b))
            if s is None or s.g == 0:
                continue
            if b in cfg.loops and b != latch:
                res = self.loop(fr, b, s)
            else:
                res = self.block(fr, b, s)
            for t, s2 in res:
                if s2 is None or s2.g == 0:
                    continue
                if t == "ret" or isinstance(t, tuple):
                    outs.append((t, s2))
                elif t == latch:
                    outs.append(("latch", s2))
                elif nodes is not None and t not in nodes:
                    outs.append((t, s2))
                else:
                    pend.setdefault(t, []).append(s2)
        return outs

    def block(self, fr, b, st):
        self.budget -= 1
        if self.budget < 0 or self.deadline and time.time() > self.deadline:
            raise Unmodelled("budget")
        st = st.copy()
        bl = fr.fn.blocks[b]
        for s in bl["s"]:
            if s[0] == "assign" and s[2][0] == "use" and s[2][1][0] == "copy" and s[2][1][1][1] and self.is_box(fr, s[1]):
                self.write(fr, st, s[1], self.addr(fr, st, s[2][1][1]))
            elif s[0] == "assign":
                x = self.rvalue(fr, st, s[2], s[1])
                self.write(fr, st, s[1], x)
            elif s[0] == "dead":
                st.mem.pop(("L", fr.fid, s[1]), None)
            elif s[0] == "setdiscr":
                raise Unmodelled("set discriminant")
        t = bl["t"]
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "return":
            return [("ret", st)]
        if k == "unreachable":
            return []
        if k == "drop":
            return [(t[2], st)]
        if k == "switch":
            return self.switch(fr, st, t)
        if k == "assert":
            v = tobool(self.operand(fr, st, t[1])).a[0]
            st.g = band(st.g, v if t[2] else bnot(v))
            return [(t[3], st)]
        if k == "call":
            r, s2 = self.call(fr, st, t, b)
            if s2 is None or t[4] is None:
                return []
            self.write(fr, s2, t[3], r)
            return [(t[4], s2)]
        raise Unmodelled("terminator " + k)

    def switch(self, fr, st, t):
        v = self.operand(fr, st, t[1])
        bool_ = self.rt(t[4], fr.ts) == ("prim", "bool")
        outs = []
        rest = 1
        for val, bb in t[2]:
            g = self.switch_guard(v, int(val), bool_)
            n = band(st.g, band(rest, g))
            if n:
                s = st.copy()
                s.g = n
                outs.append((bb, s))
            rest = band(rest, bnot(g))
        n = band(st.g, rest)
        if n and t[3] is not None:
            st.g = n
            outs.append((t[3], st))
        return outs

    def switch_guard(self, v, val, bool_=False):
        n = 0
        for g, w in leaves(v):
            if w.op == "disc":
                adt = w.a[1]
                d = TT.ADTS.get(adt)
                if not d:
                    raise Unmodelled("discriminant of " + str(adt))
                x = None
                for vv in d["variants"]:
                    if int(vv["discr"]) == val or int(vv["discr"]) - 2 ** 64 == val or int(vv["discr"]) == val - 256:
                        x = isv(w.a[0], adt, vv["name"]).a[0]
                if x is None:
                    x = 0
            elif w.op == "b":
                x = w.a[0] if val else bnot(w.a[0])
            elif w.op == "str":
                x = 1 if len(w.a[0]) == 1 and ord(w.a[0]) == val else 0
            elif w.op == "int":
                x = 1 if w.a[0] == val else 0
            elif w.op in ("undef", "uninit"):
                x = 0
            elif bool_:
                x = tobool(w).a[0]
                if not val:
                    x = bnot(x)
            else:
                x = eq(w, Int(val)).a[0]
            n = bor(n, band(g, x))
        return n

    # ---------------------------------------------------------------- calls
    def call(self, fr, st, t, b):
        f = t[1]
        args = [self.operand(fr, st, a) for a in t[2]]
        if f[0] == "const" and f[1]["k"] == "fn":
            cs = CallSite(self, fr, st, f[1], args, t)
            return self.call_const(cs)
        fv_ = self.operand(fr, st, f)
        return self.call_value(fv_, args, st)

    def call_const(self, cs):
        c, ts, st, args = cs.c, cs.fr.ts, cs.st, cs.args
        fn, nts = self.target(c, ts)
        if fn is not None:
            return self.call_local(fn, nts, args, st, cs)
        m = self.models.find(cs.path, cs)
        if m is not None:
            r = m(self, cs)
            if r is not None:
                return r
        if c.get("trait") and c["trait"].startswith("lrp::"):
            # which implementation
            t = cs.selft
            if t is not None and t[0] == "adt":
                args = [Str(str(t[1]).split("::")[-1])] + list(args)
        return self.unknown_call(cs.path, args, st, cs)

    def target(self, c, ts):
        """The local body a callee constant denotes, with its type environment."""
        if c.get("trait"):
            selft = self.rt(c["self"], ts) if "self" in c else None
            im = self.find_impl(c["trait"], selft, [self.rt(a, ts) for a in c["args"]])
            if im is not None:
                imd, env = im
                name = None
                for it, path in imd["items"]:
                    if it == c["name"]:
                        name = path
                if name is None:
                    for tr in self.crate.traits:
                        if tr["path"] == c["trait"]:
                            for it, path, dflt in tr["items"]:
                                if it == c["name"] and path in self.fns:
                                    fn = self.fns[path]
                                    return fn, self.bind(fn, c["args"], ts, {"Self": selft})
                    return None, None
                if imd["derived"] and c["trait"] in DERIVED_MODELLED:
                    return None, None
                if name in self.fns:
                    fn = self.fns[name]
                    nts = dict(env)
                    # method generics come last
                    gens = [self.crate.types[g][1] for g in fn.d.get("generics", [])]
                    own = [g for g in gens if g not in env]
                    ta = [self.rt(a, ts) for a in c["args"]]
                    for g, a in zip(reversed(own), reversed(ta)):
                        nts[g] = a
                    nts["Self"] = selft
                    return fn, nts
                return None, None
            if selft is not None and strip_ref(selft)[0] == "param" and c["path"] in self.fns and c.get("local"):
                fn = self.fns[c["path"]]
                if False:
                    return fn, self.bind(fn, c["args"], ts, {})
            return None, None
        path = c.get("resolved") if c.get("rlocal") else c["path"]
        if path in self.fns and (c.get("local") or c.get("rlocal")):
            fn = self.fns[path]
            return fn, self.bind(fn, c.get("rargs") if c.get("rlocal") and c.get("resolved") else c["args"], ts, {})
        return None, None

    def bind(self, fn, targs, ts, extra):
        nts = dict(extra)
        gens = [self.crate.types[g][1] for g in fn.d.get("generics", [])]
        ta = [self.rt(a, ts) for a in targs]
        for g, a in zip(gens, ta):
            nts[g] = a
        return nts

    def find_impl(self, trait, selft, targs):
        if selft is None:
            return None
        for im in self.impls.get(trait, []):
            env = {}
            if self.unify(im["self"], selft, env):
                return im, env
        if selft[0] == "ref":
            return None
        return None

    def unify(self, i, t, env):
        p = self.crate.types[i]
        if p[0] == "param":
            if p[1] in env:
                return True
            env[p[1]] = t
            return True
        if p[0] != t[0]:
            return False
        if p[0] == "adt":
            return p[1] == t[1] and all(self.unify(a, b, env) for a, b in zip(p[2], t[2]))
        if p[0] == "ref":
            return self.unify(p[2], t[2], env)
        if p[0] == "tuple":
            return len(p[1]) == len(t[1]) and all(self.unify(a, b, env) for a, b in zip(p[1], t[1]))
        if p[0] in ("slice", "array"):
            return self.unify(p[1], t[1], env)
        return tuple(p) == tuple(t)

    def lemma_key(self, fn, nts):
        if fn.d.get("in_trait"):
            t = nts.get("Self")
            t = strip_ref(t) if t else None
            return (fn.name, t[1] if t and t[0] == "adt" else None)
        return (fn.name, None)

    def call_local(self, fn, nts, args, st, cs=None):
        base = norm_path(fn.name)
        if self.stack and not fn.d.get("closure"):
            k = self.lemma_key(fn, nts)
            if k in self.assumed:
                return self.uninterpreted("call", base if k[1] is None else base + "@" + k[1], args, st)
            lem = self.lemmas.get(k)
            if lem is not None:
                return lem.apply(self, args, st)
        if base in self.opaque and self.stack and not fn.d.get("closure"):
            return self.uninterpreted("call", base, args, st)
        if fn.name in self.stack:
            return self.uninterpreted("rcall", base, args, st)
        return self.run_fn(fn, args, nts, st)

    def uninterpreted(self, op, name, args, st):
        """An opaque call: a function of its arguments; what it may write becomes a function of them too."""
        st = st.copy()
        vals = []
        outs = []
        fx = self.lamfx
        for a in args:
            v = simp(a, st.g)
            pa = self.ptr_alts(v) if v.op in ("ptr", "case") else None
            if pa:
                outs.append(v)
            elif v.op == "rec" and v.a[0] and str(v.a[0]).startswith("clo:") and has_ptr(v):
                for w in v.a[3]:
                    if w.op == "ptr":
                        outs.append(w)
            vals.append(self.lam(st, v))
        t = relift(op, [name] + vals)
        for i, p in enumerate(outs):
            self.storep(st, p, relift("out", [t, i]))
        if self.world and (self.lamfx > fx or op == "ext" and IO.match(name) and not NOIO.search(name) or
                           op in ("call", "rcall", "apply") and WORLD in st.mem):
            self.emit(st, mklist([mk("cmp", (), TRUE, "one", t)]))
        return t, st

    def emit(self, st, x):
        """x happens after what has happened so far."""
        st.mem[WORLD] = concat(st.mem[WORLD], x)

    def unknown_call(self, name, args, st, cs):
        self.unknown[name] = self.unknown.get(name, 0) + 1
        return self.uninterpreted("ext", name, args, st)

    # calling a function value
    def call_value(self, f, args, st):
        f = simp(f, st.g)
        if f.op == "case":
            outs = []
            rets = []
            for g, w in leaves(f):
                n = band(st.g, g)
                if not n:
                    continue
                r, s = self.call_value(w, args, State(n, dict(st.mem)))
                if s is not None:
                    rets.append((s.g, r))
                    outs.append(s)
            m = merge(outs)
            return (mkcase(rets), m) if m else (None, None)
        if f.op == "ptr":
            v = self.load(st, f.a[0], f.a[1])
            if v.op == "rec" and str(v.a[0]).startswith("clo:"):
                return self.call_closure(v, f, args, st)
            if v.op == "case" or v.op == "fnitem" or v.op == "ptr":
                return self.call_value(v, args, st)
            t, s = self.uninterpreted("apply", "fn", [v] + args, st)
            s = s.copy()
            # a stateful callee
            self.storep(s, f, relift("fnst", [t]))
            return t, s
        if f.op == "rec" and str(f.a[0]).startswith("clo:"):
            return self.call_closure(f, None, args, st)
        if f.op == "fnitem":
            c, ts = self.fnitems.get(f, (None, None))
            if c is None:
                raise Unmodelled("fn item")
            cs = CallSite(self, FakeFrame(ts), st, c, args, None)
            if c.get("ctor"):
                return self.ctor(c, args), st
            return self.call_const(cs)
        return self.uninterpreted("apply", "fn", [f] + args, st)

    def ctor(self, c, args):
        adt, var = c["ctor"], c["ctor"].split("::")[-1]
        if adt not in TT.ADTS:
            adt = adt.rsplit("::", 1)[0]
        names = fields(adt, var) or [str(i) for i in range(len(args))]
        return rec(adt, var, names, args)

    def call_closure(self, v, ptr, args, st):
        name = v.a[0][4:]
        fn = self.fns.get(name)
        if fn is None:
            raise Unmodelled("closure body " + name)
        t1 = self.rt(fn.locals[1][0], self.clots.get(v.a[0], {})) if fn.argc else None
        me = v
        st = st.copy()
        cellp = None
        if t1 and t1[0] == "ref" and t1[1]:
            if ptr is None:
                me = cellp = self.cell(st, v)
            else:
                me = ptr
        if fn.name in self.stack:
            return self.uninterpreted("rcall", "closure", [me] + args, st)
        r, s = self.run_fn(fn, [me] + list(args), self.clots.get(v.a[0], {}), st)
        if s is not None and cellp is not None:
            if s.mem.get(cellp.a[0]) is not v:
                raise Unmodelled("closure with state of its own")
            s = s.copy()
            s.mem.pop(cellp.a[0])
        return r, s

    def lam(self, st, v, depth=0):
        """Function values inside v replaced by what they do."""
        v = self.loadp(st, v)
        if not has_fn(v) or depth > 4:
            return self.deep(st, v)
        if v.op == "case":
            return mkcase([(g, self.lam(st, w, depth + 1)) for g, w in leaves(v)])
        if v.op == "fnitem":
            c, ts = self.fnitems.get(v, (None, None))
            fn = self.fns.get(c.get("resolved") or c["path"]) if c and not c.get("ctor") else None
            if fn is None:
                return v
            return self.lam_of(v, [self.rt(fn.locals[i + 1][0], ts) for i in range(fn.argc)], st, [])
        if v.op == "rec" and str(v.a[0]).startswith("clo:"):
            fn = self.fns.get(v.a[0][4:])
            if fn is None:
                return self.deep(st, v)
            ts = self.clots.get(v.a[0], {})
            return self.lam_of(v, [self.rt(fn.locals[i + 1][0], ts) for i in range(1, fn.argc)], st,
                               [w for w in v.a[3] if w.op == "ptr"])
        if v.op == "rec":
            return rec(v.a[0], v.a[1], v.a[2], [self.lam(st, w, depth + 1) for w in v.a[3]])
        if v.op in ("list", "set", "mapof", "mm"):
            return v
        return self.deep(st, v)

    def lam_of(self, f, tys, st, caps):
        if len(self.stack) > 30:
            raise Unmodelled("deep function value")
        s = State(1, dict(st.mem))
        params, args, refs = [], [], []
        for t in tys:
            p = mk("ph", fresh())
            params.append(p)
            if t[0] == "ref" and t[1]:
                c = self.cell(s, p)
                refs.append(c)
                args.append(c)
            else:
                args.append(p)
        s.g = 1
        if self.world:
            s.mem[WORLD] = NIL
        r, s2 = self.call_value(f, args, s)
        if s2 is None:
            return close_lam(params, [mk("never")])
        body = [norm(self.deep(s2, r), s2.g), B(s2.g)]
        for c in refs:
            body.append(norm(s2.mem[c.a[0]], s2.g))
        for c in caps:
            body.append(norm(self.deep(s2, c), s2.g))
        for root, v in st.mem.items():
            if root != WORLD and root in s2.mem and s2.mem[root] is not v and root not in [c.a[0] for c in caps]:
                raise Unmodelled("function value with effects")
        caps_changed = [c for c in caps if s2.mem.get(c.a[0]) is not st.mem.get(c.a[0])]
        if not caps_changed and not refs:
            body = body[:2]
        if self.world and s2.mem[WORLD] is not NIL:
            self.lamfx += 1
            body.append(norm(self.deep(s2, s2.mem[WORLD]), s2.g))
        f = close_lam(params, body)
        for _ in range(3):
            # the canonical form depends on the atoms' order: settled once the parameters have their final names
            b = f.a[2]
            b2 = tuple(b[1] if i == 1 else canon(x, b[1].a[0]) for i, x in enumerate(b)) if b[1].a[0] > 1 else b
            if all(x is y for x, y in zip(b, b2)):
                break
            params, b2 = open_lam(mk("lam", f.a[0], f.a[1], b2))
            f = close_lam(params, b2)
        return f

    def branch(self, st, n, ft, ff):
        """Run ft under n, ff under not n; each returns (value, state)."""
        rets, sts = [], []
        for g, f in ((n, ft), (bnot(n), ff)):
            gg = band(st.g, g)
            if gg:
                r, s = f(State(gg, dict(st.mem)))
                if s is not None and s.g:
                    rets.append((s.g, r))
                    sts.append(s)
        m = merge(sts)
        if m is None:
            return None, None
        return mkcase([(brestrict(g, m.g), r) for g, r in rets]), m

    # ---------------------------------------------------------------- loops
    def alts(self, seq):
        """Alternatives of iterating a sequence: [(binders, guard, element)] in order."""
        out = []
        if seq.op == "case":
            for g, v in leaves(seq):
                out += [(b, And(B(g), gg), e, p) for b, gg, e, p in self.alts(v)]
            return out
        if seq.op == "ptr":
            raise Unmodelled("iterating a pointer")
        x = expand(seq, "one", 0)
        if x is None:
            m = fresh()
            return [([(seq, m)], TRUE, el(seq, m), pos(seq, m))]
        for bs, g, e, p in x:
            # expand binders further
            done = True
            for i, (s, n) in enumerate(bs):
                y = expand(s, "one", n)
                if y is not None and (i == 0 or len(y) == 1):
                    done = False
                    for nbs, ng, e2, p2 in y:
                        m = {el(s, n): e2, pos(s, n): p2 if p2 is not None else mk("posin", s, e2)}
                        sb = Subst(m)
                        rest = []
                        for s2, n2 in bs[i + 1:]:
                            s3 = sb(s2)
                            if s3 is not s2:
                                sb.m[el(s2, n2)] = el(s3, n2)
                                sb.m[pos(s2, n2)] = pos(s3, n2)
                                sb = Subst(sb.m)
                            rest.append((s3, n2))
                        out += self.realts(bs[:i] + nbs + rest, And(ng, sb(g)), sb(e), sb(p) if p is not None else None)
                    break
            if done:
                out.append((bs, g, e, p))
        return out

    def realts(self, bs, g, e, p):
        for i, (s, n) in enumerate(bs):
            y = expand(s, "one", n)
            if y is not None and (i == 0 or len(y) == 1):
                out = []
                for nbs, ng, e2, p2 in y:
                    m = {el(s, n): e2, pos(s, n): p2 if p2 is not None else mk("posin", s, e2)}
                    sb = Subst(m)
                    rest = []
                    for s2, n2 in bs[i + 1:]:
                        s3 = sb(s2)
                        if s3 is not s2:
                            sb.m[el(s2, n2)] = el(s3, n2)
                            sb.m[pos(s2, n2)] = pos(s3, n2)
                            sb = Subst(sb.m)
                        rest.append((s3, n2))
                    out += self.realts(bs[:i] + nbs + rest, And(ng, sb(g)), sb(e), sb(p) if p is not None else None)
                return out
        return [(bs, g, e, p)]

    def diff(self, v0, v1, path, out):
        """Leaf locations at which v1 differs from v0."""
        if v0 is v1:
            return
        if v1.op == "rec" and v1.a[2]:
            adt = v1.a[0]
            single = adt is None or str(adt).startswith("clo:") or len(variants(adt) or [1, 2]) == 1
            if v0.op == "rec" and v0.a[0] == adt and v0.a[1] == v1.a[1] and v0.a[2] == v1.a[2] and single \
                    or v0.op != "rec" and v0.op not in ("case", "uninit", "undef") and single:
                ar = len(v1.a[2])
                for n, w in zip(v1.a[2], v1.a[3]):
                    e = ("f", n, None if str(adt).startswith("clo:") else adt, v1.a[1] if adt and not str(adt).startswith("clo:") else ar)
                    self.diff(fld(v0, n), w, path + (e,), out)
                return
        if v0.op == "from" and v1.op == "from":
            self.diff(v0.a[0], v1.a[0], path + (("from",),), out)
            return
        if v0.op == "minsert" and v1.op == "minsert" and v0.a[0] is v1.a[0] and v0.a[1] is v1.a[1]:
            self.diff(v0.a[2], v1.a[2], path + (("k", v0.a[1]),), out)
            return
        if v0.op == "vset" and v1.op == "vset" and v0.a[0] is v1.a[0] and v0.a[1] is v1.a[1]:
            self.diff(v0.a[2], v1.a[2], path + (("i", v0.a[1]),), out)
            return
        if v0.op == "case" or v1.op == "case":
            # same outer shape under every guard?
            pass
        out.append(path)

    def discover(self, st0, body):
        """Find the locations a loop body changes.  body(state) -> (latch, exits)."""
        slots = []
        known = {}
        for _ in range(12):
            mem = dict(st0.mem)
            s = State(1, mem)
            for root, path, ph in slots:
                mem[root] = self.upd(mem[root], path, ph)
            start = dict(mem)
            latch, exits = body(s)
            if latch is None:
                return slots, start, None, exits
            new = []
            for root in start:
                if root not in latch.mem:
                    continue
                v1 = restrict_top(latch.mem[root], latch.g)
                ls = []
                self.diff(start[root], v1, (), ls)
                for p in ls:
                    if not any(r == root and p[:len(q)] == q for r, q, _ in slots):
                        new.append((root, p))
            if not new:
                return slots, start, latch, exits
            # drop slots under a coarser new one
            for root, p in new:
                slots = [x for x in slots if not (x[0] == root and x[1][:len(p)] == p)]
                slots.append((root, p, mk("ph", fresh())))
        raise Unmodelled("loop state does not stabilise")

    def val(self, mem, root, path):
        v = mem.get(root, UNINIT)
        for e in path:
            v = self.step_load(v, e)
        return v

    def stepv(self, mem, root, path, g):
        return norm(simp(restrict_top(self.val(mem, root, path), g), g), g)

    def prune(self, fr, b, st):
        cfg = fr.cfg
        live = cfg.live.get(b, set())
        mem = {}
        for r, v in st.mem.items():
            if r[0] == "L" and r[1] == fr.fid and r[2] not in live and r[2] not in cfg.taken:
                continue
            mem[r] = v
        return State(st.g, mem)

    def loop(self, fr, h, s0):
        nodes = fr.cfg.loops[h]
        base = self.prune(fr, h, s0)

        def body(st):
            ex = self.region(fr, h, nodes, st, h)
            l = merge([s for t, s in ex if t == "latch"])
            # leaving for a panic is no exit
            return l, [(t, s) for t, s in ex if t != "latch" and t not in fr.cfg.dead]

        slots, start, latch, exits = self.discover(base, body)
        if latch is None or latch.g == 0:
            return body(base)[1]
        # ---- iteration over a sequence
        for root, path, ph in slots:
            step = self.val(latch.mem, root, path)
            step = norm(simp(restrict_top(step, latch.g), latch.g), latch.g)
            fwd = slice_(ph, Int(1), len_(ph))
            bwd = slice_(ph, Int(0), sub(len_(ph), Int(1)))
            if step not in (fwd, bwd) or not bimp(latch.g, nonempty(ph).a[0]):
                continue
            init = self.val(base.mem, root, path)
            if init.op in ("uninit", "undef"):
                continue
            back = step is bwd
            try:
                return self.iter_over(fr, base, body, root, path, init, back)
            except NeedMu:
                break
        # ---- counting loop
        for root, path, ph in slots:
            step = self.stepv(latch.mem, root, path, latch.g)
            if step is not add(ph, Int(1)):
                continue
            bound = self.counter_bound(ph, latch.g, [p for _, _, p in slots])
            if bound is None:
                continue
            init = self.val(base.mem, root, path)
            try:
                return self.count_over(fr, base, body, root, path, init, bound)
            except NeedMu:
                break
        return self.mu_loop(fr, base, body, slots, start, latch, exits)

    def counter_bound(self, ph, g, phs):
        for at in atoms_of(g):
            if at.op == "ge0":
                c, d = lin_parts(at.a[0])
                k = d.get(ph)
                if k is None:
                    continue
                n = var_node(at)
                if k == -1 and bimp(g, n):
                    # bound - ph - 1 >= 0
                    b = add(at.a[0], add(ph, Int(1)))
                elif k == 1 and bimp(g, bnot(n)):
                    # not (ph - bound >= 0)
                    b = scale(sub(at.a[0], ph), -1)
                else:
                    continue
                if not (fv(b) & frozenset(x for p in phs for x in fv(p))):
                    return b
            elif at.op == "eq0":
                c, d = lin_parts(at.a[0])
                k = d.get(ph)
                if k in (1, -1) and bimp(g, bnot(var_node(at))):
                    b = add(at.a[0], ph) if k == -1 else scale(sub(at.a[0], ph), -1)
                    if not (fv(b) & frozenset(x for p in phs for x in fv(p))):
                        return b
        return None

    def iter_over(self, fr, base, body, root, path, init, back):
        seq = init
        if back:
            seq = rev_(init)
        rest = mk("ph", fresh())
        one = lambda e: mk("cmp", (), TRUE, "one", e)
        alts = self.alts(seq)
        where = {e: p for _, _, e, p in alts} if self.exact_rest and not back else {}

        def elbody(st, e):
            st = st.copy()
            # what is left of the iterator: unknown, or exactly the elements after this one
            r = slice_(seq, add(where[e], Int(1)), len_(seq)) if where.get(e) is not None else rest
            sy = mk("cmp", (), TRUE, "syml", r)
            st.mem[root] = self.upd(st.mem[root], path, mklist([sy, one(e)] if back else [one(e), sy]))
            l, ex = body(st)
            if l is not None and l.g:
                got = self.stepv(l.mem, root, path, l.g)
                if got is not r:
                    raise NeedMu()
                l = l.copy()
                l.mem[root] = self.upd(l.mem[root], path, NIL)
            return l, ex

        st = base.copy()
        st.mem[root] = self.upd(st.mem[root], path, NIL)
        fin, exits = self.run_alts(st, alts, elbody)
        n = rest.a[0]
        for t, s in exits + ([(None, fin)] if fin is not None else []):
            if any(n in fv(a) for a in atoms_of(s.g)):
                raise Leak()
            self.forget(s, rest)
        out = list(exits)
        if fin is not None and fin.g:
            fin = fin.copy()
            fin.mem[root] = self.upd(fin.mem[root], path, NIL)
            l, ex = body(fin)
            if l is not None and l.g:
                raise NeedMu()
            out += ex
        return out

    def forget(self, s, ph):
        """Values that mention the unknown rest of an abandoned iterator are unknown."""
        n = ph.a[0]
        for r, v in list(s.mem.items()):
            if n in fv(v):
                s.mem[r] = subst(v, {ph: mk("rest")})

    def count_over(self, fr, base, body, root, path, init, bound):
        seq = mk("range", init, bound)

        def elbody(st, e):
            st = st.copy()
            st.mem[root] = self.upd(st.mem[root], path, e)
            l, ex = body(st)
            if l is not None and l.g:
                got = self.stepv(l.mem, root, path, l.g)
                if got is not add(e, Int(1)):
                    raise NeedMu()
                l = l.copy()
                l.mem[root] = self.upd(l.mem[root], path, init)
            return l, ex

        fin, exits = self.iter_loop(base, seq, elbody)
        out = list(exits)
        if fin is not None and fin.g:
            fin = fin.copy()
            ok = le(init, bound).a[0]
            v = mkcase([(ok, bound), (bnot(ok), init)])
            fin.mem[root] = self.upd(fin.mem[root], path, v)
            l, ex = body(fin)
            if l is not None and l.g:
                raise NeedMu()
            out += ex
        return out

    def iter_loop(self, st, seq, body):
        """Run body(state, element) for every element. -> (final state or None, exits)"""
        return self.run_alts(st, self.alts(seq), body)

    def run_alts(self, st, alts, body):
        cur, outs = st, []
        for bs, gg, e, p in alts:
            if cur is None or cur.g == 0:
                break
            if not bs:
                n = gg.a[0]
                s1 = State(band(cur.g, n), dict(cur.mem))
                s0 = State(band(cur.g, bnot(n)), cur.mem)
                l = None
                if s1.g:
                    l, ex = body(s1, e)
                    outs += ex
                    if l is not None:
                        l = State(l.g, {r: v for r, v in l.mem.items() if r in cur.mem})
                cur = merge([l, s0])
            else:
                cur, ex = self.sym_loop(cur, bs, gg, e, body)
                outs += ex
        return cur, outs

    def sym_loop(self, cur, bs, gg, e, body):
        if len(bs) > 1:
            if any(len(expand(s, "one", 0) or ()) > 1 for s, _ in bs[1:]):
                return self.nested(cur, bs, gg, e, body)
            try:
                return self.flat_loop(cur, bs, gg, e, body, True)
            except Nest:
                return self.nested(cur, bs, gg, e, body)
        return self.flat_loop(cur, bs, gg, e, body, False)

    def nested(self, cur, bs, gg, e, body):
        """A loop over a flattened sequence as a loop over its parts."""
        def outer(st, _):
            return self.run_alts(st, self.realts(bs[1:], gg, e, None), body)

        return self.flat_loop(cur, bs[:1], TRUE, el(*bs[0]), outer, False)

    def flat_loop(self, cur, bs, gg, e, body, nest):
        slots, start, latch, exits = self.discover(cur, lambda s: body(s, e))
        exits = [(t, s) for t, s in exits if s is not None and s.g]
        lg = latch.g if latch is not None else 0
        eg = 0
        for _, s in exits:
            eg = bor(eg, s.g)
        pg = bnot(bor(lg, eg))
        phs = frozenset(x for _, _, p in slots for x in fv(p))
        if exits:
            if slots:
                return self.exit_loop(cur, bs, gg, e, body, slots, latch, exits)
            return self.search(cur, bs, gg, latch, exits, pg)
        if latch is None:
            # every element panics
            n = any_close(bs, gg).a[0]
            return State(band(cur.g, bnot(n)), cur.mem), []
        # refine map/vector slots that are only touched at one invariant key
        for i, (root, path, ph) in enumerate(slots):
            step = self.stepv(latch.mem, root, path, lg)
            k = invariant_key(step, ph, bs, phs)
            if k is None:
                continue
            init = self.val(cur.mem, root, path)
            kind, key = k
            if kind == "k" and not bimp(cur.g, has(init, key).a[0]):
                continue
            c2 = cur.copy()
            iv = get(init, key) if kind == "k" else index(init, key)
            raw = minsert.raw if kind == "k" else vset.raw
            c2.mem[root] = self.upd(c2.mem[root], path, mk("minsert" if kind == "k" else "vset", init, key, mk("pin", iv)))
            return self.pinned(c2, bs, gg, e, body, root, path, kind, key, nest)
        steps = [self.stepv(latch.mem, r, p, lg) for r, p, _ in slots]
        inits = [self.val(cur.mem, r, p) for r, p, _ in slots]
        fins, n = self.close_slots(cur.g, bs, gg, [p for _, _, p in slots], steps, inits, pg, nest)
        out = cur.copy()
        for (root, path, _), f in zip(slots, fins):
            out.mem[root] = self.upd(out.mem[root], path, f)
        out.g = band(out.g, n)
        return out, []

    def pinned(self, cur, bs, gg, e, body, root, path, kind, key, nest):
        """A collection touched only at one key: track that entry alone."""
        ph0 = mk("ph", fresh())
        holder = self.val(cur.mem, root, path)
        init = holder.a[2].a[0]
        coll = holder.a[0]
        slots = [(root, path + ((kind, key),), ph0)]
        op = holder.op
        c2 = cur.copy()
        c2.mem[root] = self.upd(c2.mem[root], path, mk(op, coll, key, init))
        for _ in range(12):
            s = State(1, dict(c2.mem))
            for r, p, ph in slots:
                if r == root and p[:len(path) + 1] == path + ((kind, key),) and len(p) == len(path) + 1:
                    s.mem[r] = self.upd(s.mem[r], path, mk(op, coll, key, ph))
                else:
                    s.mem[r] = self.upd(s.mem[r], p, ph)
            start = dict(s.mem)
            latch, exits = body(s, e)
            exits = [(t, x) for t, x in exits if x is not None and x.g]
            if exits or latch is None:
                raise NeedMu()
            new = []
            for r in start:
                if r in latch.mem:
                    ls = []
                    self.diff(start[r], restrict_top(latch.mem[r], latch.g), (), ls)
                    for p in ls:
                        if not any(r == r2 and p[:len(q)] == q for r2, q, _ in slots):
                            new.append((r, p))
            if not new:
                break
            for r, p in new:
                if r == root and path[:len(p)] == p:
                    raise NeedMu()
                slots.append((r, p, mk("ph", fresh())))
        lg = latch.g
        steps, inits = [], []
        for r, p, ph in slots:
            if p == path + ((kind, key),) and r == root:
                v = self.stepv(latch.mem, root, path, lg)
                if v.op != op or v.a[0] is not coll or v.a[1] is not key:
                    steps.append(ph) if v is mk(op, coll, key, ph) else self.fail()
                else:
                    steps.append(v.a[2])
                inits.append(init)
            else:
                steps.append(self.stepv(latch.mem, r, p, lg))
                inits.append(self.val(c2.mem, r, p))
        fins, n = self.close_slots(cur.g, bs, gg, [p for _, _, p in slots], steps, inits, bnot(lg), nest)
        out = c2.copy()
        for (r, p, _), f in zip(slots, fins):
            if p == path + ((kind, key),) and r == root:
                out.mem[r] = self.upd(out.mem[r], path, (minsert if kind == "k" else vset)(coll, key, f))
            else:
                out.mem[r] = self.upd(out.mem[r], p, f)
        out.g = band(out.g, n)
        return out, []

    def fail(self):
        raise NeedMu()

    def search(self, cur, bs, gg, latch, exits, pg):
        """Leave at the first element that satisfies the exit condition; nothing else changes."""
        eg = pg
        for _, s in exits:
            eg = bor(eg, s.g)
        stop = And(gg, B(eg))
        found = any_close(bs, stop).a[0]
        outs = []
        m = {}
        for s, n in bs:
            m[el(s, n)] = index(mklist(close(bs, stop, "one", el(s, n))), Int(0))
            m[pos(s, n)] = index(mklist(close(bs, stop, "one", pos(s, n))), Int(0))
        m = {k: norm(simp(v, found), found) if v.op == "case" else v for k, v in m.items()}
        sb = Subst(m)
        mine = frozenset(n for _, n in bs)
        tags = {}
        for t, s in exits:
            tags.setdefault(t, []).append(s)
        for t, ss in tags.items():
            s = merge(ss)
            mem = {r: (sb(v) if fv(v) & mine else v) for r, v in s.mem.items()}
            g = band(cur.g, found)
            if len(tags) > 1 or pg:
                g = band(g, sb(B(brestrict(s.g, eg))).a[0])
            else:
                for r, v in mem.items():
                    pass
            st = State(g, mem)
            # values chosen by guards that hold at the first hit
            outs.append((t, st))
        fin = State(band(cur.g, bnot(found)), cur.mem)
        return fin, outs

    def exit_loop(self, cur, bs, gg, e, body, slots, latch, exits):
        """Leave at the first element that satisfies a condition on the elements alone."""
        phs = [p for _, _, p in slots]
        mine = frozenset(x for p in phs for x in fv(p))
        eg = 0
        for _, s in exits:
            eg = bor(eg, s.g)
        if len(bs) != 1 or latch is None or latch.g == 0 or fv(B(eg)) & mine:
            raise NeedMu()
        s, n = bs[0]
        stop = And(gg, B(eg))
        found = any_close(bs, stop).a[0]
        if found == 0:
            raise NeedMu()
        go = bnot(eg)
        pg = norm(B(band(bnot(latch.g), go)), go).a[0]
        steps = [norm(self.stepv(latch.mem, r, p, latch.g), go) for r, p, _ in slots]
        inits = [self.val(cur.mem, r, p) for r, p, _ in slots]
        m = {el(s, n): index(mklist(close(bs, stop, "one", el(s, n))), Int(0)),
             pos(s, n): index(mklist(close(bs, stop, "one", pos(s, n))), Int(0))}
        m = {k: norm(simp(v, found), found) if v.op == "case" else v for k, v in m.items()}
        # all elements, when none stops the loop
        fins, ok = self.close_slots(band(cur.g, bnot(found)), bs, gg, phs, steps, inits, pg, False)
        fin = State(band(band(cur.g, bnot(found)), ok), dict(cur.mem))
        for (r, p, _), f in zip(slots, fins):
            fin.mem[r] = self.upd(fin.mem[r], p, f)
        # those before the first that does
        pre = slice_(s, Int(0), m[pos(s, n)])
        k = fresh()
        if pre.op not in ("slice", "range"):
            raise NeedMu()
        ren = Subst({el(s, n): el(pre, k), pos(s, n): pos(pre, k)})
        fins, ok = self.close_slots(cur.g, [(pre, k)], ren(gg), phs, [ren(x) for x in steps], inits, ren(B(pg)).a[0], False)
        sb = Subst({**m, **dict(zip(phs, fins))})
        bound = mine | {n}
        tags = {}
        for t, x in exits:
            tags.setdefault(t, []).append(x)
        outs = []
        for t, ss in tags.items():
            x = merge(ss)
            mem = {r: (sb(v) if fv(v) & bound else v) for r, v in x.mem.items()}
            g = band(band(cur.g, found), ok)
            if len(tags) > 1:
                g = band(g, sb(B(brestrict(x.g, eg))).a[0])
            outs.append((t, State(g, mem)))
        return fin, outs

    # ---- closing
    def close_slots(self, g0, bs, gg, phs, steps, inits, pg, nest):
        """Final values of the slots after running over all binders. -> (values, guard of no panic)"""
        n = len(phs)
        fins = [None] * n
        if g0 != 1:
            inits = [simp(x, g0) for x in inits]
            if pg:
                pg = norm_atoms(pg, g0)
        mine = frozenset(x for p in phs for x in fv(p))
        steps, pg = self.invariants(g0, bs, phs, list(steps), inits, pg)
        ident = {}
        # counters run in step with a single binder
        if len(bs) == 1 and gg is TRUE:
            for i in range(n):
                d = sub(steps[i], phs[i]) if steps[i].op in ("lin", "int") or steps[i] is phs[i] else None
                if d is not None and d.op == "int" and d.a[0] and phs[i] is not steps[i]:
                    ident[phs[i]] = add(inits[i], scale(pos(*bs[0]), d.a[0]))
                    fins[i] = add(inits[i], scale(len_(bs[0][0]), d.a[0]))
        for i in range(n):
            if steps[i] is phs[i]:
                ident[phs[i]] = inits[i]
                fins[i] = inits[i]
        if ident:
            sb = Subst(ident)
            steps = [sb(s) if fins[i] is None else s for i, s in enumerate(steps)]
            pg = sb(B(pg)).a[0]
        # a vector rewritten in place: a round sees its own element as it was
        own = {}
        for i in range(n):
            if fins[i] is None and self.pointwise(bs, phs[i], steps[i], inits[i]):
                q, b = bs[0]
                own[index(phs[i], pos(q, b))] = el(q, b) if q is inits[i] else index(inits[i], pos(q, b))
                own[mk("len", phs[i])] = len_(inits[i])
        if own:
            sb = Subst(own)
            pg = sb(B(pg)).a[0]
            steps = [s if fv(s) & mine <= fv(phs[i]) else sb(s) for i, s in enumerate(steps)]
        nopanic = 1
        todo = [i for i in range(n) if fins[i] is None]
        # a map from the position of the round: the list of what the rounds put there
        numbered = {}
        if len(bs) == 1 and gg is TRUE:
            at = pos(*bs[0])
            for i in todo:
                ls = list(leaves(steps[i]))
                if not all(v.op == "minsert" and v.a[0] is phs[i] and v.a[1] is at for _, v in ls):
                    continue
                x = mkcase([(g, v.a[2]) for g, v in ls])
                use = fv(phs[i])
                if not fv(x) & (mine - use) or fv(x) & use or fv(B(pg)) & use \
                        or any(fv(y) & use for j, y in enumerate(steps) if j != i):
                    continue
                numbered[i] = inits[i]
                inits = list(inits)
                inits[i] = NIL
                steps[i] = mklist([mk("cmp", (), TRUE, "syml", phs[i]), mk("cmp", (), TRUE, "one", x)])
        fold = []
        injk = {}
        for i in todo:
            deps = fv(steps[i]) & mine
            own = fv(phs[i])
            if not deps:
                ne = any_close(bs, gg).a[0]
                lastv = self.last(bs, gg, steps[i])
                fins[i] = mkcase([(ne, lastv), (bnot(ne), inits[i])])
            elif deps == own:
                fins[i] = self.close_one(g0, bs, gg, phs[i], steps[i], inits[i])
            if fins[i] is None:
                fold.append(i)
        pdeps = fv(B(pg)) & mine if pg else frozenset()
        if nest and (fold or pdeps):
            raise Nest()
        if fold:
            # slots a fold depends on join it
            for i in fold:
                group = self.depgroup(i, phs, steps, mine)
                fins[i] = self.make_fold(bs, gg, [phs[j] for j in group], [steps[j] for j in group],
                                         [inits[j] for j in group], group.index(i))
        for i, m0 in numbered.items():
            k = fresh()
            fins[i] = mapof(m0, close([(fins[i], k)], TRUE, "kv", tup(pos(fins[i], k), el(fins[i], k))))
        if pg:
            if not pdeps:
                nopanic = bnot(any_close(bs, And(gg, B(pg))).a[0])
            else:
                group = []
                for j in range(n):
                    if fv(phs[j]) & pdeps:
                        for q in self.depgroup(j, phs, steps, mine):
                            if q not in group:
                                group.append(q)
                okp = mk("ph", fresh())
                step = And(tobool(okp), B(bnot(pg)))
                f = self.make_fold(bs, gg, [okp] + [phs[j] for j in group], [step] + [steps[j] for j in group],
                                   [TRUE] + [inits[j] for j in group], 0)
                nopanic = tobool(f).a[0]
        return fins, nopanic

    def invariants(self, g0, bs, phs, steps, inits, pg):
        """What holds in every round: a list that is only appended to keeps what it held, and where a map
        hands out the numbers of the elements of a list, none is beyond its end."""
        mine = frozenset(x for p in phs for x in fv(p)) | frozenset(n for _, n in bs)
        grows = []
        for p, s, v in zip(phs, steps, inits):
            if s is not p and all(x is p or x.op == "list" and x.a and x.a[0].a[2] == "syml" and not x.a[0].a[0]
                                  and x.a[0].a[1] is TRUE and x.a[0].a[3] is p for _, x in leaves(s)):
                grows.append((p, s, v))
        maps = [(p, v) for p, s, v in zip(phs, steps, inits)
                if s is not p and all(inserted(x, p) for _, x in leaves(s)) and any(x is not p for _, x in leaves(s))]
        if not grows and not maps:
            return steps, pg
        m = {}
        ks = kids_deep(B(pg), *steps)
        slots = frozenset(x for p in phs for x in fv(p))
        for p, v in maps:
            # what was a key stays one
            for t in ks:
                if t.op == "has" and t.a[0] is p and not fv(t.a[1]) & slots and bimp(g0, has(v, t.a[1]).a[0]):
                    m[t] = TRUE
        for p, _, v in grows:
            lp = mk("len", p)
            for t in ks:
                if t.op == "index" and t.a[0] is p and not fv(t.a[1]) & mine \
                        and bimp(g0, ge0(sub(sub(len_(v), t.a[1]), Int(1))).a[0]):
                    m[t] = index(v, t.a[1])
                elif t.op == "ge0":
                    c, d = lin_parts(t.a[0])
                    if d.get(lp, 0) > 0:
                        r = sub(t.a[0], scale(lp, d[lp]))
                        if not fv(r) & mine and bimp(g0, ge0(add(r, scale(len_(v), d[lp]))).a[0]):
                            m[t] = TRUE
                    elif d.get(lp, 0) < 0:
                        r = sub(t.a[0], scale(lp, d[lp]))
                        if not fv(r) & mine and bimp(g0, bnot(ge0(add(r, scale(len_(v), d[lp]))).a[0])):
                            m[t] = FALSE
        for q, sq, vq in zip(phs, steps, inits):
            if vq.op != "mempty":
                continue
            for p, sp, _ in grows:
                lp = mk("len", p)
                # a number handed out is the length just before an element is added
                put = 0
                ok = True
                for g, x in leaves(sq):
                    if x is q:
                        continue
                    if x.op == "minsert" and x.a[0] is q and x.a[2] is lp:
                        put = bor(put, g)
                    else:
                        ok = False
                grown = 0
                for g, x in leaves(sp):
                    for y in x.a[1:] if x is not p else ():
                        if y.a[2] == "one" and not y.a[0]:
                            grown = bor(grown, band(g, y.a[1].a[0]))
                if not ok or not put:
                    continue
                n = {}
                for t in ks:
                    if t.op == "eq0":
                        c, d = lin_parts(t.a[0])
                        if c == 0 and len(d) == 2 and sorted(d.values()) == [-1, 1] and lp in d:
                            u = next(x for x in d if x is not lp)
                            if u.op == "get" and u.a[0] is q:
                                n[t] = FALSE
                if n and self.atoms_out(band(put, bnot(grown)), n) == 0:
                    m.update(n)
        if not m:
            return steps, pg
        sb = Subst(m)
        return [sb(s) for s in steps], sb(B(pg)).a[0]

    def atoms_out(self, n, m):
        return Subst(m)(B(n)).a[0]

    def pointwise(self, bs, ph, step, init):
        if len(bs) != 1:
            return False
        s, n = bs[0]
        if s is not init and len_(s) is not len_(init):
            return False
        return all(v is ph or v.op == "vset" and v.a[0] is ph and v.a[1] is pos(s, n) for _, v in leaves(step)) \
            and any(v is not ph for _, v in leaves(step))

    def depgroup(self, i, phs, steps, mine):
        idx = {}
        for j, p in enumerate(phs):
            for x in fv(p):
                idx[x] = j
        seen, st = [i], [i]
        while st:
            j = st.pop()
            for x in sorted(fv(steps[j]) & mine):
                k = idx[x]
                if k not in seen:
                    seen.append(k)
                    st.append(k)
        return seen

    def last(self, bs, gg, v):
        if not any(n in fv(v) for _, n in bs):
            return v
        m = {}
        for s, n in bs:
            for f in (el, pos):
                L = mklist(close(bs, gg, "one", f(s, n)))
                m[f(s, n)] = index(L, sub(len_(L), Int(1)))
        return subst(v, m)

    def close_one(self, g0, bs, gg, ph, step, init):
        mine = fv(ph)
        # boolean accumulators
        if step.op == "b":
            n = step.a[0]
            v = TT._avar.get(ph)
            if v is not None:
                hi, lo = TT._cof(n, v, 1), TT._cof(n, v, 0)
                if not (fv(B(hi)) & mine) and not (fv(B(lo)) & mine):
                    if hi == 1:
                        return Or(tobool(init), any_close(bs, And(gg, B(lo))))
                    if lo == 0:
                        return And(tobool(init), Not(any_close(bs, And(gg, B(bnot(hi))))))
            return None
        # conditional counters
        if step.op == "case" and all(v is ph or v.op == "lin" for _, v in leaves(step)):
            d = {}
            for g, v in leaves(step):
                k = sub(v, ph)
                if k.op != "int":
                    d = None
                    break
                d[k.a[0]] = bor(d.get(k.a[0], 0), g)
            if d and all(not (fv(B(g)) & mine) for k, g in d.items()):
                r = init
                for k, g in sorted(d.items()):
                    if k:
                        r = add(r, scale(len_(mklist(close(bs, And(gg, B(g)), "one", UNIT))), k))
                return r
        if step.op == "lin" and sub(step, ph).op == "int":
            return add(init, scale(len_(mklist(close(bs, gg, "one", UNIT))), sub(step, ph).a[0]))
        # one element less per round
        for less in (slice_(ph, Int(0), sub(len_(ph), Int(1))), slice_(ph, Int(1), len_(ph))):
            ne = nonempty(ph).a[0]
            if step.op in ("case", "slice", "list") and norm(step, ne) is less and norm(step, bnot(ne)) in (ph, NIL, less):
                cnt = len_(mklist(close(bs, gg, "one", UNIT)))
                full = ge0(sub(len_(init), cnt)).a[0]
                rest = slice_(init, Int(0), sub(len_(init), cnt)) if less.a[1] is Int(0) else slice_(init, cnt, len_(init))
                return mkcase([(full, rest), (bnot(full), NIL)])
        me_sym = mk("cmp", (), TRUE, "sym", ph)
        me_syml = mk("cmp", (), TRUE, "syml", ph)
        if step.op == "set" and me_sym in step.a:
            rest = [p for p in step.a if p is not me_sym]
            if not any(fv(p) & mine for p in rest):
                ps = parts_under(init)
                for p in rest:
                    b2, g2, k, t = open_cmp(p)
                    ps = ps + close(bs + b2, And(gg, g2), k, t)
                return mkset(ps)
            return None
        if step.op == "list" and step.a and step.a[0] is me_syml:
            rest = step.a[1:]
            if not any(fv(p) & mine for p in rest):
                if len(rest) == 1 or len(bs) == 0:
                    segs = list(list_segs(init)) if init.op != "case" else [mk("cmp", (), TRUE, "syml", init)]
                    for p in rest:
                        b2, g2, k, t = open_cmp(p)
                        segs += close(bs + b2, And(gg, g2), k, t)
                    return mklist(segs)
                # several elements per round
                inner = mklist(rest)
                segs = list(list_segs(init)) if init.op != "case" else [mk("cmp", (), TRUE, "syml", init)]
                segs += close(bs, gg, "syml", inner)
                return mklist(segs)
            return None
        # maps
        if all(v is ph or v.op == "mm" and v.a[0] is ph for _, v in leaves(step)):
            if not any(fv(B(g)) & mine for g, _ in leaves(step)) and \
                    not any(fv(p) & mine for _, v in leaves(step) if v is not ph for p in v.a[1]):
                ps = []
                for g, v in leaves(step):
                    for p in v.a[1] if v is not ph else ():
                        b2, g2, k, t = open_cmp(p)
                        ps += close(bs + b2, And(And(gg, B(g)), g2), "mm", t)
                return mm(init, ps)
            return None
        r = self.close_map(bs, gg, ph, step, init)
        if r is not None:
            return r
        return self.close_pointwise(bs, gg, ph, step, init)

    def close_map(self, bs, gg, ph, step, init):
        mine = fv(ph)
        parts = []
        for g, v in leaves(step):
            chain = []
            w = v
            while w.op == "minsert":
                chain.append((w.a[1], w.a[2]))
                w = w.a[0]
            if w.op == "mapof" and not chain and w.a[0] is ph:
                chain = None
                if fv(B(g)) & mine or any(fv(p) & mine for p in w.a[1]):
                    return None
                for p in w.a[1]:
                    b2, g2, k, t = open_cmp(p)
                    parts += close(bs + b2, And(And(gg, B(g)), g2), "kv", t)
                continue
            if w is not ph:
                return None
            for k, x in reversed(chain):
                if fv(k) & mine:
                    return None
                sb = None
                if fv(x) & mine or fv(B(g)) & mine:
                    if not injective(k, bs):
                        return None
                    sb = Subst({get(ph, k): get(init, k), has(ph, k): has(init, k)})
                    x2 = sb(x)
                    g2 = sb(B(g))
                    if fv(x2) & mine or fv(g2) & mine:
                        return None
                else:
                    x2, g2 = x, B(g)
                parts += close(bs, And(gg, g2), "kv", tup(k, x2))
        if not parts:
            return None
        # every entry of the map rewritten in place
        if len(bs) == 1 and bs[0][0] is keys(init) and all(len(p.a[0]) == 1 and p.a[0][0][0] is bs[0][0] for p in parts):
            pass
        return mapof(init, parts)

    def close_pointwise(self, bs, gg, ph, step, init):
        mine = fv(ph)
        s, n = bs[0] if bs else (None, None)
        if not bs:
            return None
        i = None
        for g, v in leaves(step):
            if v is ph:
                continue
            if v.op != "vset" or v.a[0] is not ph:
                return None
            if i is None:
                i = v.a[1]
            elif i is not v.a[1]:
                return None
        if i is None or i is not pos(s, n):
            return None
        if s is not init:
            # iterating another sequence of the same length
            if len_(s) is not len_(init):
                return None
        cur_el = el(init, n) if s is init else index(init, i)
        if len(bs) > 1:
            # the rounds of the inner binders work on one element
            cell = mk("ph", fresh())
            sb = Subst({index(ph, i): cell, mk("len", ph): len_(init)})
            st2 = mkcase([(sb(B(g)).a[0], cell if v is ph else sb(v.a[2])) for g, v in leaves(step)])
            if fv(st2) & mine or fv(gg) & mine:
                return None
            r = self.close_one(1, bs[1:], gg, cell, st2, cur_el)
            if r is None or fv(r) & (mine | fv(cell)):
                return None
            return mklist(close(bs[:1], TRUE, "one", r))
        sb = Subst({index(ph, i): cur_el, mk("len", ph): len_(init)})
        alts = []
        for g, v in leaves(step):
            x = cur_el if v is ph else v.a[2]
            x2, g2 = sb(x), sb(B(g))
            if fv(x2) & mine or fv(g2) & mine:
                return None
            alts.append((g2.a[0], x2))
        x = mkcase(alts)
        if gg is not TRUE:
            x = mkcase([(gg.a[0], x), (bnot(gg.a[0]), cur_el)])
        return mklist(close(bs, TRUE, "one", x))

    def make_fold(self, bs, gg, phs, steps, inits, which):
        order = canon_order(phs, steps, inits)
        phs2 = [phs[i] for i in order]
        st = mk("steps", *[steps[i] for i in order])
        cs = close(bs, gg, "step", st)
        if len(cs) == 0:
            return inits[which]
        if len(cs) != 1:
            raise Unmodelled("fold over a structured sequence")
        return close_fold(cs[0], phs2, [inits[i] for i in order], order.index(which))

    def mu_loop(self, fr, base, body, slots, start, latch, exits):
        """Any other loop: a least fixpoint over its slots."""
        phs = [p for _, _, p in slots]
        mine = frozenset(x for p in phs for x in fv(p))
        eg = 0
        for _, s in exits:
            eg = bor(eg, s.g)
        tot = bor(latch.g, eg)
        C = brestrict(latch.g, tot)
        steps = [self.stepv(latch.mem, r, p, latch.g) for r, p, _ in slots]
        inits = [self.val(base.mem, r, p) for r, p, _ in slots]
        if self.world and not exits and any(r == WORLD for r, _, _ in slots):
            # a loop without an end: one round of it
            w = [r for r, _, _ in slots].index(WORLD)
            group = self.depgroup(w, phs, steps, mine)
            gp = [phs[j] for j in group]
            seq = [group[k] for k in canon_order(gp, [steps[j] for j in group], [inits[j] for j in group], B(latch.g))]
            self.endless.append((base.g, tup(*([inits[j] for j in seq] +
                                               [close_lam([phs[j] for j in seq], [steps[j] for j in seq] + [B(latch.g)])]))))
        safe = tot
        okp = None
        if safe != 1:
            # a round that panics ends everything
            okp = mk("ph", fresh())
            phs = phs + [okp]
            steps.append(And(atom(okp), B(safe)))
            inits.append(TRUE)
            mine |= fv(okp)
        # a slot that is always the same function of another one
        tied = {}
        for i in range(len(slots)):
            back = {}
            for j in range(len(phs)):
                if j != i and j not in tied and steps[j].op == "ph" and steps[j] in phs:
                    back.setdefault(steps[j], phs[j])
            use = frozenset(x for p in back for x in fv(p))
            if i in tied or not back or steps[i].op == "ph" or not fv(steps[i]) & mine or not fv(steps[i]) & mine <= use:
                continue
            G = Subst(back)(steps[i])
            if fv(G) & fv(phs[i]) or Subst(dict(zip(phs, inits)))(G) is not inits[i]:
                continue
            tied[i] = G
            sb = Subst({phs[i]: G})
            steps = [sb(x) for x in steps]
            C = sb(B(C)).a[0]
            tied = {k: sb(v) for k, v in tied.items()}
        # a round looking ahead at the next one's panic: at its own, then, and at the last state's
        ahead = None if okp is None else self.ahead(base.g, C, phs, steps, inits)
        if ahead is not None:
            steps[-1] = And(atom(okp), ahead)
        cdeps = [i for i, p in enumerate(phs) if fv(p) & fv(B(C))]
        fins = []
        for i in range(len(phs)):
            if i in tied:
                fins.append(None)
                continue
            group = []
            for j in [i] + cdeps:
                for q in self.depgroup(j, phs, steps, mine):
                    if q not in group:
                        group.append(q)
            gp = [phs[j] for j in group]
            order = canon_order(gp, [steps[j] for j in group], [inits[j] for j in group], B(C))
            seq = [group[k] for k in order]
            fins.append(close_mu([phs[j] for j in seq], (B(C),) + tuple(steps[j] for j in seq),
                                   [inits[j] for j in seq], seq.index(i)))
        if tied:
            sb = Subst({p: f for p, f in zip(phs, fins) if f is not None})
            fins = [sb(tied[i]) if f is None else f for i, f in enumerate(fins)]
        st = State(1, dict(base.mem))
        for (root, path, _), f in zip(slots, fins):
            st.mem[root] = self.upd(st.mem[root], path, f)
        Cf = subst(B(C), dict(zip(phs, fins))).a[0]
        okf = 1 if okp is None else tobool(fins[-1]).a[0]
        bg = base.g
        if ahead is not None:
            okf = band(okf, Subst(dict(zip(phs, fins)))(ahead).a[0])
            bg = bconstrain(bg, Subst(dict(zip(phs, inits)))(ahead).a[0])
        l, ex = body(st)
        out = []
        for t, s in ex:
            s = s.copy()
            s.g = band(band(bg, okf), brestrict(s.g, bnot(Cf)))
            out.append((t, self.settled(s, bnot(Cf))))
        return out

    def ahead(self, g, C, phs, steps, inits):
        """What holds of the first state and is asked of every next one by the last slot, as a guard of a state."""
        if g < 2 or C < 2:
            return None
        back = {v: p for p, v in zip(phs, inits) if v.op not in ("int", "b", "str", "mempty", "uninit", "undef") and kids_t((v,))}
        if not back:
            return None
        lits = []
        sb = Subst(back)
        for at in atoms_of(g):
            v = var_node(at)
            n = v if bimp(g, v) else bnot(v) if bimp(g, bnot(v)) else None
            if n is not None:
                x = sb(B(n))
                if x.a[0] > 1 and x.a[0] != n:
                    lits.append(x.a[0])
        if not lits or len(lits) > 6:
            return None
        want = band(C, Subst({phs[-1]: TRUE})(steps[-1]).a[0])
        nxt = Subst(dict(zip(phs, steps)))
        al = 1
        for n in lits:
            al = band(al, n)
        for n in lits + [al]:
            if band(C, nxt(B(n)).a[0]) == want and want != C:
                return B(n)
        return None

    def settled(self, s, g):
        """A loop left because a value is equal to what it would become: one is as good as the other."""
        m = {}
        for at in atoms_of(g):
            if at.op == "eq" and bimp(g, var_node(at)):
                x, y = at.a
                if x in kids_deep(y):
                    m[y] = x
                elif y in kids_deep(x):
                    m[x] = y
        if m:
            sb = Subst(m)
            for r, v in s.mem.items():
                s.mem[r] = sb(v)
        return s

    # comprehension by running a function per element
    def comp(self, st, seq, f):
        """f(state, element) -> (list of elements as a list value, state); -> (list value, state)"""
        st = st.copy()
        acc = self.cell(st, NIL)

        def body(s, e):
            r, s2 = f(s, e)
            if s2 is None:
                return None, []
            s2 = s2.copy()
            s2.mem[acc.a[0]] = concat(s2.mem[acc.a[0]], r)
            return s2, []

        fin, ex = self.iter_loop(st, seq, body)
        if fin is None:
            return None, None
        r = fin.mem[acc.a[0]]
        fin = State(fin.g, {k: v for k, v in fin.mem.items() if k != acc.a[0]})
        return r, fin


P61 = (1 << 61) - 1


class Finger:
    """Structural fingerprint of terms with given colours for some of their open names.

    Independent of the order in which terms, atoms and fresh names were created, as far as open
    names are concerned; closed subterms are identified by their interned node."""

    def __init__(self, col):
        self.col = col
        self.memo = {}
        self.bm = {}

    def mix(self, *xs):
        r = 1469598103934665603
        for x in xs:
            if isinstance(x, str):
                x = zlib.crc32(x.encode())
            r = ((r ^ (x & P61)) * 1099511628211 + 0x9E3779B97F4A7C15) & 0xFFFFFFFFFFFFFFFF
            r ^= r >> 29
        return r % P61

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            c = self.col.get(t)
            r = self.memo[t] = self.mix("c", c) if c is not None else \
                self.mix("id", t.id) if not fv(t) else self.go(t)
        return r

    def guard(self, n):
        if n < 2:
            return n
        r = self.bm.get(n)
        if r is None:
            x = self.atom(TT._atoms[TT._bvar[n]])
            lo, hi = self.guard(TT._blo[n]), self.guard(TT._bhi[n])
            r = self.bm[n] = (lo + x * (hi - lo)) % P61
        return r

    def atom(self, t):
        if t.op == "ge0" and fv(t):
            x = t.a[0]
            h1 = self.mix("ge0", self(x))
            h2 = self.mix("ge0", self(sub(scale(x, -1), Int(1))))
            return h1 if h1 <= h2 else (1 - h2) % P61
        if t.op == "eq0" and fv(t):
            return min(self.mix("eq0", self(t.a[0])), self.mix("eq0", self(scale(t.a[0], -1))))
        return self(t)

    def tp(self, x):
        if isinstance(x, T):
            return self(x)
        if isinstance(x, tuple):
            return self.mix("t", len(x), *[self.tp(y) for y in x])
        return self.mix(str(x))

    def bag(self, xs):
        return sum(self.mix("bag", x) for x in xs) % P61

    def go(self, t):
        op, a = t.op, t.a
        if op == "b":
            return self.mix("b", self.guard(a[0]))
        if op == "ph":
            return self.mix("ph")
        if op in ("el", "pos") and a[1][0] == "o":
            return self.mix(op, self.tp(a[0]), self.col.get(a[1][1], 0))
        if op == "set":
            return self.mix(op, self.bag(self(p) for p in a))
        if op in ("mm", "mapof"):
            return self.mix(op, self(a[0]), self.bag(self(p) for p in a[1]))
        if op == "case":
            return self.mix(op, self.bag(self.mix(self.guard(g.a[0]), self(v)) for g, v in a))
        if op == "lin":
            return self.mix(op, a[0], self.bag(self.mix(k, self(x)) for x, k in a[1]))
        if op in ("eq", "mul"):
            return self.mix(op, self.bag(self(x) for x in a))
        return self.mix(op, *[self.tp(x) for x in a])


def canon_order(phs, steps, inits, extra=None):
    """An order of the slots that does not depend on how they are written down."""
    n = len(phs)
    if n == 1:
        return [0]
    base = Finger({})
    ini = [base(x) for x in inits]
    col = list(ini)

    def refine(col):
        k = len(set(col))
        for _ in range(n):
            f = Finger(dict(zip(phs, col)))
            x = f(extra) if extra is not None else 0
            col = [f.mix(col[i], ini[i], f(steps[i]), x) for i in range(n)]
            if len(set(col)) <= k:
                break
            k = len(set(col))
        return col

    col = refine(refine(col))
    while len(set(col)) < n:
        # tell slots of the same colour apart by what follows from picking one of them
        dup = min(c for c in col if col.count(c) > 1)
        best = None
        for i in range(n):
            if col[i] == dup:
                c2 = list(col)
                c2[i] = base.mix("me", dup)
                c2 = refine(c2)
                if best is None or sorted(c2) < best[0]:
                    best = (sorted(c2), c2)
        col = best[1]
    return sorted(range(n), key=lambda i: col[i])


def inserted(x, p):
    """Whether x is the map p but for insertions."""
    while x.op == "minsert":
        x = x.a[0]
    return x is p


def invariant_key(step, ph, bs, phs):
    """('k', key) / ('i', index) when the step only touches ph at one loop-invariant key."""
    found = None
    mine = frozenset(n for _, n in bs)
    for g, v in leaves(step):
        if v is ph:
            continue
        if v.op in ("minsert", "vset") and v.a[0] is ph:
            k = ("k" if v.op == "minsert" else "i", v.a[1])
            if found is not None and found != k:
                return None
            found = k
        else:
            return None
    if found is None or fv(found[1]) & (mine | phs):
        return None
    return found


def injective(k, bs):
    """Different iterations have different keys."""
    if len(bs) != 1:
        return False
    s, n = bs[0]
    if k is pos(s, n):
        return True
    if k is el(s, n):
        return s.op in ("keys", "range", "set") or s in SETS
    return False


SETS = set()


def rev_(s):
    if s.op == "rev":
        return s.a[0]
    if s.op == "list" and all(not p.a[0] and p.a[2] == "one" for p in s.a):
        return mklist(list(s.a)[::-1])
    if s.op == "list" and len(s.a) == 1 and len(s.a[0].a[0]) == 1 and s.a[0].a[2] == "one":
        bs, g, k, t = open_cmp(s.a[0])
        q, n = bs[0]
        r = mk("rev", q)
        m = {el(q, n): el(r, n), pos(q, n): sub(sub(len_(q), Int(1)), pos(r, n))}
        return mk("list", *close([(r, n)], subst(g, m), k, subst(t, m)))
    if s.op == "case":
        return mkcase([(g, rev_(v)) for g, v in leaves(s)])
    return mk("rev", s)


def restrict_top(v, g):
    if v.op != "case" or g in (0, 1):
        if v.op == "b" and g not in (0, 1):
            return B(brestrict(v.a[0], g))
        return v
    return mkcase([(brestrict(gg, g), w) for gg, w in leaves(v) if band(gg, g)])


_norm, _keysof, _relm = {}, {}, {}


def known(g):
    """Values that a guard leaves only one possibility for."""
    out = {}
    for at in atoms_of(g):
        if at.op == "isv":
            x, adt = at.a[0], at.a[1]
            if x in out:
                continue
            d = TT.ADTS.get(adt)
            for v in d["variants"] if d else ():
                if not v["fields"] and bimp(g, isv(x, adt, v["name"]).a[0]):
                    out[x] = mk("rec", adt, v["name"], (), ())
        elif at.op == "eq" and bimp(g, var_node(at)):
            for x, c in (at.a, at.a[::-1]):
                if c.op == "str" and x.op != "str":
                    out[x] = c
    return out


def keysof(g):
    r = _keysof.get(g)
    if r is None:
        kn = known(g)
        r = _keysof[g] = (frozenset(atoms_of(g)) | frozenset(kn), kn)
    return r


def _relevant(t, ks):
    memo = _relm.setdefault(ks, {})

    def go(t):
        r = memo.get(t)
        if r is None:
            r = t in ks or t.op == "case" or t.op == "cmp" and t.a[1] is not TRUE or any(go(k) for k in kids(t))
            memo[t] = r
        return r

    return go(t)


OPAQUE_NORM = ("mu", "fold", "any", "cmp", "el", "pos", "slot", "lam")


def norm(t, g):
    """The value under the guard g, everywhere inside."""
    return _nrm(t, g, brestrict)


def norm_atoms(n, g):
    """A guard where g holds, its atoms simplified too."""
    n = bconstrain(n, g) if n > 1 and band(n, g) else n
    if n < 2:
        return n
    memo = {}

    def go(x):
        if x < 2:
            return x
        r = memo.get(x)
        if r is None:
            at = TT._atoms[TT._bvar[x]]
            f = TT.REBUILD.get(at.op)
            c = at
            if f and at.op not in OPAQUE_NORM and at.op not in ("any", "b"):
                args = [_ntp(y, g, brestrict) for y in at.a]
                if any(y is not z for y, z in zip(args, at.a)):
                    c = f(*args)
            v = tobool(c).a[0] if c is not at else var_node(at)
            r = memo[x] = TT._ite(v, go(TT._bhi[x]), go(TT._blo[x]))
        return r
    return go(n)


def canon(t, g):
    """Like norm; the same term for any two values whose guards agree where g holds."""
    return _nrm(t, g, bconstrain)


def _nrm(t, g, co):
    if g == 0:
        return t
    k = (t, g, co)
    r = _norm.get(k)
    if r is not None:
        return r
    ks, kn = keysof(g)
    if not _relevant(t, ks):
        return t
    op, a = t.op, t.a
    if op == "b":
        r = B(co(a[0], g))
    elif t in kn:
        r = kn[t]
    elif op == "case":
        r = mkcase([(co(gg.a[0], g), _nrm(v, band(g, gg.a[0]), co)) for gg, v in a if band(gg.a[0], g)])
    elif op in ("set", "list"):
        ps = []
        for p in a:
            ps += _gcmp(p, g, co)
        r = mkset(ps) if op == "set" else mklist(ps)
    elif op in ("mapof", "mm"):
        ps = []
        for p in a[1]:
            ps += _gcmp(p, g, co)
        r = {"mapof": mapof, "mm": mm}[op](_nrm(a[0], g, co), ps)
    else:
        r = t
        if op not in OPAQUE_NORM:
            f = TT.REBUILD.get(op)
            args = [_ntp(x, g, co) for x in a]
            if any(x is not y for x, y in zip(args, a)):
                r = f(*args) if f else relift(op, args)
    _norm[k] = r
    return r


def _ntp(x, g, co):
    if isinstance(x, T):
        return _nrm(x, g, co)
    if isinstance(x, tuple):
        y = tuple(_ntp(z, g, co) for z in x)
        return x if all(p is q for p, q in zip(x, y)) else y
    return x


_uni = {}


def universals(g):
    """What g says of all elements of sequences: [(binders, guard that never holds)]."""
    r = _uni.get(g)
    if r is None:
        r = []
        for at in TT.atoms_of(g):
            if at.op == "any" and TT.bimp(g, bnot(TT.var_node(at))):
                def chain(c, bs):
                    b2, gd, _, _ = open_cmp(c)
                    bs = bs + b2
                    r.append((bs, gd))
                    if gd.a[0] > 1:
                        for x in TT.atoms_of(gd.a[0]):
                            if x.op == "any" and TT.bimp(TT.var_node(x), gd.a[0]):
                                chain(x.a[0], bs)
                chain(at.a[0], [])
        _uni[g] = r
    return r


def known_of(bs, g):
    """What g says of the elements the closed binders bs stand for, as a node."""
    out = 1
    for ubs, ug in universals(g):
        i, m = 0, {}
        for us, un in ubs:
            s2 = Subst(m)(us) if m else us
            while i < len(bs) and bs[i][0] is not s2:
                i += 1
            if i == len(bs):
                break
            s, h = bs[i]
            m = dict(m)
            m[TT.el(us, un)] = mk("el", s, ("c", h))
            m[TT.pos(us, un)] = mk("pos", s, ("c", h))
            i += 1
        else:
            out = band(out, bnot(tobool(Subst(m)(ug)).a[0]))
    return out


def _gcmp(p, g, co):
    bs, gd, k, t = p.a
    if bs and co is bconstrain:
        u = known_of(bs, g)
        if u > 1:
            g = band(g, u) or g
    n = co(gd.a[0], g)
    if n == 0:
        return []
    t2 = _nrm(t, band(g, n) or g, co)
    if t2 is t and n == gd.a[0]:
        return [p]
    if not bs:
        return close([], B(n), k, t2)
    bs2, g2, k2, t3 = open_cmp(mk("cmp", bs, B(n), k, t2))
    return close(bs2, g2, k2, t3)


def has_fn(t, memo={}):
    r = memo.get(t)
    if r is None:
        r = t.op == "fnitem" or t.op == "rec" and str(t.a[0]).startswith("clo:") or any(has_fn(k) for k in kids(t))
        memo[t] = r
    return r


def has_ptr(t, memo={}):
    r = memo.get(t)
    if r is None:
        r = t.op == "ptr" or any(has_ptr(k) for k in kids(t))
        memo[t] = r
    return r


def binop(op, x, y):
    if op in ("Eq", "Ne"):
        r = eq(x, y)
        return r if op == "Eq" else Not(r)
    if op in ("Lt", "Le", "Gt", "Ge"):
        if op in ("Gt", "Ge"):
            x, y, op = y, x, {"Gt": "Lt", "Ge": "Le"}[op]
        return lt(x, y) if op == "Lt" else le(x, y)
    if op.startswith("Add"):
        return add(x, y)
    if op.startswith("Sub"):
        return sub(x, y)
    if op.startswith("Mul"):
        return mul(x, y)
    if op == "BitAnd" and x.op == "b":
        return And(x, tobool(y))
    if op == "BitOr" and x.op == "b":
        return Or(x, tobool(y))
    if op in ("BitAnd", "BitOr", "BitXor") and (x.op == "b" or y.op == "b"):
        x, y = tobool(x), tobool(y)
        if op == "BitAnd":
            return And(x, y)
        if op == "BitOr":
            return Or(x, y)
        return Not(eq(x, y))
    if x.op == "int" and y.op == "int" and x.a[0] >= 0 and y.a[0] >= 0:
        f = {"BitAnd": lambda a, b: a & b, "BitOr": lambda a, b: a | b, "BitXor": lambda a, b: a ^ b,
             "Shl": lambda a, b: a << b & (1 << 64) - 1 if b < 64 else None, "Shr": lambda a, b: a >> b if b < 64 else None,
             "Div": lambda a, b: a // b if b else None, "Rem": lambda a, b: a % b if b else None}.get(op)
        r = f(x.a[0], y.a[0]) if f else None
        if r is not None:
            return Int(r)
    return relift("bin", [op, x, y])


BITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128,
        "i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "i128": 128, "char": 32, "bool": 1}


def int_cast(v, src, dst):
    """A number in another integer type; one that may not fit stays an opaque cast."""
    s, d = src[1] if len(src) > 1 else "?", dst[1] if len(dst) > 1 else "?"
    if s == d or s not in BITS or d not in BITS:
        return v
    if v.op == "case":
        return mkcase([(g, int_cast(w, src, dst)) for g, w in leaves(v)])
    if s == "bool" or v.op == "b":
        n = tobool(v).a[0]
        return mkcase([(n, Int(1)), (bnot(n), Int(0))])
    if s == "char" or d == "char":
        return relift("cast", [s, d, v])
    us, ud = s[0] == "u", d[0] == "u"
    if v.op == "int":
        m = v.a[0] % (1 << BITS[d])
        return Int(m if ud or m < 1 << BITS[d] - 1 else m - (1 << BITS[d]))
    if us == ud and BITS[d] >= BITS[s] or us and BITS[d] > BITS[s]:
        return v
    if v.op == "cast" and v.a[1] == s and v.a[0] == d and BITS[s] >= BITS[d]:
        return v.a[2]
    return relift("cast", [s, d, v])


class FakeFrame:
    def __init__(self, ts):
        self.ts = ts
        self.fid = 0


class CallSite:
    def __init__(self, ip, fr, st, c, args, t):
        self.ip, self.fr, self.st, self.c, self.args, self.t = ip, fr, st, c, args, t
        self.path = norm_path(c["path"]) if not c.get("trait") else c["trait"] + "::" + c["name"]
        self.name = c["name"]

    def targ(self, i):
        return self.ip.rt(self.c["args"][i], self.fr.ts)

    @property
    def selft(self):
        if "self" in self.c:
            return self.ip.rt(self.c["self"], self.fr.ts)
        if "inherent" in self.c:
            return self.ip.rt(self.c["inherent"], self.fr.ts)
        return None

    def dest(self):
        if self.t is None:
            return None
        return self.ip.rt(self.t[3][2], self.fr.ts)


DERIVED_MODELLED = ("core::clone::Clone", "core::cmp::PartialEq", "core::cmp::PartialOrd", "core::cmp::Ord",
                    "core::fmt::Debug", "core::hash::Hash", "core::cmp::Eq", "core::marker::Copy")
