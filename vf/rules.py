"""Rules decided outside the comparison of functions."""
import os
import re
import sys

from mir import Crate, const_s
from terms import *
from interp import Interp, Unmodelled, NeedMu
from nf import setup, normal_form
import tree
import lexgram
import wopgram


def run(pid, spec, impl, src="/repo"):
    f = RULES.get(pid)
    out = []
    try:
        for v in f(spec, impl, src) if f else ():
            out.append(v)
    except Exception as e:
        # a shape the rule was not written for: no statement about it
        if os.environ.get("VF_DEBUG"):
            raise
        out.append(open_("rule of " + pid, "%s: %s" % (type(e).__name__, e)))
    return out


def held(fn):
    return {"status": "held", "fn": fn}


def bad(fn, loc, diff):
    return {"status": "violation", "fn": fn, "self": None, "loc": loc, "diff": diff}


def open_(fn, why):
    return {"status": "undecided", "fn": fn, "why": why}


def load(d, crate):
    return Crate(os.path.join(d, crate + ".json"))


# ------------------------------------------------------------------------------ effects (C20, C27)
# types whose values change behind a shared reference
INTERIOR = re.compile(r"^(core::cell::|core::sync::|std::sync::|alloc::sync::Weak|std::thread::|std::sys::|"
                      r"once_cell::|parking_lot::|lazy_static::|core::lazy|std::lazy)")
INTERIOR_OK = re.compile(r"^std::sync::mpsc")
# what reads or writes more than its arguments
EFFECT = re.compile(r"^<?&?(mut )?(std::(time|env|thread|process|fs|net|io|os|sys|random|panic)::|"
                    r"alloc::io::|core::io::|core::random::|std::alloc::|alloc::alloc::|rand::|getrandom::)")
PRINT = ("std::io::_print", "std::io::_eprint", "std::io::stdio::_print", "std::io::stdio::_eprint")
# addresses seen as values
ADDRESS = re.compile(r"(fmt::Pointer>?::fmt$|Argument(<'_>)?::new_pointer|ptr::(const_ptr|mut_ptr)::.*::(addr|expose_provenance|"
                     r"to_bits)$|::expose_provenance$|core::ptr::hash$|<\*(const|mut) .* as core::(cmp::(Partial)?Ord|hash::Hash)>)")
SEEDED = re.compile(r"RandomState( as .*)?>?::(build_hasher|hash_one|hash)$|RandomState::new$")


def callee(o):
    if o[0] == "const" and o[1].get("k") == "fn":
        return o[1]
    return None


def fn_items(x, out):
    """Function items anywhere in a statement or terminator."""
    if isinstance(x, list):
        for y in x:
            fn_items(y, out)
    elif isinstance(x, dict):
        if x.get("k") == "fn":
            out.append(x)
        else:
            for y in x.values():
                fn_items(y, out)


def type_heads(c, i, seen):
    if i in seen:
        return
    seen.add(i)
    t = c.types[i]
    if t[0] == "adt":
        yield t[1]
        for a in t[2]:
            yield from type_heads(c, a, seen)
        a = c.adts.get(t[1])
        if a and a["local"]:
            for v in a["variants"]:
                for f in v["fields"]:
                    yield from type_heads(c, f[1], seen)
    elif t[0] in ("ref", "ptr"):
        yield from type_heads(c, t[2], seen)
    elif t[0] in ("array", "slice"):
        yield from type_heads(c, t[1], seen)
    elif t[0] == "tuple":
        for a in t[1]:
            yield from type_heads(c, a, seen)


def interior(c, i):
    for h in type_heads(c, i, set()):
        if INTERIOR.match(h) and not INTERIOR_OK.match(h):
            return h
    return None


def graph(c):
    """name -> functions of this crate it may run, by direct call, by value, or through a trait."""
    g = {}
    byimpl = {}
    for im in c.impls:
        for it, p in im["items"]:
            byimpl.setdefault((im["trait"], it), []).append(p)
    for n, f in c.fns.items():
        k = []
        fn_items(f.blocks, k)
        out = set()
        for x in k:
            for p in (x.get("resolved"), x["path"]):
                if p in c.fns:
                    out.add(p)
            if x.get("trait"):
                out.update(byimpl.get((x["trait"], x["name"]), ()))
        g[n] = out
    for n in c.fns:
        m = re.match(r"^(.*?)::\{closure#\d+\}", n)
        if m and m.group(1) in g:
            g[m.group(1)].add(n)
    return g


def reached(c, roots):
    g = graph(c)
    seen, st = {}, [(r, None) for r in roots]
    while st:
        n, by = st.pop()
        if n in seen or n not in g:
            continue
        seen[n] = by
        st.extend((x, n) for x in g[n])
    return seen


def effects(c, fns, prints):
    """What the functions do beyond computing with their arguments: (function, loc, what)."""
    for n in fns:
        f = c.fns[n]
        if f.d.get("unsafe"):
            yield n, f.loc, "is an unsafe function"
        k = []
        fn_items(f.blocks, k)
        for x in k:
            for p in {x.get("resolved") or x["path"], x["path"]}:
                if EFFECT.match(p) and not (prints and p in PRINT):
                    yield n, f.loc, "runs %s" % p
                elif ADDRESS.search(p):
                    yield n, f.loc, "uses an address as a value (%s)" % p
                elif SEEDED.search(p):
                    yield n, f.loc, "uses a random seed as a value (%s)" % p
        for b in f.blocks:
            for s in b["s"]:
                if s[0] == "assign" and s[2][0] == "cast" and s[2][1].startswith("PointerExpose"):
                    yield n, f.loc, "turns an address into a number"


def owned(c, fns):
    """Interior mutability in statics, types and signatures."""
    for s in c.statics:
        if "logos::" in s["path"]:
            continue
        if s["mut"]:
            yield s["path"], s["loc"], "is a mutable static"
        h = interior(c, s["ty"])
        if h:
            yield s["path"], s["loc"], "is a static that changes behind a shared reference (%s)" % h
    for p, a in c.adts.items():
        if a["local"]:
            for v in a["variants"]:
                for f in v["fields"]:
                    h = interior(c, f[1])
                    if h:
                        yield p, None, "field %s changes behind a shared reference (%s)" % (f[0], h)
    for n in fns:
        f = c.fns[n]
        for i in range(f.argc + 1):
            h = interior(c, f.locals[i][0])
            if h and not f.d.get("closure"):
                yield n, f.loc, "%s changes behind a shared reference (%s)" % ("its result" if not i else "parameter %d" % i, h)


def local_cells(c, fns):
    for n in fns:
        f = c.fns[n]
        for t, _ in f.locals:
            h = interior(c, t)
            if h:
                yield n, f.loc, h
                break


def uniq(xs):
    seen = set()
    for x in xs:
        if x not in seen:
            seen.add(x)
            yield x


def pure_library(spec, impl, src):
    c = load(impl, "lrp.lib")
    fns = [n for n in c.fns]
    found = False
    for l in c.unsafe:
        found = True
        yield bad("unsafe code", l, "unsafe block in the library")
    for n, l, w in uniq(list(effects(c, fns, False)) + list(owned(c, fns))):
        found = True
        yield bad(n, l, w)
    if not found:
        for n, l, h in local_cells(c, fns):
            found = True
            yield open_("interior mutability", "%s keeps a %s in a local variable" % (n, h))
    if not found:
        yield held("effect scan of %d functions, %d types, %d statics" % (
            len(fns), sum(1 for a in c.adts.values() if a["local"]), len(c.statics)))
    # parsing through a shared parser
    n = 0
    for f in c.fns.values():
        m = re.search(r"parser::Parser(?:<.*>)?>?::(dfa|simple_dfa|parse|validate)$", f.name)
        if m and f.argc:
            t = c.types[f.locals[1][0]]
            if t[0] == "ref" and t[1]:
                yield bad(f.name, f.loc, "takes the parser by unique reference")
            else:
                n += 1
    if n:
        yield held("%d ways to run a parser take it by shared reference" % n)


BUILD = ("crate::builder::Builder::", "crate::build_parser", "crate::lexer", "crate::builder::", "<crate::builder::")


def same_text(spec, impl, src):
    c = load(impl, "wop.lib")
    roots = [n for n in c.fns if n.startswith(BUILD) and "logos::" not in n]
    if not roots:
        yield open_("wop generator", "no function of crate::builder in this tree")
        return
    fns = [n for n in reached(c, roots) if "logos::" not in n]
    found = False
    for n, l, w in uniq(list(effects(c, fns, True)) + list(owned(c, fns))):
        found = True
        yield bad(n, l, w)
    if not found:
        yield held("effect scan of the %d functions reached from the generator" % len(fns))


# --------------------------------------------------------------------------- shipped tables (C22, C23)
class Odd(Exception):
    """A shape these rules do not read."""


def table_chain(t):
    """minsert(minsert(mempty, k, v), k2, v2) -> [(k, v)], later entries winning."""
    out = []
    while t.op == "minsert":
        out.append((t.a[1], t.a[2]))
        t = t.a[0]
    if t.op != "mempty":
        raise Odd("table built from %s" % t.op)
    seen, r = set(), []
    for k, v in out:
        if k not in seen:
            seen.add(k)
            r.append((k, v))
    return r[::-1]


def const_name(t):
    if t.op == "rec" and not t.a[-1]:
        return t.a[1]
    raise Odd("symbol %s" % show(t)[:60])


def items(t):
    """Elements of a list written out."""
    if t.op != "list":
        raise Odd("list is %s" % t.op)
    out = []
    for p in t.a:
        e = plain_part(p)
        if e is None:
            raise Odd("list element %s" % show(p)[:60])
        out.append(e)
    return out


def plain_part(p):
    if p.op != "cmp":
        return p
    bs, g, kind, x = p.a
    if bs or g is not TRUE or kind != "one":
        return None
    return x


def ext_args(t, suffix, n):
    if t.op == "ext" and isinstance(t.a[0], str) and t.a[0].split("<")[0].endswith(suffix) or \
            t.op == "ext" and isinstance(t.a[0], str) and re.sub(r"::<.*?>", "", t.a[0]).endswith(suffix):
        if len(t.a) == n + 1:
            return t.a[1:]
    raise Odd("%s instead of %s" % (show(t)[:60], suffix))


class Tables:
    def __init__(self, d):
        self.c = load(d, "wop.lib")
        setup([self.c])
        self.ip = Interp(self.c)

    def nf(self, name):
        if name not in self.c.fns:
            raise Odd("no function %s" % name)
        try:
            return normal_form(self.ip, name)
        except (Unmodelled, NeedMu, RecursionError) as e:
            raise Odd("%s: %s" % (name, e))

    def grammar(self):
        """(entry, eof, {symbol: [[symbol]]}, loc)"""
        x = self.nf("crate::out::grammar")
        if x.ret is None:
            raise Odd("grammar() never returns")
        entry, rules, eof = ext_args(x.ret, "Grammar::new", 3)
        out = {}
        for k, v in table_chain(rules):
            s, ps = ext_args(v, "Rule::new", 2)
            if s is not k:
                out[const_name(k)] = ("named", const_name(s))
                continue
            out[const_name(k)] = [[const_name(y) for y in items(p)] for p in items(ps)]
        return const_name(entry), const_name(eof), out

    def reductors(self):
        """{symbol: [function names]}"""
        x = self.nf("crate::out::reduct_map")
        if x.ret is None:
            raise Odd("reduct_map() never returns")
        out = {}
        for k, v in table_chain(x.ret):
            fs = []
            for p in items(v):
                if p.op != "fnitem":
                    raise Odd("reductor %s" % show(p)[:60])
                fs.append(p.a[0])
            out[const_name(k)] = fs
        return out


LEN0 = None


def with_len(t, n):
    """t when the item list has n items."""
    return subst(t, {len_(mk("arg", 0)): Int(n)})


def fits(spec, impl, src):
    t = Tables(impl)
    at = lambda n: t.c.fns[n].loc if n in t.c.fns else None
    g, r = "crate::out::grammar", "crate::out::reduct_map"
    try:
        entry, eof, rules = t.grammar()
        red = t.reductors()
    except Odd as e:
        yield open_("shipped tables", str(e))
        return
    for k, ps in rules.items():
        if isinstance(ps, tuple):
            yield bad(g, at(g), "rule under %s is named %s" % (k, ps[1]))
            return
    if set(rules) != set(red):
        for k in sorted(set(rules) ^ set(red)):
            yield bad(r, at(r), "%s %s" % (k, "has no reductors" if k in rules else "has reductors but no rule"))
    else:
        yield held("the %d rules are the symbols with reductors" % len(rules))
    for k in rules:
        if k not in red:
            continue
        if len(rules[k]) != len(red[k]):
            yield bad(r, at(r), "%s has %d productions and %d reductors" % (k, len(rules[k]), len(red[k])))
            continue
        yield held("%s: %d reductors for as many productions" % (k, len(red[k])))
        for i, (p, f) in enumerate(zip(rules[k], red[k])):
            try:
                yield reductor_fits(t, f, "%s production %d" % (k, i), len(p))
            except Odd as e:
                yield open_("%s production %d" % (k, i), str(e))


def reductor_fits(t, f, what, n):
    x = t.nf(f)
    loc = t.c.fns[f].loc
    a0 = mk("arg", 0)
    if x.ret is None:
        return bad(f, loc, "%s: never returns" % what)
    here, huge = with_len(B(x.n), n), with_len(B(x.n), 1 << 20)
    if here is not huge:
        for m in range(n, 64):
            if with_len(B(x.n), m + 1) is not here:
                break
        return bad(f, loc, "%s: indexes past its %d items" % (what, n))
    if mentions(here, len_(a0)):
        raise Odd("panics depend on the number of items in a way not read")
    ret = with_len(x.ret, n)
    try:
        item, span = ext_args(ret, "Meta::new", 2)
        lo, hi = ext_args(span, "Span::new", 2)
    except Odd:
        raise
    it = lambda j: fld(fld(fld(index(a0, Int(j)), "item"), "span"), "start")
    want = (fld(fld(fld(index(a0, Int(0)), "item"), "span"), "start"),
            fld(fld(fld(index(a0, Int(n - 1)), "item"), "span"), "end"))
    for got, w, s in ((lo, want[0], "starts"), (hi, want[1], "ends")):
        if got is not w:
            if readable(got):
                return bad(f, loc, "%s: its span %s at %s" % (what, s, show(got)[:120]))
            raise Odd("span %s at %s" % (s, show(got)[:80]))
    return held("%s: indexes 0..%d, span from first to last" % (what, n))


def mentions(t, x, memo=None):
    memo = {} if memo is None else memo
    if t is x:
        return True
    if t not in memo:
        memo[t] = any(mentions(y, x, memo) for y in kids(t))
    return memo[t]


def readable(t):
    """A field chain over a constant item, or a constant."""
    while t.op == "fld":
        t = t.a[0]
    return t.op == "int" or t.op == "index" and t.a[0] is mk("arg", 0) and t.a[1].op == "int"


# ------------------------------------------------------------------------------ grammar file (C23)
def loose(bs):
    """Bindings without how the reductor borrows or copies."""
    return {n: ("absent",) if h[0] is False else h[:3] for n, h in bs.items()}


def used(bs, toks):
    return {n: h for n, h in bs.items() if n in toks}


def as_file_says(spec, impl, src):
    g, r = "crate::out::grammar", "crate::out::reduct_map"
    t = Tables(impl)
    at = lambda n: t.c.fns[n].loc if n in t.c.fns else None
    f = os.path.join(src, "wop/src/wop.grammar")
    if not os.path.exists(f):
        yield open_("wop.grammar", "not in this tree")
        return
    try:
        want = wopgram.expand(open(f).read())
    except wopgram.Bad as e:
        yield open_("wop.grammar", "not read: %s" % e)
        return
    try:
        entry, eof, rules = t.grammar()
    except Odd as e:
        yield open_(g, str(e))
        return
    ok = True
    if entry != "EntryPoint":
        ok = False
        yield bad(g, at(g), "entry rule is %s, not EntryPoint" % entry)
    if eof != "Eof":
        ok = False
        yield bad(g, at(g), "end marker is %s, not Eof" % eof)
    for k in sorted(set(want) | set(rules)):
        if k not in rules or k not in want:
            ok = False
            yield bad(g, at(g), "rule %s is only in the %s" % (k, "grammar file" if k in want else "generated grammar"))
        elif isinstance(rules[k], tuple):
            ok = False
            yield bad(g, at(g), "rule under %s is named %s" % (k, rules[k][1]))
        else:
            w = [[s.split("::")[-1] for s in p[0]] for p in want[k]]
            if w != rules[k]:
                ok = False
                i = next((i for i, (x, y) in enumerate(zip(w, rules[k])) if x != y), min(len(w), len(rules[k])))
                yield bad(g, at(g), "rule %s, production %d: the file gives %s, the grammar has %s" % (
                    k, i, w[i] if i < len(w) else "nothing", rules[k][i] if i < len(rules[k]) else "nothing"))
            else:
                yield held("rule %s: %d productions" % (k, len(w)))
    if ok:
        yield held("entry EntryPoint, end marker Eof")
    try:
        red = t.reductors()
    except Odd as e:
        yield open_(r, str(e))
        return
    out = os.path.join(src, "wop/src/out.rs")
    text = open(out).read() if os.path.exists(out) else ""
    sref = None
    for k in want:
        for i, (syms, bs, code) in enumerate(want[k]):
            what = "%s production %d" % (k, i)
            if k not in red or i >= len(red[k]):
                continue  # C22
            fn = red[k][i]
            got = wopgram.bindings_in(wopgram.reductor_text(text, fn.split("::")[-1]))
            if got is not None and got[1] == code and used(loose(got[0]), code) == used(loose(bs), code):
                yield held(what + ": " + ", ".join("%s=%s" % p for p in sorted(loose(bs).items())))
                continue
            # written another way: what it does against the reference reductor of that production
            try:
                if sref is None:
                    sref = (Tables(spec), wopgram.expand(open(os.path.join(tree.VERIF, "spec/wop/src/wop.grammar")).read()))
                    sred = sref[0].reductors()
                st, sw = sref
                if k not in sw or i >= len(sw[k]) or k not in sred:
                    raise Odd("not in the reference")
                a, b = st.nf(sred[k][i]), t.nf(fn)
            except (Odd, wopgram.Bad) as e:
                yield open_(what, str(e))
                continue
            ssyms, sbs, scode = sw[k][i]
            same_file = ssyms == syms and used(loose(sbs), scode) == used(loose(bs), code) and scode == code
            n = len(syms)
            x, y = with_len(a.ret, n), with_len(b.ret, n) if b.ret is not None else None
            same = x is y and with_len(B(a.n), n) is with_len(B(b.n), n)
            if same and same_file:
                yield held(what + ", by its normal form")
            elif same_file and b.ret is not None:
                from compare import definite
                d = definite(a, b)
                if d[0]:
                    yield bad(fn, at(fn), "%s: %s" % (what, d[1]))
                else:
                    yield open_(what, "written another way, not comparable")
            elif same and used(loose(sbs), scode) != used(loose(bs), code) and scode == code:
                yield bad(fn, at(fn), "%s: the file binds %s, the reductor was made for %s" % (
                    what, used(loose(bs), code), used(loose(sbs), scode)))
            elif got is not None and got[1] == code:
                yield bad(fn, at(fn), "%s: the file binds %s, the reductor binds %s" % (
                    what, used(loose(bs), code), used(loose(got[0]), code)))
            else:
                yield open_(what, "file and reductor both differ from the reference")



# --------------------------------------------------------------------------------- scanner (C31)
def scanner(spec, impl, src):
    ref = lexgram.read(os.path.join(tree.VERIF, "spec", "wop", "src"))
    try:
        got = lexgram.read(os.path.join(src, "wop", "src"))
    except lexgram.Beyond as e:
        yield open_("scanner declaration", str(e))
        return
    named = {d.variant for d in ref.defs if not d.skip} | {ref.error}
    if not named <= set(got.variants):
        yield open_("scanner declaration", "its tokens go by other names")
        return
    at = lambda line: "%s:%s" % (os.path.relpath(got.file, src), line)
    lines = {d.variant: d.line for d in got.defs}
    if got.error != ref.error:
        yield bad("enum " + got.name, at(got.line), "text no pattern matches is a %s, expected %s" % (got.error, ref.error))
    try:
        n, diff = lexgram.compare(ref, got)
    except lexgram.Beyond as e:
        yield open_("scanner declaration", str(e))
        return
    if diff:
        text, want, have = diff
        v = next((l[1] for l in (have, want) if l and l[1] in lines), None)
        yield bad("enum " + got.name, at(lines.get(v, got.line)), "the text %r is %s, expected %s" % (
            text, lexgram.say(have), lexgram.say(want)))
    else:
        yield held("product of the scanner automata: %d states over %d patterns, same label in each" % (n, len(got.defs)))


RULES = {"C20": pure_library, "C22": fits, "C23": as_file_says, "C27": same_text, "C31": scanner}
NOTES = {
    "C20": "Sound for the listed effects on all code of the library crate: no unsafe code, no mutable or interior-mutable static, "
           "field or signature, no callee that reads or writes time, environment, threads, files or standard streams, no address or "
           "random seed used as a value; and no function whose normal form depends on a hashed collection's order where the "
           "reference's does not. Trusts the dumped call graph and that std and core callees outside the list have no effects.",
    "C22": "Exact for the shipped tables: the normal forms of out::grammar and out::reduct_map are constants, each reductor's index "
           "guards are decided for its production's length and its span for all items. Trusts lrp::Grammar::new and lrp::Rule::new "
           "to keep what they are given.",
    "C23": "Exact for the shipped file: an independent expansion of wop.grammar is compared with the constant normal form of "
           "out::grammar; bindings are compared by text where the reductor has the generator's shape, otherwise by normal form "
           "against the reference reductor. Trusts vf/wopgram.py's reading of the grammar notation.",
    "C31": "Exact for the declared token languages: the patterns of the Logos enum are read from the source and the automata of "
           "the reference's and this tree's declarations walked in step over all texts; any text they label differently is a "
           "violation. Trusts logos' derive macro to implement longest match for the patterns, and vf/lexgram.py's reading of them.",
    "C27": "All functions reached from the generator are scanned for time, environment, randomness, addresses and global state, and "
           "every function whose normal form depends on a hashed collection's order where the reference's does not is a violation. "
           "Functions out of the models' reach are undecided.",
}
