"""What the standard library does, as operations on terms.

Collections: BTreeSet/HashSet are sets, BTreeMap/HashMap maps, Vec/slice/String/str/iterators lists.
Shared references, boxes, reference counting, cloning and conversions between them are the identity.
Every model gets the interpreter and the call site and returns (value, state), or None for 'unknown'.
"""
import re

from terms import *
import terms as TT

SOME = lambda v: pay(v, OPTION, "Some", "0")
IS_SOME = lambda v: isv(v, OPTION, "Some").a[0]
OKV = lambda v: pay(v, RESULT, "Ok", "0")
ERRV = lambda v: pay(v, RESULT, "Err", "0")
IS_OK = lambda v: isv(v, RESULT, "Ok").a[0]
ORD = "core::cmp::Ordering"


def cls(t):
    """Class of a (stripped) type."""
    from interp import strip
    if t is None:
        return None
    t = strip(t)
    if t[0] == "adt":
        n = t[1]
        b = n.split("::")[-1]
        if n.startswith(("alloc::collections::btree::map::BTreeMap", "std::collections::hash::map::HashMap", "hashbrown")) or b in ("BTreeMap", "HashMap"):
            return "map"
        if b in ("BTreeSet", "HashSet"):
            return "set"
        if b == "String":
            return "str"
        if b in ("Vec", "VecDeque", "LinkedList"):
            return "vec"
        if n == OPTION:
            return "option"
        if n == RESULT:
            return "result"
        if b in ("Range", "RangeInclusive", "RangeFrom", "RangeTo", "RangeFull", "RangeToInclusive") and n.startswith("core::ops"):
            return "range"
        return "adt"
    if t[0] in ("slice", "array"):
        return "vec"
    if t == ("prim", "str"):
        return "str"
    if t[0] == "prim":
        return t[1]
    return t[0]


def ident(ip, cs):
    return cs.args[0], cs.st


def val(ip, cs, i):
    return ip.loadp(cs.st, cs.args[i])


IDENT = set("""
core::clone::Clone::clone core::ops::deref::Deref::deref core::ops::deref::DerefMut::deref_mut
core::convert::AsRef::as_ref core::convert::AsMut::as_mut core::borrow::Borrow::borrow core::borrow::BorrowMut::borrow_mut
alloc::borrow::ToOwned::to_owned core::convert::Into::into alloc::boxed::Box::new alloc::rcs::rc::Rc::new alloc::rc::Rc::new
core::hint::must_use core::iter::traits::iterator::Iterator::by_ref core::iter::traits::iterator::Iterator::peekable
core::iter::traits::iterator::Iterator::cloned core::iter::traits::iterator::Iterator::copied
core::iter::traits::iterator::Iterator::fuse core::iter::traits::iterator::Iterator::into_iter
core::option::Option::cloned core::option::Option::copied core::option::Option::as_ref core::option::Option::as_deref
core::option::Option::as_deref_mut
core::result::Result::as_ref core::result::Result::cloned core::result::Result::copied
alloc::vec::Vec::as_slice alloc::string::String::as_str alloc::vec::Vec::into_boxed_slice
core::str::as_bytes alloc::string::String::into_boxed_str alloc::slice::into_vec
core::mem::manually_drop::ManuallyDrop::new core::slice::as_ref
core::convert::identity core::hint::black_box alloc::slice::to_vec alloc::slice::to_owned
alloc::vec::Vec::as_mut_slice core::iter::traits::iterator::Iterator::rev_
""".split())

SHARED_IDENT = ("core::clone::Clone::clone", "core::option::Option::cloned", "core::option::Option::copied",
                "alloc::slice::to_vec", "alloc::borrow::ToOwned::to_owned")

MODELS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def find(path, cs):
    m = MODELS.get(path)
    if m:
        return m
    if path in IDENT:
        return ident_model
    p = ALIAS.get(path)
    if p:
        return MODELS.get(p)
    # containers: dispatch on the method name
    mm_ = re.match(r"^(?:alloc|std|core|hashbrown)::.*\b(BTreeMap|HashMap|BTreeSet|HashSet|Vec|VecDeque|String|Option|Result|Entry|OccupiedEntry|VacantEntry|slice|str)::(\w+)$", path)
    if mm_:
        c = {"BTreeMap": "map", "HashMap": "map", "BTreeSet": "set", "HashSet": "set", "Vec": "vec", "VecDeque": "vec",
             "slice": "vec", "String": "str", "str": "str", "Option": "option", "Result": "result", "Entry": "entry",
             "OccupiedEntry": "occupied", "VacantEntry": "vacant"}[mm_.group(1)]
        m = MODELS.get(c + "." + mm_.group(2))
        if m:
            return m
        if c == "str":
            return MODELS.get("vec." + mm_.group(2)) if mm_.group(2) in ("len", "is_empty", "push", "clear", "truncate", "pop", "with_capacity", "new", "as_ptr") else None
    if path.startswith("core::iter::traits::iterator::Iterator::") or path.startswith("core::iter::traits::double_ended") \
            or path.startswith("core::iter::traits::exact_size") or "peekable::Peekable" in path:
        return MODELS.get("iter." + cs.name)
    return None


ALIAS = {}


def ident_model(ip, cs):
    v = cs.args[0]
    if cs.path in SHARED_IDENT:
        v = ip.loadp(cs.st, v)
        if cs.path == "core::clone::Clone::clone" and v.op == "rec" and v.a[0] and str(v.a[0]).startswith("clo:"):
            return v, cs.st
    if cs.path == "core::convert::Into::into" or cs.path == "core::convert::From::from":
        return convert(ip, cs, v)
    return v, cs.st


def convert(ip, cs, v):
    """From/Into between a few standard shapes; local impls are inlined."""
    from interp import strip
    src = dst = None
    if cs.name == "into":
        src, dst = cs.selft, cs.targ(1) if len(cs.c["args"]) > 1 else None
    else:
        dst, src = cs.selft, cs.targ(1) if len(cs.c["args"]) > 1 else None
    if dst is not None:
        im = None
        for cand in ip.impls.get("core::convert::From", []):
            env = {}
            if ip.unify(cand["self"], dst, env):
                fn = dict((a, b) for a, b in cand["items"]).get("from")
                if fn in ip.fns:
                    f = ip.fns[fn]
                    env2 = {}
                    if src is None or ip.unify(f.locals[1][0], src, env2):
                        env.update(env2)
                        return ip.call_local(f, env, [v], cs.st)
        c = cls(dst)
        vv = ip.loadp(cs.st, v)
        if c == "set":
            return mark_set(toset(vv)), cs.st
        if c == "map":
            return to_map(vv), cs.st
        if c == "option" and cls(src) != "option":
            return Some(v), cs.st
        if c in ("vec", "str"):
            return vv, cs.st
        s1, d1 = strip(src) if src else None, strip(dst)
        if s1 == d1:
            return v, cs.st
        if d1[0] == "prim" or d1[0] == "dyn":
            return v, cs.st
        if d1[0] == "adt" and d1[1].split("::")[0] in ("std", "core", "alloc", "hashbrown"):
            return v, cs.st
        return relift("into", [str(d1), str(s1), ip.deep(cs.st, v)]), cs.st
    return v, cs.st


@model("core::convert::From::from")
def _(ip, cs):
    return convert(ip, cs, cs.args[0])


def mark_set(v):
    import interp
    for _, w in leaves(v):
        if w.op not in ("set", "list"):
            interp.SETS.add(w)
    return v


def to_map(v):
    """The map of a list of (key, value) pairs, later ones winning."""
    if v.op == "case":
        return mkcase([(g, to_map(w)) for g, w in leaves(v)])
    if v.op in ("mempty", "minsert", "mapof", "mm"):
        return v
    if v.op == "list":
        m = MEMPTY
        for p in v.a:
            bs, g, k, t = open_cmp(p)
            if k == "one":
                m = mapof(m, close(bs, g, "kv", t))
            else:
                n = fresh()
                m = mapof(m, close(bs + [(t, n)], g, "kv", el(t, n)))
        return m
    n = fresh()
    return mapof(MEMPTY, close([(v, n)], TRUE, "kv", el(v, n)))


def hashed(t):
    from interp import strip
    if t is None:
        return False
    t = strip(t)
    return t[0] == "adt" and t[1].split("::")[-1] in ("HashMap", "HashSet") and t[1].split("::")[0] in ("std", "hashbrown")


def is_hash(cs):
    return "hash" in cs.path and re.search(r"\bHash(Map|Set)\b", cs.path) is not None or hashed(cs.selft)


def entries_h(m):
    """The pairs of a hash map."""
    if m.op == "case":
        return mkcase([(g, entries_h(w)) for g, w in leaves(m)])
    if m.op in ("list", "str", "hashord"):
        return m
    if m.op == "mempty":
        return NIL
    ks = hashord(keys(m))
    n = fresh()
    return mklist(close([(ks, n)], TRUE, "one", tup(el(ks, n), get(m, el(ks, n)))))


def entries(m):
    """The list of (key, value) pairs of a map."""
    if m.op == "case":
        return mkcase([(g, entries(w)) for g, w in leaves(m)])
    if m.op in ("list", "str"):
        return m
    if m.op == "mempty":
        return NIL
    if m.op == "mapof" and m.a[0].op == "mempty" and len(m.a[1]) == 1:
        bs, g, k, t = open_cmp(m.a[1][0])
        import interp
        if not bs or len(bs) == 1 and interp.injective(fld(t, "0"), bs):
            return mklist(close(bs, g, "one", t))
    if m.op == "minsert" and m.a[0].op == "mempty":
        return push(NIL, tup(m.a[1], m.a[2]))
    ks = keys(m)
    n = fresh()
    return mklist(close([(ks, n)], TRUE, "one", tup(el(ks, n), get(m, el(ks, n)))))


def as_list(ip, st, v, t=None):
    """The sequence of items a value iterates over."""
    from interp import strip
    v = simp(v, st.g)
    if v.op == "case" and any(w.op in ("ptr",) for _, w in leaves(v)):
        return mkcase([(g, as_list(ip, st, w, t)) for g, w in leaves(v)])
    if v.op == "ptr":
        # &mut collection, or &mut iterator
        x = ip.load(st, v.a[0], v.a[1])
        k = cls(t) if t is not None else None
        if k == "vec":
            n = fresh()
            return mklist(close([(x, n)], TRUE, "one", mk("ptr", v.a[0], v.a[1] + (("i", pos(x, n)),)))) if x.op not in ("list",) \
                else mut_items(v, x)
        if k == "map":
            ks = hashord(keys(x)) if hashed(t) else keys(x)
            n = fresh()
            return mklist(close([(ks, n)], TRUE, "one", tup(el(ks, n), mk("ptr", v.a[0], v.a[1] + (("k", el(ks, n)),)))))
        if k == "option":
            return opt_list(mkcase([(IS_SOME(x), Some(mk("ptr", v.a[0], v.a[1] + (("f", "0", OPTION, "Some"),)))), (bnot(IS_SOME(x)), NONE)]))
        return as_list(ip, st, x, t)
    if v.op == "case":
        return mkcase([(g, as_list(ip, st, w, t)) for g, w in leaves(v)])
    if v.op == "rec":
        if v.a[0] == "core::ops::range::Range":
            return mk_range(fld(v, "start"), fld(v, "end"))
        if v.a[0] == "core::ops::range::RangeFrom":
            return mk("from", fld(v, "start"))
        if v.a[0] == OPTION:
            return opt_list(v)
        if v.a[0] == RESULT:
            return mkcase([(IS_OK(v), push(NIL, OKV(v))), (bnot(IS_OK(v)), NIL)])
    if t is not None:
        k = cls(t)
        if k == "map":
            return entries_h(v) if hashed(t) else entries(v)
        if k == "set":
            return hashord(mark_set(v)) if hashed(t) else mark_set(v)
        if k == "option":
            return opt_list(v)
        s = strip(t)
        if s[0] == "adt":
            b = s[1].split("::")[-1]
            if b == "Range" and s[1].startswith("core::ops"):
                return mk_range(fld(v, "start"), fld(v, "end"))
    return v


def mut_items(p, x):
    off = Int(0)
    out = []
    for c in x.a:
        bs, g, k, t = open_cmp(c)
        if g is not TRUE or len(bs) > 1 or bs and k != "one":
            n = fresh()
            L = mk("range", Int(0), len_(x))
            return mklist(close([(L, n)], TRUE, "one", mk("ptr", p.a[0], p.a[1] + (("i", el(L, n)),))))
        if k == "one" and not bs:
            out += close([], TRUE, "one", mk("ptr", p.a[0], p.a[1] + (("i", off),)))
            off = add(off, Int(1))
        elif k == "one":
            out += close(bs, TRUE, "one", mk("ptr", p.a[0], p.a[1] + (("i", add(off, pos(*bs[0]))),)))
            off = add(off, len_(bs[0][0]))
        else:
            n = fresh()
            out += close([(t, n)], TRUE, "one", mk("ptr", p.a[0], p.a[1] + (("i", add(off, pos(t, n))),)))
            off = add(off, len_(t))
    return mklist(out)


def mk_range(a, b):
    if a.op == "case" or b.op == "case":
        return relift("range", [a, b])
    if a.op == "int" and b.op == "int" and b.a[0] <= a.a[0]:
        return NIL
    return mk("range", a, b)


def opt_list(v):
    s = IS_SOME(v)
    if v.op == "case" or v.op == "rec":
        return mkcase([(g, push(NIL, SOME(w)) if IS_SOME(w) == 1 else (NIL if IS_SOME(w) == 0 else opt_list(w)))
                       for g, w in leaves(v)])
    return mklist(close([], B(s), "one", SOME(v)))


def it(ip, cs, i=0):
    t = None
    return as_list(ip, cs.st, cs.args[i], argty(ip, cs, i))


def argty(ip, cs, i):
    if cs.t is None:
        return cs.selft if i == 0 else None
    try:
        return ip.opty(cs.fr, cs.t[2][i])
    except Exception:
        return None


# ------------------------------------------------------------------------------- construction
@model("alloc::collections::btree::map::BTreeMap::new", "std::collections::hash::map::HashMap::new",
       "map.new", "map.with_capacity")
def _(ip, cs):
    return MEMPTY, cs.st


@model("set.new", "set.with_capacity")
def _(ip, cs):
    return EMPTY, cs.st


@model("vec.new", "vec.with_capacity", "str.new", "str.with_capacity")
def _(ip, cs):
    return NIL, cs.st


def default_of(ip, t, st):
    from interp import strip
    c = cls(t)
    if c == "map":
        return MEMPTY, st
    if c == "set":
        return EMPTY, st
    if c in ("vec", "str"):
        return NIL, st
    if c == "option":
        return NONE, st
    if c == "bool":
        return FALSE, st
    if c in ("usize", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "isize", "u128", "i128"):
        return Int(0), st
    t = strip(t)
    if t[0] == "tuple":
        vs = [default_of(ip, x, st)[0] for x in t[1]]
        return (tup(*vs) if vs else UNIT), st
    if t[0] == "adt":
        im = ip.find_impl("core::default::Default", t, [])
        if im:
            imd, env = im
            p = dict((a, b) for a, b in imd["items"]).get("default")
            if p in ip.fns:
                return ip.call_local(ip.fns[p], env, [], st)
    return mk("default", str(t)), st


@model("core::default::Default::default")
def _(ip, cs):
    return default_of(ip, cs.selft, cs.st)


@model("core::mem::take")
def _(ip, cs):
    p = cs.args[0]
    v = ip.loadp(cs.st, p)
    t = cs.targ(0)
    d, st = default_of(ip, t, cs.st)
    ip.storep(st, p, d)
    return v, st


@model("core::mem::replace")
def _(ip, cs):
    v = ip.loadp(cs.st, cs.args[0])
    ip.storep(cs.st, cs.args[0], cs.args[1])
    return v, cs.st


@model("core::mem::swap")
def _(ip, cs):
    a, b = ip.loadp(cs.st, cs.args[0]), ip.loadp(cs.st, cs.args[1])
    ip.storep(cs.st, cs.args[0], b)
    ip.storep(cs.st, cs.args[1], a)
    return UNIT, cs.st


@model("core::mem::drop", "core::mem::forget")
def _(ip, cs):
    return UNIT, cs.st


@model("alloc::boxed::Box::new_uninit")
def _(ip, cs):
    return mk("uninit"), cs.st


@model("alloc::boxed::box_assume_init_into_vec_unsafe", "alloc::boxed::Box::assume_init", "alloc::slice::into_vec")
def _(ip, cs):
    return cs.args[0], cs.st


@model("core::ops::drop::Drop::drop")
def _(ip, cs):
    return UNIT, cs.st


def copies(x, n):
    i = fresh()
    return mklist(close([(mk_range(Int(0), n), i)], TRUE, "one", x))


@model("core::iter::sources::repeat::repeat")
def _(ip, cs):
    return relift("repeat", [ip.deep(cs.st, cs.args[0])]), cs.st


@model("core::iter::sources::repeat_n::repeat_n")
def _(ip, cs):
    return copies(ip.deep(cs.st, cs.args[0]), cs.args[1]), cs.st


@model("alloc::vec::from_elem")
def _(ip, cs):
    v, n = val(ip, cs, 0), cs.args[1]
    if n.op == "int" and n.a[0] <= 8:
        return mklist([mk("cmp", (), TRUE, "one", v)] * n.a[0]), cs.st
    r = mk("range", Int(0), n)
    m = fresh()
    return mklist(close([(r, m)], TRUE, "one", v)), cs.st


@model("core::iter::sources::once::once")
def _(ip, cs):
    return push(NIL, cs.args[0]), cs.st


@model("core::iter::sources::empty::empty")
def _(ip, cs):
    return NIL, cs.st


@model("core::ops::range::RangeInclusive::new")
def _(ip, cs):
    return mk_range(cs.args[0], add(cs.args[1], Int(1))), cs.st


# ------------------------------------------------------------------------------- maps
@model("map.contains_key")
def _(ip, cs):
    return has(val(ip, cs, 0), val(ip, cs, 1)), cs.st


@model("map.get")
def _(ip, cs):
    return opt_get(val(ip, cs, 0), val(ip, cs, 1)), cs.st


@model("map.get_key_value")
def _(ip, cs):
    m, k = val(ip, cs, 0), val(ip, cs, 1)
    h = has(m, k)
    return mkcase([(h.a[0], Some(tup(k, get(m, k)))), (bnot(h.a[0]), NONE)]), cs.st


def ptr_into(ip, st, p, elem):
    return mkcase([(g, mk("ptr", w.a[0], w.a[1] + (elem,))) for g, w in leaves(p)])


@model("map.get_mut")
def _(ip, cs):
    p, k = simp(cs.args[0], cs.st.g), val(ip, cs, 1)
    h = has(ip.loadp(cs.st, p), k)
    return mkcase([(h.a[0], Some(ptr_into(ip, cs.st, p, ("k", k)))), (bnot(h.a[0]), NONE)]), cs.st


@model("map.insert")
def _(ip, cs):
    p, k, v = cs.args[0], ip.deep(cs.st, cs.args[1]), cs.args[2]
    m = ip.loadp(cs.st, p)
    ip.storep(cs.st, p, minsert(m, k, ip.deep(cs.st, v)))
    return opt_get(m, k), cs.st


@model("map.remove")
def _(ip, cs):
    p, k = cs.args[0], val(ip, cs, 1)
    m = ip.loadp(cs.st, p)
    h = has(m, k)
    ip.storep(cs.st, p, mremove(m, k))
    return opt_get(m, k), cs.st


@model("map.clear")
def _(ip, cs):
    ip.storep(cs.st, cs.args[0], MEMPTY)
    return UNIT, cs.st


@model("set.clear")
def _(ip, cs):
    ip.storep(cs.st, cs.args[0], EMPTY)
    return UNIT, cs.st


@model("map.keys", "map.into_keys")
def _(ip, cs):
    ks = keys(val(ip, cs, 0))
    return hashord(ks) if is_hash(cs) else ks, cs.st


def pick(lst, f):
    """Map a pure term function over a list value."""
    if lst.op == "case":
        return mkcase([(g, pick(v, f)) for g, v in leaves(lst)])
    out = []
    for p in list_segs(lst):
        bs, g, k, t = open_cmp(p)
        if k == "one":
            out += close(bs, g, k, f(t))
        else:
            n = fresh()
            out += close(bs + [(t, n)], g, "one", f(el(t, n)))
    return mklist(out)


@model("map.values", "map.into_values")
def _(ip, cs):
    return pick((entries_h if is_hash(cs) else entries)(val(ip, cs, 0)), lambda t: fld(t, "1")), cs.st


@model("map.values_mut", "map.iter_mut")
def _(ip, cs):
    p = simp(cs.args[0], cs.st.g)
    outs = []
    for g, w in leaves(p):
        m = ip.load(cs.st, w.a[0], w.a[1])
        ks = hashord(keys(m)) if is_hash(cs) else keys(m)
        n = fresh()
        q = mk("ptr", w.a[0], w.a[1] + (("k", el(ks, n)),))
        outs.append((g, mklist(close([(ks, n)], TRUE, "one", q if cs.name == "values_mut" else tup(el(ks, n), q)))))
    return mkcase(outs), cs.st


@model("map.iter", "map.into_iter")
def _(ip, cs):
    return (entries_h if is_hash(cs) else entries)(val(ip, cs, 0)), cs.st


@model("map.len")
def _(ip, cs):
    return len_(keys(val(ip, cs, 0))), cs.st


@model("map.first_key_value", "map.last_key_value")
def _(ip, cs):
    m = val(ip, cs, 0)
    ks = keys(m)
    g = nonempty(ks).a[0]
    k = index(ks, Int(0) if cs.name[0] == "f" else sub(len_(ks), Int(1)))
    return mkcase([(g, Some(tup(k, get(m, k)))), (bnot(g), NONE)]), cs.st


@model("map.pop_first", "map.pop_last")
def _(ip, cs):
    m = ip.loadp(cs.st, cs.args[0])
    ks = keys(m)
    g = nonempty(ks).a[0]
    k = index(ks, Int(0) if cs.name == "pop_first" else sub(len_(ks), Int(1)))
    ip.storep(cs.st, cs.args[0], mkcase([(g, mremove(m, k)), (bnot(g), m)]))
    return mkcase([(g, Some(tup(k, get(m, k)))), (bnot(g), NONE)]), cs.st


@model("map.remove_entry")
def _(ip, cs):
    m, k = ip.loadp(cs.st, cs.args[0]), val(ip, cs, 1)
    g = has(m, k).a[0]
    ip.storep(cs.st, cs.args[0], mkcase([(g, mremove(m, k)), (bnot(g), m)]))
    return mkcase([(g, Some(tup(k, get(m, k)))), (bnot(g), NONE)]), cs.st


@model("map.is_empty")
def _(ip, cs):
    return Not(nonempty(val(ip, cs, 0))), cs.st


@model("map.entry")
def _(ip, cs):
    p, k = cs.args[0], ip.deep(cs.st, cs.args[1])
    e = relift("entry", [p, k])
    adt = HENTRY if hashed(cs.selft) else ENTRY
    if not variants(adt) or p.op != "ptr":
        return e, cs.st
    # matched on: present or not
    h = has(ip.loadp(cs.st, p), k).a[0]
    return mkcase([(h, rec(adt, "Occupied", ("0",), (e,))), (bnot(h), rec(adt, "Vacant", ("0",), (e,)))]), cs.st


ENTRY = "alloc::collections::btree::map::entry::Entry"
HENTRY = "std::collections::hash::map::Entry"


def entry_of(e):
    """(map pointer, key) of an entry, or None."""
    p, ks = None, []
    for g, w in leaves(e):
        if w.op == "rec" and w.a[0] in (ENTRY, HENTRY):
            w = w.a[3][0]
        for g2, v in leaves(w):
            if v.op != "entry" or p is not None and v.a[0] is not p:
                return None
            p = v.a[0]
            ks.append((band(g, g2), v.a[1]))
    return p, mkcase(ks)


def entry_arg(ip, cs):
    v = cs.args[0]
    for _ in range(3):
        if v.op != "ptr":
            break
        v = ip.loadp(cs.st, v)
    return entry_of(simp(v, cs.st.g))


@model("occupied.get", "occupied.get_mut", "occupied.into_mut")
def _(ip, cs):
    e = entry_arg(ip, cs)
    return e and (ptr_into(ip, cs.st, e[0], ("k", e[1])), cs.st)


@model("occupied.key", "vacant.key", "vacant.into_key", "entry.key")
def _(ip, cs):
    e = entry_arg(ip, cs)
    return e and (e[1], cs.st)


@model("occupied.insert")
def _(ip, cs):
    e = entry_arg(ip, cs)
    if e is None:
        return None
    m = ip.loadp(cs.st, e[0])
    old = get(m, e[1])
    ip.storep(cs.st, e[0], minsert(m, e[1], ip.deep(cs.st, cs.args[1])))
    return old, cs.st


@model("occupied.remove", "occupied.remove_entry")
def _(ip, cs):
    e = entry_arg(ip, cs)
    if e is None:
        return None
    m = ip.loadp(cs.st, e[0])
    old = get(m, e[1])
    ip.storep(cs.st, e[0], mremove(m, e[1]))
    return old if cs.name == "remove" else tup(e[1], old), cs.st


@model("vacant.insert")
def _(ip, cs):
    e = entry_arg(ip, cs)
    if e is None:
        return None
    ip.storep(cs.st, e[0], minsert(ip.loadp(cs.st, e[0]), e[1], ip.deep(cs.st, cs.args[1])))
    return ptr_into(ip, cs.st, e[0], ("k", e[1])), cs.st


def or_insert(ip, cs, mkdefault):
    e = entry_arg(ip, cs)
    if e is None:
        return None
    p, k = e
    m = ip.loadp(cs.st, p)
    h = has(m, k).a[0]

    def absent(st):
        d, st2 = mkdefault(st)
        if st2 is None:
            return None, None
        st2 = st2.copy()
        ip.storep(st2, p, minsert(ip.loadp(st2, p), k, d))
        return UNIT, st2

    r, st = ip.branch(cs.st, h, lambda st: (UNIT, st), absent)
    if st is None:
        return None, None
    return ptr_into(ip, st, p, ("k", k)), st


@model("entry.or_default")
def _(ip, cs):
    from interp import strip_ref
    t = cs.dest()
    if t is None:
        return None
    return or_insert(ip, cs, lambda st: default_of(ip, strip_ref(t), st))


@model("entry.or_insert")
def _(ip, cs):
    return or_insert(ip, cs, lambda st: (cs.args[1], st))


@model("entry.or_insert_with")
def _(ip, cs):
    return or_insert(ip, cs, lambda st: ip.call_value(cs.args[1], [], st))


@model("entry.or_insert_with_key")
def _(ip, cs):
    e = entry_arg(ip, cs)
    return e and or_insert(ip, cs, lambda st: ip.call_value(cs.args[1], [e[1]], st))


@model("entry.and_modify")
def _(ip, cs):
    e = cs.args[0]
    pk = entry_arg(ip, cs)
    if pk is None:
        return None
    p, k = pk
    h = has(ip.loadp(cs.st, p), k).a[0]
    r, st = ip.branch(cs.st, h, lambda st: ip.call_value(cs.args[1], [ptr_into(ip, st, p, ("k", k))], st), lambda st: (UNIT, st))
    return e, st


@model("map.retain")
def _(ip, cs):
    from interp import Unmodelled
    p = cs.args[0]
    m = ip.loadp(cs.st, p)
    ks = keys(m)

    def f(st, e):
        st = st.copy()
        c = ip.cell(st, get(m, e))
        r, st2 = ip.call_value(cs.args[1], [e, c], st)
        if st2 is None:
            return None, None
        v = st2.mem[c.a[0]]
        return mklist(close([], tobool(r), "one", tup(e, v))), st2
    r, st = ip.comp(cs.st, ks, f)
    if st is None:
        return None, None
    ip.storep(st, p, to_map(r))
    return UNIT, st


@model("core::ops::index::Index::index")
def _(ip, cs):
    v, i = val(ip, cs, 0), val(ip, cs, 1)
    k = cls(cs.selft)
    st = cs.st
    if k == "map":
        st.g = band(st.g, has(v, i).a[0])
        return get(v, i), st
    if k in ("vec", "str"):
        return vec_index(ip, st, v, i)
    if k in ("param", "other"):
        return relift("ext", ["index", v, i]), st
    return None


def rng(v, i):
    """(lo, hi) of a range used to slice v, or None for a plain index"""
    if i.op == "rec" and i.a[0] and i.a[0].startswith("core::ops::range::"):
        n = i.a[0].split("::")[-1]
        if n == "Range":
            return fld(i, "start"), fld(i, "end")
        if n == "RangeFrom":
            return fld(i, "start"), len_(v)
        if n == "RangeTo":
            return Int(0), fld(i, "end")
        if n == "RangeFull":
            return Int(0), len_(v)
        if n == "RangeToInclusive":
            return Int(0), add(fld(i, "end"), Int(1))
    if i.op == "range":
        return i.a[0], i.a[1]
    return None


def vec_index(ip, st, v, i):
    if i.op == "case":
        outs, rets = [], []
        from interp import merge, State
        for g, w in leaves(i):
            if band(st.g, g):
                r, s = vec_index(ip, State(band(st.g, g), dict(st.mem)), v, w)
                outs.append(s)
                rets.append((s.g, r))
        m = merge(outs)
        return mkcase(rets), m
    r = rng(v, i)
    if r:
        lo, hi = r
        st.g = band(st.g, And(le(lo, hi), le(hi, len_(v))).a[0])
        return slice_(v, lo, hi), st
    st.g = band(st.g, lt(i, len_(v)).a[0])
    return index(v, i), st


@model("core::ops::index::IndexMut::index_mut")
def _(ip, cs):
    p, i = simp(cs.args[0], cs.st.g), val(ip, cs, 1)
    v = ip.loadp(cs.st, p)
    st = cs.st
    r = rng(v, i)
    if r:
        lo, hi = r
        st.g = band(st.g, And(le(lo, hi), le(hi, len_(v))).a[0])
        return ptr_into(ip, st, p, ("s", lo, hi)), st
    st.g = band(st.g, lt(i, len_(v)).a[0])
    return ptr_into(ip, st, p, ("i", i)), st


# ------------------------------------------------------------------------------- sets
@model("set.contains")
def _(ip, cs):
    return in_(val(ip, cs, 1), mark_set(val(ip, cs, 0))), cs.st


@model("set.get")
def _(ip, cs):
    s, x = mark_set(val(ip, cs, 0)), val(ip, cs, 1)
    h = in_(x, s).a[0]
    return mkcase([(h, Some(x)), (bnot(h), NONE)]), cs.st


@model("set.take")
def _(ip, cs):
    s, x = ip.loadp(cs.st, cs.args[0]), val(ip, cs, 1)
    h = in_(x, s).a[0]
    ip.storep(cs.st, cs.args[0], mkcase([(h, sminus(s, x)), (bnot(h), s)]))
    return mkcase([(h, Some(x)), (bnot(h), NONE)]), cs.st


@model("set.insert", "set.replace")
def _(ip, cs):
    s, x = ip.loadp(cs.st, cs.args[0]), ip.deep(cs.st, cs.args[1])
    h = in_(x, s)
    ip.storep(cs.st, cs.args[0], sinsert(s, x))
    if cs.name == "replace":
        return mkcase([(h.a[0], Some(x)), (bnot(h.a[0]), NONE)]), cs.st
    return Not(h), cs.st


@model("set.remove")
def _(ip, cs):
    s, x = ip.loadp(cs.st, cs.args[0]), val(ip, cs, 1)
    h = in_(x, s)
    ip.storep(cs.st, cs.args[0], sminus(s, x))
    return h, cs.st


@model("set.is_empty")
def _(ip, cs):
    return Not(nonempty(val(ip, cs, 0))), cs.st


@model("vec.is_empty", "str.is_empty")
def _(ip, cs):
    return Not(nonempty(val(ip, cs, 0))), cs.st


@model("set.len", "vec.len", "str.len")
def _(ip, cs):
    return len_(val(ip, cs, 0)), cs.st


@model("set.iter", "set.into_iter", "vec.iter", "vec.into_iter", "str.chars")
def _(ip, cs):
    v = val(ip, cs, 0)
    if cs.path.endswith("Set::iter"):
        mark_set(v)
        if is_hash(cs):
            v = hashord(v)
    return v, cs.st


@model("vec.iter_mut")
def _(ip, cs):
    return as_list(ip, cs.st, cs.args[0], ("slice", ("param", "_"))), cs.st


def filt(s, pred):
    """{x in s : pred x} for a pure term predicate (guard term)."""
    out = []
    for p in parts_under(s):
        bs, g, k, t = open_cmp(p)
        if k == "single":
            out += close(bs, And(g, pred(t)), k, t)
        else:
            n = fresh()
            out += close(bs + [(t, n)], And(g, pred(el(t, n))), "single", el(t, n))
    return mkset(out)


@model("set.difference", "core::ops::arith::Sub::sub")
def _(ip, cs):
    a, b = val(ip, cs, 0), val(ip, cs, 1)
    return filt(a, lambda x: Not(in_(x, b))), cs.st


@model("set.intersection", "core::ops::bit::BitAnd::bitand")
def _(ip, cs):
    a, b = val(ip, cs, 0), val(ip, cs, 1)
    return filt(a, lambda x: in_(x, b)), cs.st


@model("set.union", "core::ops::bit::BitOr::bitor")
def _(ip, cs):
    return union(val(ip, cs, 0), val(ip, cs, 1)), cs.st


@model("set.is_subset")
def _(ip, cs):
    a, b = val(ip, cs, 0), val(ip, cs, 1)
    return Not(nonempty(filt(a, lambda x: Not(in_(x, b))))), cs.st


@model("set.is_superset")
def _(ip, cs):
    b, a = val(ip, cs, 0), val(ip, cs, 1)
    return Not(nonempty(filt(a, lambda x: Not(in_(x, b))))), cs.st


@model("set.is_disjoint")
def _(ip, cs):
    a, b = val(ip, cs, 0), val(ip, cs, 1)
    return Not(nonempty(filt(a, lambda x: in_(x, b)))), cs.st


@model("set.append")
def _(ip, cs):
    a, b = ip.loadp(cs.st, cs.args[0]), ip.loadp(cs.st, cs.args[1])
    ip.storep(cs.st, cs.args[0], union(a, b))
    ip.storep(cs.st, cs.args[1], EMPTY)
    return UNIT, cs.st


@model("set.pop_first", "set.pop_last")
def _(ip, cs):
    s = mark_set(ip.loadp(cs.st, cs.args[0]))
    g = nonempty(s).a[0]
    if cs.name == "pop_first":
        x, rest = index(s, Int(0)), slice_(s, Int(1), len_(s))
    else:
        x, rest = index(s, sub(len_(s), Int(1))), slice_(s, Int(0), sub(len_(s), Int(1)))
    ip.storep(cs.st, cs.args[0], mkcase([(g, rest), (bnot(g), EMPTY)]))
    return mkcase([(g, Some(x)), (bnot(g), NONE)]), cs.st


@model("set.first", "vec.first")
def _(ip, cs):
    return opt_head(val(ip, cs, 0)), cs.st


@model("set.last", "vec.last")
def _(ip, cs):
    v = val(ip, cs, 0)
    g = nonempty(v).a[0]
    return mkcase([(g, Some(index(v, sub(len_(v), Int(1))))), (bnot(g), NONE)]), cs.st


@model("set.retain")
def _(ip, cs):
    p = cs.args[0]
    s = ip.loadp(cs.st, p)

    def f(st, e):
        r, st2 = ip.call_value(cs.args[1], [e], st)
        if st2 is None:
            return None, None
        return mklist(close([], tobool(r), "one", e)), st2
    r, st = ip.comp(cs.st, s, f)
    if st is None:
        return None, None
    ip.storep(st, p, toset(r))
    return UNIT, st


@model("vec.retain")
def _(ip, cs):
    p = cs.args[0]
    s = ip.loadp(cs.st, p)

    def f(st, e):
        r, st2 = ip.call_value(cs.args[1], [e], st)
        if st2 is None:
            return None, None
        return mklist(close([], tobool(r), "one", e)), st2
    r, st = ip.comp(cs.st, s, f)
    if st is None:
        return None, None
    ip.storep(st, p, r)
    return UNIT, st


# ------------------------------------------------------------------------------- vectors
@model("vec.push", "vec.push_back")
def _(ip, cs):
    v = ip.loadp(cs.st, cs.args[0])
    x = ip.deep(cs.st, cs.args[1]) if cs.args[1].op != "ptr" else cs.args[1]
    ip.storep(cs.st, cs.args[0], push(v, x))
    return UNIT, cs.st


@model("vec.pop", "vec.pop_back")
def _(ip, cs):
    v = ip.loadp(cs.st, cs.args[0])
    g = nonempty(v).a[0]
    n = sub(len_(v), Int(1))
    ip.storep(cs.st, cs.args[0], mkcase([(g, slice_(v, Int(0), n)), (bnot(g), NIL)]))
    return mkcase([(g, Some(index(v, n))), (bnot(g), NONE)]), cs.st


@model("vec.pop_front")
def _(ip, cs):
    v = ip.loadp(cs.st, cs.args[0])
    g = nonempty(v).a[0]
    ip.storep(cs.st, cs.args[0], mkcase([(g, slice_(v, Int(1), len_(v))), (bnot(g), NIL)]))
    return opt_head(v), cs.st


@model("vec.front")
def _(ip, cs):
    return opt_head(val(ip, cs, 0)), cs.st


@model("vec.back")
def _(ip, cs):
    v = val(ip, cs, 0)
    g = nonempty(v).a[0]
    return mkcase([(g, Some(index(v, sub(len_(v), Int(1))))), (bnot(g), NONE)]), cs.st


@model("vec.push_front")
def _(ip, cs):
    v = ip.loadp(cs.st, cs.args[0])
    x = ip.deep(cs.st, cs.args[1]) if cs.args[1].op != "ptr" else cs.args[1]
    ip.storep(cs.st, cs.args[0], concat(push(NIL, x), v))
    return UNIT, cs.st


@model("str.pop")
def _(ip, cs):
    v = ip.loadp(cs.st, cs.args[0])
    g = nonempty(v).a[0]
    n = sub(len_(v), Int(1))
    ip.storep(cs.st, cs.args[0], mkcase([(g, slice_(v, Int(0), n)), (bnot(g), NIL)]))
    return mkcase([(g, Some(index(v, n))), (bnot(g), NONE)]), cs.st


@model("str.contains", "str.starts_with", "str.ends_with", "str.eq_ignore_ascii_case")
def _(ip, cs):
    x, y = val(ip, cs, 0), val(ip, cs, 1)
    if y.op not in ("str", "list", "fld", "pay", "arg", "el", "index", "get", "case"):
        return None
    return strtest(cs.name, x, y), cs.st


def strtest(how, x, y):
    """What is asked of a text, by another text; only what is plain is worked out."""
    for i, z in enumerate((x, y)):
        if z.op == "case":
            return mkcase([(g, strtest(how, w if i == 0 else x, w if i == 1 else y)) for g, w in leaves(z)])
    if x.op == y.op == "str":
        a, b = x.a[0], y.a[0]
        return TRUE if {"contains": b in a, "starts_with": a.startswith(b), "ends_with": a.endswith(b),
                        "eq_ignore_ascii_case": a.lower() == b.lower()}[how] else FALSE
    if y is NIL and how != "eq_ignore_ascii_case" or x is y:
        return TRUE
    return atom(mk("strtest", how, x, y))


REBUILD["strtest"] = strtest


@model("vec.clear", "str.clear")
def _(ip, cs):
    ip.storep(cs.st, cs.args[0], NIL)
    return UNIT, cs.st


@model("vec.truncate")
def _(ip, cs):
    v = ip.loadp(cs.st, cs.args[0])
    n = cs.args[1]
    c = le(n, len_(v)).a[0]
    ip.storep(cs.st, cs.args[0], mkcase([(c, slice_(v, Int(0), n)), (bnot(c), v)]))
    return UNIT, cs.st


@model("vec.split_off")
def _(ip, cs):
    v = ip.loadp(cs.st, cs.args[0])
    n = cs.args[1]
    cs.st.g = band(cs.st.g, le(n, len_(v)).a[0])
    ip.storep(cs.st, cs.args[0], slice_(v, Int(0), n))
    return slice_(v, n, len_(v)), cs.st


@model("vec.drain")
def _(ip, cs):
    v = ip.loadp(cs.st, cs.args[0])
    r = rng(v, val(ip, cs, 1))
    if not r:
        return None
    lo, hi = r
    cs.st.g = band(cs.st.g, And(le(lo, hi), le(hi, len_(v))).a[0])
    ip.storep(cs.st, cs.args[0], concat(slice_(v, Int(0), lo), slice_(v, hi, len_(v))))
    return slice_(v, lo, hi), cs.st


@model("vec.insert")
def _(ip, cs):
    v = ip.loadp(cs.st, cs.args[0])
    i = cs.args[1]
    cs.st.g = band(cs.st.g, le(i, len_(v)).a[0])
    ip.storep(cs.st, cs.args[0], concat(push(slice_(v, Int(0), i), cs.args[2]), slice_(v, i, len_(v))))
    return UNIT, cs.st


@model("vec.remove")
def _(ip, cs):
    v = ip.loadp(cs.st, cs.args[0])
    i = cs.args[1]
    cs.st.g = band(cs.st.g, lt(i, len_(v)).a[0])
    ip.storep(cs.st, cs.args[0], concat(slice_(v, Int(0), i), slice_(v, add(i, Int(1)), len_(v))))
    return index(v, i), cs.st


@model("vec.swap_remove")
def _(ip, cs):
    v = ip.loadp(cs.st, cs.args[0])
    i = cs.args[1]
    cs.st.g = band(cs.st.g, lt(i, len_(v)).a[0])
    n = sub(len_(v), Int(1))
    e = eq0(sub(i, n)).a[0]
    rest = slice_(v, Int(0), n)
    ip.storep(cs.st, cs.args[0], mkcase([(e, rest), (bnot(e), vset(rest, i, index(v, n)))]))
    return index(v, i), cs.st


@model("vec.append")
def _(ip, cs):
    a, b = ip.loadp(cs.st, cs.args[0]), ip.loadp(cs.st, cs.args[1])
    ip.storep(cs.st, cs.args[0], concat(a, b))
    ip.storep(cs.st, cs.args[1], NIL)
    return UNIT, cs.st


@model("vec.extend_from_slice")
def _(ip, cs):
    a, b = ip.loadp(cs.st, cs.args[0]), val(ip, cs, 1)
    ip.storep(cs.st, cs.args[0], concat(a, b))
    return UNIT, cs.st


@model("vec.reserve", "vec.shrink_to_fit", "str.reserve")
def _(ip, cs):
    return UNIT, cs.st


@model("vec.get")
def _(ip, cs):
    v, i = val(ip, cs, 0), val(ip, cs, 1)
    r = rng(v, i)
    if r:
        lo, hi = r
        g = And(le(lo, hi), le(hi, len_(v))).a[0]
        return mkcase([(g, Some(slice_(v, lo, hi))), (bnot(g), NONE)]), cs.st
    return opt_index(v, i), cs.st


@model("vec.get_mut")
def _(ip, cs):
    p, i = simp(cs.args[0], cs.st.g), val(ip, cs, 1)
    v = ip.loadp(cs.st, p)
    g = lt(i, len_(v)).a[0]
    return mkcase([(g, Some(ptr_into(ip, cs.st, p, ("i", i)))), (bnot(g), NONE)]), cs.st


@model("vec.last_mut", "vec.first_mut")
def _(ip, cs):
    p = simp(cs.args[0], cs.st.g)
    v = ip.loadp(cs.st, p)
    g = nonempty(v).a[0]
    i = sub(len_(v), Int(1)) if cs.name == "last_mut" else Int(0)
    return mkcase([(g, Some(ptr_into(ip, cs.st, p, ("i", i)))), (bnot(g), NONE)]), cs.st


@model("vec.contains")
def _(ip, cs):
    return in_(val(ip, cs, 1), val(ip, cs, 0)), cs.st


@model("vec.split_at")
def _(ip, cs):
    v, i = val(ip, cs, 0), cs.args[1]
    cs.st.g = band(cs.st.g, le(i, len_(v)).a[0])
    return tup(slice_(v, Int(0), i), slice_(v, i, len_(v))), cs.st


@model("vec.split_last", "vec.split_first")
def _(ip, cs):
    v = val(ip, cs, 0)
    g = nonempty(v).a[0]
    n = sub(len_(v), Int(1))
    if cs.name == "split_last":
        r = tup(index(v, n), slice_(v, Int(0), n))
    else:
        r = tup(index(v, Int(0)), slice_(v, Int(1), len_(v)))
    return mkcase([(g, Some(r)), (bnot(g), NONE)]), cs.st


@model("vec.windows")
def _(ip, cs):
    v, n = val(ip, cs, 0), cs.args[1]
    if n.op != "int" or v.op == "case":
        return None
    m = fresh()
    w = NIL
    for j in range(n.a[0]):
        w = push(w, index(v, add(pos(v, m), Int(j))) if j else el(v, m))
    return mklist(close([(v, m)], lt(add(pos(v, m), Int(n.a[0] - 1)), len_(v)), "one", w)), cs.st


@model("vec.concat")
def _(ip, cs):
    return flatten(val(ip, cs, 0)), cs.st


@model("vec.join")
def _(ip, cs):
    return relift("join", [val(ip, cs, 0), val(ip, cs, 1)]), cs.st


@model("vec.starts_with")
def _(ip, cs):
    return None


@model("vec.swap")
def _(ip, cs):
    v = ip.loadp(cs.st, cs.args[0])
    i, j = cs.args[1], cs.args[2]
    cs.st.g = band(cs.st.g, And(lt(i, len_(v)), lt(j, len_(v))).a[0])
    ip.storep(cs.st, cs.args[0], vset(vset(v, i, index(v, j)), j, index(v, i)))
    return UNIT, cs.st


def flatten(v):
    if v.op == "case":
        return mkcase([(g, flatten(w)) for g, w in leaves(v)])
    out = []
    for p in list_segs(v):
        bs, g, k, t = open_cmp(p)
        if k == "one":
            out += close(bs, g, "syml", t)
        else:
            n = fresh()
            out += close(bs + [(t, n)], g, "syml", el(t, n))
    return mklist(out)


# ------------------------------------------------------------------------------- strings
@model("str.push_str")
def _(ip, cs):
    v = ip.loadp(cs.st, cs.args[0])
    ip.storep(cs.st, cs.args[0], concat(v, val(ip, cs, 1)))
    return UNIT, cs.st


@model("str.push")
def _(ip, cs):
    v = ip.loadp(cs.st, cs.args[0])
    ip.storep(cs.st, cs.args[0], concat(v, disp(val(ip, cs, 1))))
    return UNIT, cs.st


@model("str.strip_prefix", "str.strip_suffix")
def _(ip, cs):
    s, p = val(ip, cs, 0), val(ip, cs, 1)
    h = atom(relift(cs.name + "?", [s, p])) if s.op != "case" else None
    if h is None:
        return None
    return mkcase([(h.a[0], Some(mk(cs.name, s, p))), (bnot(h.a[0]), NONE)]), cs.st


@model("str.repeat", "alloc::str::repeat")
def _(ip, cs):
    return relift("srepeat", [val(ip, cs, 0), val(ip, cs, 1)]), cs.st


@model("str.to_string", "str.to_owned")
def _(ip, cs):
    return val(ip, cs, 0), cs.st


@model("alloc::string::ToString::to_string")
def _(ip, cs):
    return fmt_arg(ip, cs.st, "display", cs.args[0], cs.selft)


def disp(v):
    if v.op == "case":
        return mkcase([(g, disp(w)) for g, w in leaves(v)])
    if v.op == "int":
        return Str(str(v.a[0]))
    if v.op in ("str", "list"):
        return v
    return v


# ------------------------------------------------------------------------------- formatting
def fmt_arg(ip, st, how, v, t):
    """The text of a formatted argument -> (list value, state)"""
    from interp import strip
    v = ip.deep(st, v)
    s = strip(t) if t is not None else ("other", "?")
    if how == "display":
        if cls(t) == "str" or s == ("prim", "char"):
            return v, st
        if s[0] == "adt" and s[1] == "core::fmt::Arguments":
            return v, st
        if s[0] == "prim":
            # of numbers and truth values both forms are the same
            return (Str(str(v.a[0])) if v.op == "int" else relift("dbg", [v])), st
        if s[0] == "adt":
            r = local_fmt(ip, st, "core::fmt::Display", v, s)
            if r is not None:
                return r
        return relift("disp", [v]), st
    if how == "debug":
        if s[0] == "adt":
            r = local_fmt(ip, st, "core::fmt::Debug", v, s)
            if r is not None:
                return r
            if s[1].startswith("core::ops::range::Range") and s[1].endswith("Range") and v.op in ("range", "rec"):
                a, st = fmt_arg(ip, st, how, fld(v, "start") if v.op == "rec" else v.a[0], s[2][0])
                b, st = fmt_arg(ip, st, how, fld(v, "end") if v.op == "rec" else v.a[1], s[2][0])
                return concat(concat(a, Str("..")), b), st
        if s[0] == "prim" and s[1] not in ("char", "str", "f32", "f64"):
            return fmt_arg(ip, st, "display", v, t)
        return relift("dbg", [v]), st
    return relift("fmt:" + how, [v]), st


def local_fmt(ip, st, trait, v, t):
    im = ip.find_impl(trait, t, [])
    if im is None or im[0]["derived"]:
        return None
    p = dict((a, b) for a, b in im[0]["items"]).get("fmt")
    if p not in ip.fns or p in ip.stack:
        return None
    st = st.copy()
    c = ip.cell(st, NIL)
    r, s2 = ip.call_local(ip.fns[p], im[1], [v, c], st)
    if s2 is None:
        return None
    out = s2.mem[c.a[0]]
    s2 = s2.copy()
    s2.mem.pop(c.a[0])
    return out, s2


@model("core::fmt::rt::Argument::new_display", "core::fmt::rt::Argument::new_debug", "core::fmt::rt::Argument::new_lower_hex",
       "core::fmt::rt::Argument::new_upper_hex")
def _(ip, cs):
    how = cs.name[4:]
    r, st = fmt_arg(ip, cs.st, how, cs.args[0], cs.targ(len(cs.c["args"]) - 1))
    return relift("farg", [r]), st


@model("core::fmt::Arguments::from_str")
def _(ip, cs):
    return val(ip, cs, 0), cs.st


@model("core::fmt::Arguments::new")
def _(ip, cs):
    t, args = val(ip, cs, 0), val(ip, cs, 1)
    if t.op != "bytes":
        return None
    b = list(t.a[0])
    out = NIL
    i, nxt = 0, 0
    lit = bytearray()

    def arg(n):
        x = index(args, Int(n))
        return mkcase([(g, w.a[0] if w.op == "farg" else relift("fargof", [w])) for g, w in leaves(x)])

    while i < len(b):
        c = b[i]
        i += 1
        if c == 0:
            break
        if c < 0x80:
            lit += bytes(b[i:i + c])
            i += c
        elif c == 0x80:
            n = b[i] | b[i + 1] << 8
            i += 2
            lit += bytes(b[i:i + n])
            i += n
        else:
            if lit:
                out = concat(out, Str(lit.decode("utf8", "replace")))
                lit = bytearray()
            flags = width = prec = None
            if c & 1:
                flags = tuple(b[i:i + 4])
                i += 4
            if c & 2:
                width = tuple(b[i:i + 2])
                i += 2
            if c & 4:
                prec = tuple(b[i:i + 2])
                i += 2
            if c & 8:
                nxt = b[i] | b[i + 1] << 8
                i += 2
            x = arg(nxt)
            nxt += 1
            if flags is not None or width is not None or prec is not None:
                x = relift("fopts", [x, str((flags, width, prec, c & 0x30))])
            out = concat(out, x)
    if lit:
        out = concat(out, Str(lit.decode("utf8", "replace")))
    return out, cs.st


@model("alloc::fmt::format", "core::fmt::Arguments::to_string")
def _(ip, cs):
    return val(ip, cs, 0), cs.st


@model("core::fmt::Write::write_fmt", "core::fmt::Formatter::write_fmt", "core::fmt::Formatter::write_str",
       "core::fmt::Write::write_str", "core::fmt::Write::write_char", "core::fmt::write")
def _(ip, cs):
    v = ip.loadp(cs.st, cs.args[0])
    x = val(ip, cs, 1)
    pa = ip.ptr_alts(simp(cs.args[0], cs.st.g))
    if pa is None:
        return None
    ip.storep(cs.st, cs.args[0], concat(v, x))
    return Ok(UNIT), cs.st


@model("core::fmt::Display::fmt", "core::fmt::Debug::fmt")
def _(ip, cs):
    how = "display" if "Display" in cs.path else "debug"
    r, st = fmt_arg(ip, cs.st, how, cs.args[0], cs.selft)
    ip.storep(st, cs.args[1], concat(ip.loadp(st, cs.args[1]), r))
    return Ok(UNIT), st


@model("std::io::stdio::_eprint", "std::io::stdio::_print")
def _(ip, cs):
    st = cs.st
    if ip.world:
        st = st.copy()
        x = val(ip, cs, 0)
        ip.emit(st, x if cs.path.endswith("_print") and not cs.path.endswith("_eprint") else
                mklist([mk("cmp", (), TRUE, "one", relift("ext", [cs.path, x]))]))
    return UNIT, st


# ------------------------------------------------------------------------------- options, results
@model("option.is_some")
def _(ip, cs):
    return B(IS_SOME(val(ip, cs, 0))), cs.st


@model("option.is_none")
def _(ip, cs):
    return B(bnot(IS_SOME(val(ip, cs, 0)))), cs.st


@model("result.is_ok")
def _(ip, cs):
    return B(IS_OK(val(ip, cs, 0))), cs.st


@model("result.is_err")
def _(ip, cs):
    return B(bnot(IS_OK(val(ip, cs, 0)))), cs.st


@model("option.unwrap", "option.expect", "option.unwrap_unchecked")
def _(ip, cs):
    v = val(ip, cs, 0)
    cs.st.g = band(cs.st.g, IS_SOME(v))
    return simp(SOME(v), cs.st.g), cs.st


@model("result.unwrap", "result.expect")
def _(ip, cs):
    v = val(ip, cs, 0)
    cs.st.g = band(cs.st.g, IS_OK(v))
    return simp(OKV(v), cs.st.g), cs.st


@model("result.unwrap_err", "result.expect_err")
def _(ip, cs):
    v = val(ip, cs, 0)
    cs.st.g = band(cs.st.g, bnot(IS_OK(v)))
    return simp(ERRV(v), cs.st.g), cs.st


@model("option.unwrap_or")
def _(ip, cs):
    v = val(ip, cs, 0)
    n = IS_SOME(v)
    return mkcase([(n, SOME(v)), (bnot(n), cs.args[1])]), cs.st


@model("result.unwrap_or")
def _(ip, cs):
    v = val(ip, cs, 0)
    n = IS_OK(v)
    return mkcase([(n, OKV(v)), (bnot(n), cs.args[1])]), cs.st


@model("option.unwrap_or_default")
def _(ip, cs):
    v = val(ip, cs, 0)
    n = IS_SOME(v)
    return ip.branch(cs.st, n, lambda st: (SOME(v), st), lambda st: default_of(ip, cs.dest() or ("other",), st))


@model("option.unwrap_or_else")
def _(ip, cs):
    v = val(ip, cs, 0)
    return ip.branch(cs.st, IS_SOME(v), lambda st: (SOME(v), st), lambda st: ip.call_value(cs.args[1], [], st))


@model("result.unwrap_or_else")
def _(ip, cs):
    v = val(ip, cs, 0)
    return ip.branch(cs.st, IS_OK(v), lambda st: (OKV(v), st), lambda st: ip.call_value(cs.args[1], [ERRV(v)], st))


@model("option.map")
def _(ip, cs):
    v = val(ip, cs, 0)
    return ip.branch(cs.st, IS_SOME(v), lambda st: then(ip.call_value(cs.args[1], [simp(SOME(v), st.g)], st), Some), lambda st: (NONE, st))


def then(r, f):
    v, st = r
    if st is None:
        return None, None
    return f(v), st


@model("result.map")
def _(ip, cs):
    v = val(ip, cs, 0)
    return ip.branch(cs.st, IS_OK(v), lambda st: then(ip.call_value(cs.args[1], [simp(OKV(v), st.g)], st), Ok), lambda st: (Err(ERRV(v)), st))


@model("result.map_err")
def _(ip, cs):
    v = val(ip, cs, 0)
    return ip.branch(cs.st, IS_OK(v), lambda st: (Ok(OKV(v)), st), lambda st: then(ip.call_value(cs.args[1], [simp(ERRV(v), st.g)], st), Err))


@model("core::bool::then")
def _(ip, cs):
    n = tobool(cs.args[0]).a[0]
    return ip.branch(cs.st, n, lambda st: then(ip.call_value(cs.args[1], [], st), Some), lambda st: (NONE, st))


@model("core::bool::then_some")
def _(ip, cs):
    n = tobool(cs.args[0]).a[0]
    return mkcase([(n, Some(cs.args[1])), (bnot(n), NONE)]), cs.st


@model("option.flatten")
def _(ip, cs):
    v = val(ip, cs, 0)
    n = IS_SOME(v)
    return mkcase([(n, SOME(v)), (bnot(n), NONE)]), cs.st


@model("option.map_or")
def _(ip, cs):
    v = val(ip, cs, 0)
    return ip.branch(cs.st, IS_SOME(v), lambda st: ip.call_value(cs.args[2], [simp(SOME(v), st.g)], st), lambda st: (cs.args[1], st))


@model("option.map_or_else")
def _(ip, cs):
    v = val(ip, cs, 0)
    return ip.branch(cs.st, IS_SOME(v), lambda st: ip.call_value(cs.args[2], [simp(SOME(v), st.g)], st),
                     lambda st: ip.call_value(cs.args[1], [], st))


@model("result.map_or_else")
def _(ip, cs):
    v = val(ip, cs, 0)
    return ip.branch(cs.st, IS_OK(v), lambda st: ip.call_value(cs.args[2], [simp(OKV(v), st.g)], st),
                     lambda st: ip.call_value(cs.args[1], [simp(ERRV(v), st.g)], st))


@model("option.is_some_and")
def _(ip, cs):
    v = val(ip, cs, 0)
    return ip.branch(cs.st, IS_SOME(v), lambda st: ip.call_value(cs.args[1], [simp(SOME(v), st.g)], st), lambda st: (FALSE, st))


@model("result.is_ok_and")
def _(ip, cs):
    v = val(ip, cs, 0)
    return ip.branch(cs.st, IS_OK(v), lambda st: ip.call_value(cs.args[1], [simp(OKV(v), st.g)], st), lambda st: (FALSE, st))


@model("result.is_err_and")
def _(ip, cs):
    v = val(ip, cs, 0)
    return ip.branch(cs.st, IS_OK(v), lambda st: (FALSE, st), lambda st: ip.call_value(cs.args[1], [simp(ERRV(v), st.g)], st))


@model("result.map_or")
def _(ip, cs):
    v = val(ip, cs, 0)
    return ip.branch(cs.st, IS_OK(v), lambda st: ip.call_value(cs.args[2], [simp(OKV(v), st.g)], st), lambda st: (cs.args[1], st))


@model("result.or_else")
def _(ip, cs):
    v = val(ip, cs, 0)
    return ip.branch(cs.st, IS_OK(v), lambda st: (Ok(OKV(v)), st), lambda st: ip.call_value(cs.args[1], [simp(ERRV(v), st.g)], st))


@model("result.and")
def _(ip, cs):
    v = val(ip, cs, 0)
    n = IS_OK(v)
    return mkcase([(n, cs.args[1]), (bnot(n), Err(ERRV(v)))]), cs.st


@model("result.or")
def _(ip, cs):
    v = val(ip, cs, 0)
    n = IS_OK(v)
    return mkcase([(n, Ok(OKV(v))), (bnot(n), cs.args[1])]), cs.st


@model("result.inspect", "option.inspect", "result.inspect_err")
def _(ip, cs):
    v = cs.args[0]
    w = val(ip, cs, 0)
    n, x = (IS_SOME(w), SOME) if "Option" in cs.path else (IS_OK(w), OKV)
    if cs.name == "inspect_err":
        n, x = bnot(n), ERRV
    _, st = ip.branch(cs.st, n, lambda st: ip.call_value(cs.args[1], [simp(x(w), st.g)], st), lambda st: (UNIT, st))
    return v, st


@model("option.transpose", "result.transpose")
def _(ip, cs):
    v = val(ip, cs, 0)
    if "Option" in cs.path:
        n, w = IS_SOME(v), SOME(v)
        k = IS_OK(w)
        return mkcase([(bnot(n), Ok(NONE)), (band(n, k), Ok(Some(OKV(w)))), (band(n, bnot(k)), Err(ERRV(w)))]), cs.st
    n, w = IS_OK(v), OKV(v)
    k = IS_SOME(w)
    return mkcase([(bnot(n), Some(Err(ERRV(v)))), (band(n, k), Some(Ok(SOME(w)))), (band(n, bnot(k)), NONE)]), cs.st


@model("option.iter", "result.iter")
def _(ip, cs):
    return as_list(ip, cs.st, val(ip, cs, 0), ("adt", OPTION if "Option" in cs.path else RESULT, ())), cs.st


@model("option.is_none_or")
def _(ip, cs):
    v = val(ip, cs, 0)
    return ip.branch(cs.st, IS_SOME(v), lambda st: ip.call_value(cs.args[1], [simp(SOME(v), st.g)], st), lambda st: (TRUE, st))


@model("option.and_then")
def _(ip, cs):
    v = val(ip, cs, 0)
    return ip.branch(cs.st, IS_SOME(v), lambda st: ip.call_value(cs.args[1], [simp(SOME(v), st.g)], st), lambda st: (NONE, st))


@model("result.and_then")
def _(ip, cs):
    v = val(ip, cs, 0)
    return ip.branch(cs.st, IS_OK(v), lambda st: ip.call_value(cs.args[1], [simp(OKV(v), st.g)], st), lambda st: (Err(ERRV(v)), st))


@model("option.filter")
def _(ip, cs):
    v = val(ip, cs, 0)

    def f(st):
        x = simp(SOME(v), st.g)
        r, s = ip.call_value(cs.args[1], [x], st)
        if s is None:
            return None, None
        n = tobool(r).a[0]
        return mkcase([(n, Some(x)), (bnot(n), NONE)]), s
    return ip.branch(cs.st, IS_SOME(v), f, lambda st: (NONE, st))


@model("option.or")
def _(ip, cs):
    v = val(ip, cs, 0)
    n = IS_SOME(v)
    return mkcase([(n, v), (bnot(n), cs.args[1])]), cs.st


@model("option.or_else")
def _(ip, cs):
    v = val(ip, cs, 0)
    return ip.branch(cs.st, IS_SOME(v), lambda st: (v, st), lambda st: ip.call_value(cs.args[1], [], st))


@model("option.and")
def _(ip, cs):
    v = val(ip, cs, 0)
    n = IS_SOME(v)
    return mkcase([(n, cs.args[1]), (bnot(n), NONE)]), cs.st


@model("option.xor")
def _(ip, cs):
    return None


@model("option.zip")
def _(ip, cs):
    v, w = val(ip, cs, 0), cs.args[1]
    n = band(IS_SOME(v), IS_SOME(w))
    return mkcase([(n, Some(tup(SOME(v), SOME(w)))), (bnot(n), NONE)]), cs.st


@model("option.ok_or")
def _(ip, cs):
    v = val(ip, cs, 0)
    n = IS_SOME(v)
    return mkcase([(n, Ok(SOME(v))), (bnot(n), Err(cs.args[1]))]), cs.st


@model("option.ok_or_else")
def _(ip, cs):
    v = val(ip, cs, 0)
    return ip.branch(cs.st, IS_SOME(v), lambda st: (Ok(SOME(v)), st), lambda st: then(ip.call_value(cs.args[1], [], st), Err))


@model("result.ok")
def _(ip, cs):
    v = val(ip, cs, 0)
    n = IS_OK(v)
    return mkcase([(n, Some(OKV(v))), (bnot(n), NONE)]), cs.st


@model("result.err")
def _(ip, cs):
    v = val(ip, cs, 0)
    n = IS_OK(v)
    return mkcase([(bnot(n), Some(ERRV(v))), (n, NONE)]), cs.st


@model("option.as_mut", "option.as_deref_mut")
def _(ip, cs):
    p = simp(cs.args[0], cs.st.g)
    v = ip.loadp(cs.st, p)
    n = IS_SOME(v)
    return mkcase([(n, Some(ptr_into(ip, cs.st, p, ("f", "0", OPTION, "Some")))), (bnot(n), NONE)]), cs.st


@model("option.take")
def _(ip, cs):
    v = ip.loadp(cs.st, cs.args[0])
    ip.storep(cs.st, cs.args[0], NONE)
    return v, cs.st


@model("option.replace")
def _(ip, cs):
    v = ip.loadp(cs.st, cs.args[0])
    ip.storep(cs.st, cs.args[0], Some(cs.args[1]))
    return v, cs.st


@model("option.insert")
def _(ip, cs):
    ip.storep(cs.st, cs.args[0], Some(cs.args[1]))
    return ptr_into(ip, cs.st, simp(cs.args[0], cs.st.g), ("f", "0", OPTION, "Some")), cs.st


@model("option.get_or_insert", "option.get_or_insert_with")
def _(ip, cs):
    p = simp(cs.args[0], cs.st.g)
    v = ip.loadp(cs.st, p)

    def absent(st):
        x, s = (cs.args[1], st) if cs.name == "get_or_insert" else ip.call_value(cs.args[1], [], st)
        if s is None:
            return None, None
        s = s.copy()
        ip.storep(s, p, Some(x))
        return UNIT, s
    r, st = ip.branch(cs.st, IS_SOME(v), lambda st: (UNIT, st), absent)
    if st is None:
        return None, None
    return ptr_into(ip, st, p, ("f", "0", OPTION, "Some")), st


@model("core::ops::try_trait::Try::branch")
def _(ip, cs):
    v = cs.args[0]
    if cls(cs.selft) == "option":
        n = IS_SOME(v)
        return mkcase([(n, rec(CF, "Continue", ("0",), (SOME(v),))), (bnot(n), rec(CF, "Break", ("0",), (NONE,)))]), cs.st
    n = IS_OK(v)
    return mkcase([(n, rec(CF, "Continue", ("0",), (OKV(v),))), (bnot(n), rec(CF, "Break", ("0",), (Err(ERRV(v)),)))]), cs.st


@model("core::ops::try_trait::FromResidual::from_residual")
def _(ip, cs):
    v = cs.args[0]
    if cls(cs.selft) == "option":
        return NONE, cs.st
    return Err(ERRV(v)), cs.st


@model("core::ops::try_trait::Try::from_output")
def _(ip, cs):
    return (Some if cls(cs.selft) == "option" else Ok)(cs.args[0]), cs.st


# ------------------------------------------------------------------------------- comparison
def eq_t(x, y, t, ip=None):
    """Equality of values of a type; a tuple's is that of its fields."""
    from interp import strip
    t = strip(t) if t is not None else None
    if t is not None and t[0] == "tuple":
        n = TRUE
        for i, u in enumerate(t[1]):
            n = And(n, eq_t(fld(x, str(i)), fld(y, str(i)), u, ip))
        return n
    if ip is not None and t is not None and t[0] == "adt" and (x.op == "rec" or y.op == "rec"):
        a = TT.ADTS.get(t[1])
        if a and a.get("local") and len(a["variants"]) == 1:
            n = TRUE
            for f in a["variants"][0]["fields"]:
                n = And(n, eq_t(fld(x, f[0]), fld(y, f[0]), ip.rt(f[1], {}), ip))
            return n
    return eq(x, y)


@model("core::cmp::PartialEq::eq")
def _(ip, cs):
    return eq_t(ip.deep(cs.st, cs.args[0]), ip.deep(cs.st, cs.args[1]), cs.selft, ip), cs.st


@model("core::cmp::PartialEq::ne")
def _(ip, cs):
    return Not(eq_t(ip.deep(cs.st, cs.args[0]), ip.deep(cs.st, cs.args[1]), cs.selft, ip)), cs.st


def less(x, y, t):
    c = cls(t)
    if c in ("usize", "u8", "u16", "u32", "u64", "isize", "i32"):
        return lt(x, y)
    return relift_atom("less", x, y)


def relift_atom(op, x, y):
    for i, v in enumerate((x, y)):
        if v.op == "case":
            n = 0
            for g, w in leaves(v):
                n = bor(n, band(g, (relift_atom(op, w, y) if i == 0 else relift_atom(op, x, w)).a[0]))
            return B(n)
    if x is y:
        return FALSE
    if op == "less" and x.id > y.id:
        # a total order
        return And(Not(atom(mk(op, y, x))), Not(eq(x, y)))
    return atom(mk(op, x, y))


def less_t(x, y, t):
    """The order of values of a type; a tuple's is that of its fields, the first that differ."""
    from interp import strip
    t = strip(t) if t is not None else None
    if t is not None and t[0] == "tuple":
        n, same = 0, 1
        for i, u in enumerate(t[1]):
            p, q = fld(x, str(i)), fld(y, str(i))
            n = bor(n, band(same, less_t(p, q, u).a[0]))
            same = band(same, eq_t(p, q, u).a[0])
        return B(n)
    return less(x, y, t)


@model("core::cmp::PartialOrd::lt")
def _(ip, cs):
    return less_t(val(ip, cs, 0), val(ip, cs, 1), cs.selft), cs.st


@model("core::cmp::PartialOrd::gt")
def _(ip, cs):
    return less_t(val(ip, cs, 1), val(ip, cs, 0), cs.selft), cs.st


@model("core::cmp::PartialOrd::le")
def _(ip, cs):
    return Not(less_t(val(ip, cs, 1), val(ip, cs, 0), cs.selft)), cs.st


@model("core::cmp::PartialOrd::ge")
def _(ip, cs):
    return Not(less_t(val(ip, cs, 0), val(ip, cs, 1), cs.selft)), cs.st


@model("core::cmp::Ord::max", "core::cmp::Ord::min", "core::cmp::max", "core::cmp::min")
def _(ip, cs):
    x, y = val(ip, cs, 0), val(ip, cs, 1)
    l = less(y, x, argty(ip, cs, 0)).a[0]
    if cs.name == "min":
        l = less(x, y, argty(ip, cs, 0)).a[0]
    return mkcase([(l, x), (bnot(l), y)]), cs.st


def ordering(e, l):
    return mkcase([(e, rec(ORD, "Equal", (), ())), (band(bnot(e), l), rec(ORD, "Less", (), ())),
                   (band(bnot(e), bnot(l)), rec(ORD, "Greater", (), ()))])


def is_ord(v, which):
    return isv(v, ORD, which).a[0]


@model("core::cmp::Ord::cmp")
def _(ip, cs):
    x, y = ip.deep(cs.st, cs.args[0]), ip.deep(cs.st, cs.args[1])
    return ordering(eq_t(x, y, cs.selft).a[0], less_t(x, y, cs.selft).a[0]), cs.st


@model("core::cmp::PartialOrd::partial_cmp")
def _(ip, cs):
    t = cs.selft
    if cls(t) in ("f32", "f64") or t is not None and t[0] == "prim" and t[1] in ("f32", "f64"):
        return None
    x, y = ip.deep(cs.st, cs.args[0]), ip.deep(cs.st, cs.args[1])
    return Some(ordering(eq_t(x, y, t).a[0], less_t(x, y, t).a[0])), cs.st


@model("core::mem::discriminant")
def _(ip, cs):
    t = argty(ip, cs, 0)
    from interp import strip
    t = strip(t) if t is not None else None
    if t is None or t[0] != "adt" or t[1] not in TT.ADTS:
        return None
    return mk("disc", val(ip, cs, 0), t[1]), cs.st


@model("core::cmp::Ordering::reverse")
def _(ip, cs):
    v = cs.args[0]
    return ordering(is_ord(v, "Equal"), is_ord(v, "Greater")), cs.st


@model("core::cmp::Ordering::then")
def _(ip, cs):
    v, n = cs.args[0], is_ord(cs.args[0], "Equal")
    return mkcase([(n, cs.args[1]), (bnot(n), v)]), cs.st


@model("core::cmp::Ordering::then_with")
def _(ip, cs):
    v = cs.args[0]
    return ip.branch(cs.st, is_ord(v, "Equal"), lambda st: ip.call_value(cs.args[1], [], st), lambda st: (v, st))


for _nm, _of in (("is_eq", "Equal"), ("is_lt", "Less"), ("is_gt", "Greater")):
    MODELS["core::cmp::Ordering::" + _nm] = (lambda of: lambda ip, cs: (B(is_ord(cs.args[0], of)), cs.st))(_of)
for _nm, _of in (("is_ne", "Equal"), ("is_ge", "Less"), ("is_le", "Greater")):
    MODELS["core::cmp::Ordering::" + _nm] = (lambda of: lambda ip, cs: (Not(B(is_ord(cs.args[0], of))), cs.st))(_of)


@model("core::num::saturating_sub")
def _(ip, cs):
    x, y = cs.args[0], cs.args[1]
    g = le(y, x).a[0]
    return mkcase([(g, sub(x, y)), (bnot(g), Int(0))]), cs.st


@model("core::num::checked_sub")
def _(ip, cs):
    x, y = cs.args[0], cs.args[1]
    g = le(y, x).a[0]
    return mkcase([(g, Some(sub(x, y))), (bnot(g), NONE)]), cs.st


@model("core::num::wrapping_add", "core::num::saturating_add")
def _(ip, cs):
    return add(cs.args[0], cs.args[1]), cs.st


@model("core::ops::arith::AddAssign::add_assign")
def _(ip, cs):
    v = ip.loadp(cs.st, cs.args[0])
    if cls(cs.selft) == "str":
        ip.storep(cs.st, cs.args[0], concat(v, val(ip, cs, 1)))
    elif cls(cs.selft) in ("usize", "u32", "u64", "isize", "i32", "u8"):
        ip.storep(cs.st, cs.args[0], add(v, val(ip, cs, 1)))
    else:
        return None
    return UNIT, cs.st


@model("core::ops::arith::Add::add")
def _(ip, cs):
    if cls(cs.selft) == "str":
        return concat(val(ip, cs, 0), val(ip, cs, 1)), cs.st
    if cls(cs.selft) in ("usize", "u32", "u64", "isize", "i32", "u8"):
        return add(val(ip, cs, 0), val(ip, cs, 1)), cs.st
    return None


def num_sub(ip, cs):
    if cls(cs.selft) in ("usize", "u32", "u64", "isize", "i32", "u8"):
        return sub(val(ip, cs, 0), val(ip, cs, 1)), cs.st
    a, b = val(ip, cs, 0), val(ip, cs, 1)
    if cls(cs.selft) == "set":
        return filt(a, lambda x: Not(in_(x, b))), cs.st
    return None


MODELS["core::ops::arith::Sub::sub"] = num_sub


# ------------------------------------------------------------------------------- calling closures
@model("core::ops::function::Fn::call", "core::ops::function::FnMut::call_mut", "core::ops::function::FnOnce::call_once")
def _(ip, cs):
    f, a = cs.args[0], cs.args[1]
    n = 0
    t = argty(ip, cs, 1)
    k = len(t[1]) if t and t[0] == "tuple" else (len(a.a[3]) if a.op == "rec" else 0)
    return ip.call_value(f, [fld(a, str(i)) for i in range(k)], cs.st)


# ------------------------------------------------------------------------------- iterators
@model("core::iter::traits::collect::IntoIterator::into_iter")
def _(ip, cs):
    v = simp(cs.args[0], cs.st.g)
    t = cs.selft
    from interp import strip_ref
    if v.op in ("ptr", "case") and t is not None and t[0] == "ref":
        inner = cls(t)
        if inner in ("vec", "map", "set", "option"):
            return as_list(ip, cs.st, v, t), cs.st
        return v, cs.st
    return as_list(ip, cs.st, v, t), cs.st


def iter_ptr(ip, cs):
    """(sequence, setter) of an iterator method taking &mut self"""
    p = simp(cs.args[0], cs.st.g)
    v = ip.loadp(cs.st, p)
    t = argty(ip, cs, 0)
    if v.op == "rec" and (v.a[0] or "").startswith("core::ops::range") or v.op == "case" and False:
        v = as_list(ip, cs.st, v, t)
    alts = ip.ptr_alts(p)
    return v, (lambda st, x: ip.storep(st, p, x)) if alts else (lambda st, x: None)


@model("iter.next")
def _(ip, cs):
    v, setp = iter_ptr(ip, cs)
    if v.op == "from":
        setp(cs.st, mk("from", add(v.a[0], Int(1))))
        return Some(v.a[0]), cs.st
    g = nonempty(v).a[0]
    setp(cs.st, mkcase([(g, slice_(v, Int(1), len_(v))), (bnot(g), NIL)]))
    return opt_head(v), cs.st


@model("iter.next_back")
def _(ip, cs):
    v, setp = iter_ptr(ip, cs)
    g = nonempty(v).a[0]
    n = sub(len_(v), Int(1))
    setp(cs.st, mkcase([(g, slice_(v, Int(0), n)), (bnot(g), NIL)]))
    return mkcase([(g, Some(index(v, n))), (bnot(g), NONE)]), cs.st


@model("iter.peek")
def _(ip, cs):
    v, _s = iter_ptr(ip, cs)
    return opt_head(v), cs.st


@model("iter.next_if", "iter.next_if_eq")
def _(ip, cs):
    v, setp = iter_ptr(ip, cs)
    if v.op == "from":
        return None
    same = cs.name == "next_if_eq"
    g = nonempty(v).a[0]
    rest = slice_(v, Int(1), len_(v))

    def some(st):
        x = index(v, Int(0))
        if same:
            r, s = eq(x, val(ip, cs, 1)), st
        else:
            r, s = ip.call_value(cs.args[1], [x], st)
            if s is None:
                return None, None
        n = tobool(r).a[0]
        s = s.copy()
        setp(s, mkcase([(n, rest), (bnot(n), v)]))
        return mkcase([(n, Some(x)), (bnot(n), NONE)]), s
    return ip.branch(cs.st, g, some, lambda st: (NONE, st))


@model("iter.size_hint")
def _(ip, cs):
    return None


@model("iter.nth")
def _(ip, cs):
    v, setp = iter_ptr(ip, cs)
    i = cs.args[1]
    if v.op == "from":
        return None
    g = lt(i, len_(v)).a[0]
    setp(cs.st, mkcase([(g, slice_(v, add(i, Int(1)), len_(v))), (bnot(g), NIL)]))
    return mkcase([(g, Some(index(v, i))), (bnot(g), NONE)]), cs.st


@model("iter.last")
def _(ip, cs):
    v = it(ip, cs)
    g = nonempty(v).a[0]
    return mkcase([(g, Some(index(v, sub(len_(v), Int(1))))), (bnot(g), NONE)]), cs.st


@model("iter.map")
def _(ip, cs):
    s = it(ip, cs)
    if s.op == "from":
        return None
    return ip.comp(cs.st, s, lambda st, e: then(ip.call_value(cs.args[1], [e], st), lambda r: push(NIL, r)))


@model("iter.filter")
def _(ip, cs):
    def f(st, e):
        r, s = ip.call_value(cs.args[1], [e], st)
        if s is None:
            return None, None
        return mklist(close([], tobool(r), "one", e)), s
    return ip.comp(cs.st, it(ip, cs), f)


@model("iter.filter_map", "iter.flat_map")
def _(ip, cs):
    def f(st, e):
        r, s = ip.call_value(cs.args[1], [e], st)
        if s is None:
            return None, None
        if cs.name == "filter_map":
            return opt_list(ip.loadp(s, r)), s
        fn = cs.args[1]
        return as_list(ip, s, r, ret_type(ip, fn)), s
    return ip.comp(cs.st, it(ip, cs), f)


def ret_type(ip, f):
    """Type a function value returns."""
    if f.op == "rec" and str(f.a[0]).startswith("clo:"):
        fn = ip.fns.get(f.a[0][4:])
        if fn:
            return ip.rt(fn.locals[0][0], ip.clots.get(f.a[0], {}))
    if f.op == "fnitem":
        c, ts = ip.fnitems.get(f, (None, None))
        if c:
            fn, nts = ip.target(c, ts)
            if fn:
                return ip.rt(fn.locals[0][0], nts)
            n = c["name"]
            if c["path"].endswith("::iter_mut") and "BTreeMap" in c["path"]:
                return ("adt", "iter", ())
    return None


@model("iter.flatten")
def _(ip, cs):
    s = it(ip, cs)
    t = item_type(ip, argty(ip, cs, 0))
    k = cls(t)

    def f(st, e):
        if k == "option":
            return opt_list(ip.loadp(st, e)), st
        if t is not None:
            return as_list(ip, st, e, t), st
        v = as_list(ip, st, e)
        if all(known_items(w) for _, w in leaves(v)):
            return v, st
        if item_is_option(argty(ip, cs, 0)):
            return opt_list(ip.loadp(st, e)), st
        return None, None
    return ip.comp(cs.st, s, f)


def known_items(v):
    """Whether v's items need no type to be told."""
    return v.op in ("list", "range", "from", "set", "keys", "values", "entries", "enum")


WRAPS = ("Filter", "Peekable", "Rev", "Take", "Skip", "TakeWhile", "SkipWhile", "StepBy", "Chain", "Fuse", "Inspect", "Cycle")


def item_type(ip, t, d=0):
    """Type of the items an iterator or collection type gives out, or None."""
    from interp import strip
    if t is None or d > 12:
        return None
    if t[0] == "ref":
        return item_type(ip, t[2], d + 1)
    if t[0] in ("slice", "array"):
        return t[1]
    if t[0] != "adt":
        return None
    n, ts = t[1].split("::")[-1], [x for x in t[2] if not (x and x[0] in ("life", "const"))]
    if n in WRAPS and ts:
        return item_type(ip, ts[0], d + 1)
    if n in ("Cloned", "Copied") and ts:
        x = item_type(ip, ts[0], d + 1)
        return x[2] if x and x[0] == "ref" else x
    if n == "Enumerate" and ts:
        x = item_type(ip, ts[0], d + 1)
        return x and ("tuple", (("prim", "usize"), x))
    if n == "Zip" and len(ts) > 1:
        xs = [item_type(ip, x, d + 1) for x in ts[:2]]
        return None if None in xs else ("tuple", tuple(xs))
    if n == "Map" and len(ts) == 2 and t[1].startswith("core::iter"):
        return fn_result(ip, ts[1])
    if n == "FilterMap" and len(ts) == 2:
        r = fn_result(ip, ts[1])
        return r[2][0] if r and cls(r) == "option" and r[0] == "adt" else None
    if n in ("Flatten", "FlatMap"):
        x = item_type(ip, ts[0], d + 1) if n == "Flatten" else fn_result(ip, ts[-1])
        return item_type(ip, x, d + 1)
    if n in ("Values", "ValuesMut", "IntoValues") and len(ts) > 1:
        return ts[1]
    if n in ("Keys", "IntoKeys") and ts:
        return ts[0]
    if n in ("Vec", "VecDeque", "BTreeSet", "HashSet", "Option", "Drain") and ts:
        return ts[0]
    if n in ("Iter", "IntoIter", "IterMut") and ts:
        if "map" in t[1]:
            return ("tuple", tuple(ts[:2])) if len(ts) > 1 else None
        return ts[0]
    return None


def fn_result(ip, t):
    """Type a closure or function type returns."""
    if t is None:
        return None
    if t[0] == "ref":
        return fn_result(ip, t[2])
    if t[0] == "closure":
        fn = ip.fns.get(t[1])
        if fn:
            return ip.rt(fn.locals[0][0], ip.clots.get("clo:" + t[1], {}))
    return None


def item_is_option(t):
    from interp import strip
    if t is None:
        return False
    t = strip(t)
    if t[0] == "adt":
        n = t[1].split("::")[-1]
        if n in ("Iter", "IntoIter", "IterMut", "Vec", "BTreeSet") and t[2]:
            return cls(t[2][0]) == "option"
        if n in ("Values", "ValuesMut", "IntoValues") and len(t[2]) > 1:
            return cls(t[2][1]) == "option"
        if n in ("Filter", "Cloned", "Copied", "Peekable", "Rev", "Take", "Skip") and t[2]:
            return item_is_option(t[2][0])
    return False


@model("iter.enumerate")
def _(ip, cs):
    return enum(it(ip, cs)), cs.st


def enum(s):
    if s.op == "case":
        return mkcase([(g, enum(v)) for g, v in leaves(s)])
    if s.op == "from":
        return None
    out = []
    import interp
    x = expand(s, "one", 0)
    if x is None:
        n = fresh()
        return mklist(close([(s, n)], TRUE, "one", tup(pos(s, n), el(s, n))))
    if any(p is None for _, _, _, p in x) or any(g is not TRUE for _, g, _, _ in x) and len(x) > 1:
        b = mk("blk", s)
        n = fresh()
        return mklist(close([(b, n)], TRUE, "one", tup(pos(b, n), el(b, n))))
    for bs, g, e, p in x:
        out += close(bs, g, "one", tup(p, e))
    return mklist(out)


@model("iter.zip")
def _(ip, cs):
    a, b = it(ip, cs, 0), as_list(ip, cs.st, cs.args[1], argty(ip, cs, 1))
    if "repeat" in (a.op, b.op):
        if a.op in ("from", "repeat") and b.op in ("from", "repeat"):
            return None
        if a.op == "repeat":
            return pick(seq_list(b), lambda t: tup(a.a[0], t)), cs.st
        return pick(seq_list(a), lambda t: tup(t, b.a[0])), cs.st
    if a.op == "from" and b.op == "from":
        return None
    if a.op == "from":
        r = pick2(b, a.a[0], True)
        return (r, cs.st) if r is not None else None
    if b.op == "from":
        r = pick2(a, b.a[0], False)
        return (r, cs.st) if r is not None else None
    if a.op == "case" or b.op == "case":
        return None
    e = enum(a)
    out = []
    for p in list_segs(e):
        bs, g, k, t = open_cmp(p)
        if k != "one":
            return None
        i = fld(t, "0")
        out += close(bs, And(g, lt(i, len_(b))), k, tup(fld(t, "1"), index(b, i)))
    return mklist(out), cs.st


def pick2(s, base, first):
    e = enum(s)
    if e is None:
        return None
    return pick(e, lambda t: tup(add(base, fld(t, "0")), fld(t, "1")) if first else tup(fld(t, "1"), add(base, fld(t, "0"))))


@model("iter.chain")
def _(ip, cs):
    a, b = it(ip, cs, 0), as_list(ip, cs.st, cs.args[1], argty(ip, cs, 1))
    return concat(seq_list(a), seq_list(b)), cs.st


def seq_list(s):
    """A list value of the items of a sequence value."""
    if s.op == "case":
        return mkcase([(g, seq_list(v)) for g, v in leaves(s)])
    if s.op == "set":
        out = []
        for p in s.a:
            bs, g, k, t = open_cmp(p)
            out += close(bs, g, "one" if k == "single" else "syml", t)
        return mklist(out)
    return s


@model("iter.eq", "iter.ne")
def _(ip, cs):
    a, b = it(ip, cs, 0), as_list(ip, cs.st, cs.args[1], argty(ip, cs, 1))
    if "set" in (a.op, b.op) and a.op != b.op:
        a, b = seq_list(a), seq_list(b)
    n = eq(a, b)
    return (n if cs.name == "eq" else Not(n)), cs.st


@model("iter.rev")
def _(ip, cs):
    import interp
    return interp.rev_(it(ip, cs)), cs.st


@model("iter.skip")
def _(ip, cs):
    v, n = it(ip, cs), cs.args[1]
    if v.op == "from":
        return mk("from", add(v.a[0], n)), cs.st
    if v.op == "case":
        return None
    g = le(n, len_(v)).a[0]
    return mkcase([(g, slice_(v, n, len_(v))), (bnot(g), NIL)]), cs.st


@model("iter.take")
def _(ip, cs):
    v, n = it(ip, cs), cs.args[1]
    if v.op == "from":
        return mk_range(v.a[0], add(v.a[0], n)), cs.st
    if v.op == "repeat":
        return copies(v.a[0], n), cs.st
    if v.op == "case":
        return None
    g = le(n, len_(v)).a[0]
    return mkcase([(g, slice_(v, Int(0), n)), (bnot(g), v)]), cs.st


@model("iter.count")
def _(ip, cs):
    return len_(it(ip, cs)), cs.st


@model("exact.len", "core::iter::traits::exact_size::ExactSizeIterator::len", "iter.len")
def _(ip, cs):
    return len_(it(ip, cs)), cs.st


@model("iter.for_each")
def _(ip, cs):
    def body(st, e):
        r, s = ip.call_value(cs.args[1], [e], st)
        return s, []
    fin, ex = ip.iter_loop(cs.st, it(ip, cs), body)
    return (UNIT, fin) if fin is not None else (None, None)


@model("iter.fold")
def _(ip, cs):
    st = cs.st.copy()
    acc = ip.cell(st, cs.args[1])

    def body(s, e):
        r, s2 = ip.call_value(cs.args[2], [s.mem[acc.a[0]], e], s)
        if s2 is None:
            return None, []
        s2 = s2.copy()
        s2.mem[acc.a[0]] = r
        return s2, []
    fin, ex = ip.iter_loop(st, it(ip, cs), body)
    if fin is None:
        return None, None
    r = fin.mem[acc.a[0]]
    fin.mem.pop(acc.a[0])
    return r, fin


def exists(ip, cs, s, f, neg):
    def g(st, e):
        r, s2 = ip.call_value(f, [e], st)
        if s2 is None:
            return None, None
        b = tobool(r)
        return mklist(close([], Not(b) if neg else b, "one", UNIT)), s2
    r, st = ip.comp(cs.st, s, g)
    if st is None:
        return None, None
    n = nonempty(r)
    return (Not(n) if neg else n), st


def drain_iter(ip, cs, st):
    p = simp(cs.args[0], cs.st.g)
    return st


@model("iter.any")
def _(ip, cs):
    v, _s = iter_ptr(ip, cs)
    return used(cs, v, exists(ip, cs, as_list(ip, cs.st, v, argty(ip, cs, 0)), cs.args[1], False), _s)


@model("iter.all")
def _(ip, cs):
    v, _s = iter_ptr(ip, cs)
    return used(cs, v, exists(ip, cs, as_list(ip, cs.st, v, argty(ip, cs, 0)), cs.args[1], True), _s)


def used(cs, v, r, setp):
    """What an iterator run by reference until something was found still holds is not modelled."""
    if r is None or r[1] is None:
        return r
    try:
        setp(r[1], relift("ext", ["rest after " + cs.name, v]))
    except Exception:
        pass
    return r


def until(ip, st, seq, f):
    """Runs f(state, element) -> [(whether the loop goes on, state)] over a sequence.
    -> (state after all elements, state where one stopped it), each possibly None."""
    from interp import State, merge

    def body(s, e):
        rs = [x for x in f(s, e) if x[1] is not None and x[1].g]
        return merge([x for go, x in rs if go]), [("stop", x) for go, x in rs if not go]
    fin, ex = ip.iter_loop(st, seq, body)
    return (fin if fin is not None and fin.g else None), merge([x for _, x in ex if x is not None])


def parted(s, n):
    """The state where the guard n holds and where it does not."""
    from interp import State
    return State(band(s.g, n), dict(s.mem)), State(band(s.g, bnot(n)), dict(s.mem))


def both(ip, fin, ex, cell):
    """The value of a cell where the two ends of a loop meet."""
    from interp import merge
    m = merge([fin, ex])
    if m is None:
        return None, None
    r = m.mem[cell.a[0]]
    m.mem.pop(cell.a[0])
    return r, m


@model("iter.take_while", "iter.map_while")
def _(ip, cs):
    st = cs.st.copy()
    acc = ip.cell(st, NIL)

    def f(s, e):
        r, s2 = ip.call_value(cs.args[1], [e], s)
        if s2 is None:
            return []
        r = ip.loadp(s2, r)
        n = tobool(r).a[0] if cs.name == "take_while" else IS_SOME(r)
        go, no = parted(s2, n)
        if go.g:
            go.mem[acc.a[0]] = push(go.mem[acc.a[0]], e if cs.name == "take_while" else simp(SOME(r), go.g))
        return [(True, go), (False, no)]
    fin, ex = until(ip, st, it(ip, cs), f)
    return both(ip, fin, ex, acc)


@model("iter.skip_while")
def _(ip, cs):
    st = cs.st.copy()
    acc, on = ip.cell(st, NIL), ip.cell(st, FALSE)

    def body(s, e):
        a, b = parted(s, tobool(s.mem[on.a[0]]).a[0])
        outs = []
        if a.g:
            outs.append(a)
        if b.g:
            r, s2 = ip.call_value(cs.args[1], [e], b)
            if s2 is not None:
                skip, start = parted(s2, tobool(ip.loadp(s2, r)).a[0])
                outs.append(skip)
                if start.g:
                    start.mem[on.a[0]] = TRUE
                    start.mem[acc.a[0]] = push(start.mem[acc.a[0]], e)
                    outs.append(start)
        if a.g:
            a.mem[acc.a[0]] = push(a.mem[acc.a[0]], e)
        from interp import merge
        return merge(outs), []
    fin, _ = ip.iter_loop(st, it(ip, cs), body)
    if fin is None:
        return None, None
    fin.mem.pop(on.a[0])
    r = fin.mem.pop(acc.a[0])
    return r, fin


def flow(ip, r, t):
    """(guard of going on, value then, what ends the loop) of a Result, Option or ControlFlow."""
    k = cls(t)
    if k == "option":
        return IS_SOME(r), SOME(r), NONE
    if k == "result":
        return IS_OK(r), OKV(r), Err(ERRV(r))
    x = leaves(r)
    if all(w.op == "rec" and w.a[0] == CF for _, w in x):
        n = isv(r, CF, "Continue").a[0]
        return n, pay(r, CF, "Continue", "0"), r
    return None


@model("iter.try_fold", "iter.try_for_each")
def _(ip, cs):
    fold = cs.name == "try_fold"
    v, setp = iter_ptr(ip, cs)
    fn = cs.args[2 if fold else 1]
    t = cs.dest()
    if cls(t) not in ("option", "result"):
        return None
    st = cs.st.copy()
    acc, out = ip.cell(st, cs.args[1] if fold else UNIT), ip.cell(st, UNIT)

    def f(s, e):
        r, s2 = ip.call_value(fn, [s.mem[acc.a[0]], e] if fold else [e], s)
        if s2 is None:
            return []
        n, x, stop = flow(ip, ip.loadp(s2, r), t)
        go, no = parted(s2, n)
        if go.g:
            go.mem[acc.a[0]] = simp(x, go.g)
        if no.g:
            no.mem[out.a[0]] = simp(stop, no.g)
        return [(True, go), (False, no)]
    fin, ex = until(ip, st, as_list(ip, st, v, argty(ip, cs, 0)), f)
    if fin is not None:
        fin.mem[out.a[0]] = (Some if cls(t) == "option" else Ok)(fin.mem[acc.a[0]])
    for x in (fin, ex):
        if x is not None:
            x.mem.pop(acc.a[0], None)
    return used(cs, v, both(ip, fin, ex, out), setp)


@model("iter.scan")
def _(ip, cs):
    st = cs.st.copy()
    acc, state = ip.cell(st, NIL), ip.cell(st, cs.args[1])

    def f(s, e):
        r, s2 = ip.call_value(cs.args[2], [state, e], s)
        if s2 is None:
            return []
        r = ip.loadp(s2, r)
        go, no = parted(s2, IS_SOME(r))
        if go.g:
            go.mem[acc.a[0]] = push(go.mem[acc.a[0]], simp(SOME(r), go.g))
        return [(True, go), (False, no)]
    fin, ex = until(ip, st, it(ip, cs), f)
    for x in (fin, ex):
        if x is not None:
            x.mem.pop(state.a[0], None)
    return both(ip, fin, ex, acc)


@model("iter.partition", "iter.unzip")
def _(ip, cs):
    t = cs.dest()
    if t is None or t[0] != "tuple" or len(t[1]) != 2:
        return None
    st = cs.st.copy()
    a, b = ip.cell(st, NIL), ip.cell(st, NIL)

    def body(s, e):
        if cs.name == "unzip":
            s = s.copy()
            e = ip.loadp(s, e)
            s.mem[a.a[0]] = push(s.mem[a.a[0]], fld(e, "0"))
            s.mem[b.a[0]] = push(s.mem[b.a[0]], fld(e, "1"))
            return s, []
        r, s2 = ip.call_value(cs.args[1], [e], s)
        if s2 is None:
            return None, []
        s2 = s2.copy()
        n = tobool(ip.loadp(s2, r))
        s2.mem[a.a[0]] = concat(s2.mem[a.a[0]], mklist(close([], n, "one", e)))
        s2.mem[b.a[0]] = concat(s2.mem[b.a[0]], mklist(close([], Not(n), "one", e)))
        return s2, []
    fin, _ = ip.iter_loop(st, it(ip, cs), body)
    if fin is None:
        return None, None
    xs = []
    for c, ct in zip((a, b), t[1]):
        r = collect(ip, cs, fin.mem.pop(c.a[0]), ct)
        if r is None:
            return None
        xs.append(r[0] if isinstance(r, tuple) else r)
    return tup(*xs), fin


@model("iter.inspect")
def _(ip, cs):
    def f(st, e):
        r, s = ip.call_value(cs.args[1], [e], st)
        if s is None:
            return None, None
        return push(NIL, e), s
    return ip.comp(cs.st, it(ip, cs), f)


@model("iter.rfind", "iter.rposition")
def _(ip, cs):
    import interp
    v, _s = iter_ptr(ip, cs)
    s = as_list(ip, cs.st, v, argty(ip, cs, 0))
    pos_ = cs.name == "rposition"

    def f(st, e):
        r, s2 = ip.call_value(cs.args[1], [fld(e, "1") if pos_ else e], st)
        if s2 is None:
            return None, None
        return mklist(close([], tobool(ip.loadp(s2, r)), "one", fld(e, "0") if pos_ else e)), s2
    r, st = ip.comp(cs.st, enum(s) if pos_ else s, f)
    if st is None:
        return None, None
    g = nonempty(r).a[0]
    return used(cs, v, (mkcase([(g, Some(index(r, sub(len_(r), Int(1))))), (bnot(g), NONE)]), st), _s)


@model("iter.rfold")
def _(ip, cs):
    import interp
    st = cs.st.copy()
    acc = ip.cell(st, cs.args[1])

    def body(s, e):
        r, s2 = ip.call_value(cs.args[2], [s.mem[acc.a[0]], e], s)
        if s2 is None:
            return None, []
        s2 = s2.copy()
        s2.mem[acc.a[0]] = r
        return s2, []
    fin, ex = ip.iter_loop(st, interp.rev_(it(ip, cs)), body)
    if fin is None:
        return None, None
    return fin.mem.pop(acc.a[0]), fin


@model("iter.reduce")
def _(ip, cs):
    v = seq_list(it(ip, cs))
    if v.op == "case":
        return None

    def some(st):
        st = st.copy()
        acc = ip.cell(st, index(v, Int(0)))

        def body(s, e):
            r, s2 = ip.call_value(cs.args[1], [s.mem[acc.a[0]], e], s)
            if s2 is None:
                return None, []
            s2 = s2.copy()
            s2.mem[acc.a[0]] = r
            return s2, []
        fin, _ = ip.iter_loop(st, slice_(v, Int(1), len_(v)), body)
        if fin is None:
            return None, None
        return Some(fin.mem.pop(acc.a[0])), fin
    return ip.branch(cs.st, nonempty(v).a[0], some, lambda st: (NONE, st))


@model("iter.find", "iter.find_map")
def _(ip, cs):
    v, _s = iter_ptr(ip, cs)

    def f(st, e):
        r, s = ip.call_value(cs.args[1], [e], st)
        if s is None:
            return None, None
        if cs.name == "find_map":
            return opt_list(ip.loadp(s, r)), s
        return mklist(close([], tobool(r), "one", e)), s
    r, st = ip.comp(cs.st, as_list(ip, cs.st, v, argty(ip, cs, 0)), f)
    if st is None:
        return None, None
    return used(cs, v, (opt_head(r), st), _s)


@model("iter.position")
def _(ip, cs):
    v, _s = iter_ptr(ip, cs)
    s = enum(as_list(ip, cs.st, v, argty(ip, cs, 0)))

    def f(st, e):
        r, s2 = ip.call_value(cs.args[1], [fld(e, "1")], st)
        if s2 is None:
            return None, None
        return mklist(close([], tobool(r), "one", fld(e, "0"))), s2
    r, st = ip.comp(cs.st, s, f)
    if st is None:
        return None, None
    return used(cs, v, (opt_head(r), st), _s)


@model("iter.collect", "core::iter::traits::collect::FromIterator::from_iter")
def _(ip, cs):
    t = cs.targ(1) if cs.name == "collect" and len(cs.c["args"]) > 1 else (cs.selft if cs.name == "from_iter" else cs.dest())
    s = it(ip, cs) if cs.name == "collect" else as_list(ip, cs.st, cs.args[0], argty(ip, cs, 0))
    return collect(ip, cs, s, t)


def collect(ip, cs, s, t):
    c = cls(t)
    s = ip.deep(cs.st, s) if s.op in ("ptr",) else s
    if c == "set":
        return mark_set(toset(s)), cs.st
    if c == "map":
        return to_map(seq_list(s)), cs.st
    if c == "vec":
        return seq_list(s), cs.st
    if c == "str":
        return flatten(seq_list(s)), cs.st
    if c in ("option", "result"):
        from interp import strip
        inner = strip(t)[2][0]
        isok = (lambda v: B(IS_SOME(v))) if c == "option" else (lambda v: B(IS_OK(v)))
        get_ = SOME if c == "option" else OKV
        bad = Not(nonempty(filt_list(s, lambda x: Not(isok(x)))))
        r, st = collect(ip, cs, pick(seq_list(s), get_), inner)
        n = bad.a[0]
        if c == "option":
            return mkcase([(n, Some(r)), (bnot(n), NONE)]), st
        e = index(pick(filt_list(s, lambda x: Not(isok(x))), ERRV), Int(0))
        return mkcase([(n, Ok(r)), (bnot(n), Err(e))]), st
    if t is not None and t[0] == "tuple" and not t[1]:
        return UNIT, cs.st
    return relift("ext", ["collect", seq_list(s)]), cs.st


def filt_list(s, pred):
    if s.op == "case":
        return mkcase([(g, filt_list(v, pred)) for g, v in leaves(s)])
    out = []
    for p in list_segs(seq_list(s)):
        bs, g, k, t = open_cmp(p)
        if k == "one":
            out += close(bs, And(g, pred(t)), k, t)
        else:
            n = fresh()
            out += close(bs + [(t, n)], And(g, pred(el(t, n))), "one", el(t, n))
    return mklist(out)


@model("core::iter::traits::collect::Extend::extend")
def _(ip, cs):
    c = cls(cs.selft)
    s = as_list(ip, cs.st, cs.args[1], argty(ip, cs, 1))
    v = ip.loadp(cs.st, cs.args[0])
    if c == "set":
        ip.storep(cs.st, cs.args[0], union(v, mark_set(toset(seq_set(s)))))
    elif c == "vec":
        ip.storep(cs.st, cs.args[0], concat(v, seq_list(s)))
    elif c == "str":
        ip.storep(cs.st, cs.args[0], concat(v, flatten(seq_list(s))))
    elif c == "map":
        m = to_map(seq_list(s))
        ip.storep(cs.st, cs.args[0], map_union(v, m))
    else:
        return None
    return UNIT, cs.st


def seq_set(s):
    return s


def map_union(a, b):
    if b.op == "mempty":
        return a
    if b.op == "minsert":
        return minsert(map_union(a, b.a[0]), b.a[1], b.a[2])
    if b.op == "mapof" and b.a[0].op == "mempty":
        return mapof(a, list(b.a[1]))
    if b.op == "case":
        return mkcase([(g, map_union(a, w)) for g, w in leaves(b)])
    ks = keys(b)
    n = fresh()
    return mapof(a, close([(ks, n)], TRUE, "kv", tup(el(ks, n), get(b, el(ks, n)))))


@model("map.append")
def _(ip, cs):
    a, b = ip.loadp(cs.st, cs.args[0]), ip.loadp(cs.st, cs.args[1])
    ip.storep(cs.st, cs.args[0], map_union(a, b))
    ip.storep(cs.st, cs.args[1], MEMPTY)
    return UNIT, cs.st


@model("iter.max", "iter.min", "iter.sum", "iter.product", "iter.max_by_key", "iter.min_by_key")
def _(ip, cs):
    return relift("ext", [cs.name] + [seq_list(it(ip, cs))] + [ip.deep(cs.st, a) for a in cs.args[1:]]), cs.st


@model("vec.sort", "vec.sort_unstable", "vec.dedup", "vec.reverse")
def _(ip, cs):
    import interp
    v = ip.loadp(cs.st, cs.args[0])
    ip.storep(cs.st, cs.args[0], interp.rev_(v) if cs.name == "reverse" else relift(cs.name, [v]))
    return UNIT, cs.st


# ------------------------------------------------------------------------------- panics
def diverge(ip, cs):
    return None, None


for n in ("core::panicking::panic", "core::panicking::panic_fmt", "core::panicking::assert_failed", "core::panicking::panic_explicit",
          "core::panicking::unreachable_display", "core::panicking::panic_display", "core::panicking::panic_str_2015",
          "std::process::exit", "core::panicking::assert_failed_inner", "std::rt::begin_panic",
          "core::panicking::panic_bounds_check", "core::option::unwrap_failed", "core::option::expect_failed",
          "core::result::unwrap_failed"):
    MODELS[n] = diverge


@model("core::panicking::unreachable_default_msg")
def _(ip, cs):
    return NIL, cs.st
