"""Loader and pretty-printer for the MIR dumped by /verif/driver."""
import json


class Fn:
    __slots__ = ("name", "argc", "locals", "blocks", "d", "crate", "promoted_of")

    def __init__(self, d, crate):
        self.d = d
        self.crate = crate
        self.name = d["name"]
        self.argc = d["argc"]
        self.locals = d["locals"]
        self.blocks = d["blocks"]

    @property
    def loc(self):
        return self.d["loc"]

    def __repr__(self):
        return "<Fn %s>" % self.name


class Crate:
    def __init__(self, path):
        with open(path) as f:
            j = json.load(f)
        self.name = j["crate"]
        self.types = j["types"]
        self.fns = {}
        for b in j["bodies"]:
            self.fns[b["name"]] = Fn(b, self)
        self.adts = {a["path"]: a for a in j["adts"] if a}
        self.impls = j["impls"]
        self.traits = j["traits"]
        self.statics = j["statics"]
        self.unsafe = j["unsafe"]

    # ---- types
    def ty(self, i):
        return self.types[i]

    def strip_refs(self, i):
        t = self.types[i]
        while t[0] == "ref" or (t[0] == "adt" and t[1] in ("alloc::boxed::Box", "alloc::rc::Rc")):
            i = t[2] if t[0] == "ref" else t[2][0]
            t = self.types[i]
        return i

    def head(self, i):
        t = self.types[self.strip_refs(i)]
        return t[1] if t[0] in ("adt", "closure", "fndef", "prim", "param") else t[0]

    def tystr(self, i):
        t = self.types[i]
        k = t[0]
        if k == "ref":
            return "&" + ("mut " if t[1] else "") + self.tystr(t[2])
        if k == "adt":
            h = t[1].split("::")[-1]
            return h + ("<%s>" % ",".join(self.tystr(a) for a in t[2]) if t[2] else "")
        if k in ("prim", "param"):
            return t[1]
        if k == "tuple":
            return "(%s)" % ",".join(self.tystr(a) for a in t[1])
        if k in ("slice", "array"):
            return "[%s]" % self.tystr(t[1])
        return "%s:%s" % (k, t[1] if len(t) > 1 else "")


def place_s(p):
    s = "_%d" % p[0]
    for e in p[1]:
        if e[0] == "deref":
            s = "(*%s)" % s
        elif e[0] == "field":
            s += "." + e[1]
        elif e[0] == "downcast":
            s = "(%s as %s)" % (s, e[1])
        elif e[0] == "index":
            s += "[_%d]" % e[1]
        else:
            s += "[%s]" % (e,)
    return s


def const_s(c):
    k = c["k"]
    if k == "fn":
        return c["path"] + ("=>" + c["resolved"] if c.get("resolved") and c["resolved"] != c["path"] else "")
    if k in ("int", "str"):
        return repr(c["v"])
    return json.dumps(c)[:80]


def op_s(o):
    return const_s(o[1]) if o[0] == "const" else ("move " if o[0] == "move" else "") + place_s(o[1])


def rv_s(r):
    k = r[0]
    if k == "use":
        return op_s(r[1])
    if k == "ref":
        return "&%s %s" % (r[1], place_s(r[2]))
    if k == "discr":
        return "discr(%s)" % place_s(r[1])
    if k == "bin":
        return "%s(%s, %s)" % (r[1], op_s(r[2]), op_s(r[3]))
    if k == "un":
        return "%s(%s)" % (r[1], op_s(r[2]))
    if k == "agg":
        kd = r[1]
        return "%s{%s}" % (" ".join(str(x) for x in kd[:3]), ", ".join(op_s(o) for o in r[2]))
    if k == "cast":
        return "cast[%s](%s)" % (r[1], op_s(r[2]))
    return str(r)


def show(fn):
    out = ["fn %s  (%s)" % (fn.name, fn.d["loc"])]
    for i, (t, nm) in enumerate(fn.locals):
        out.append("  let _%d: %s%s" % (i, fn.crate.tystr(t), "  // " + nm if nm else ""))
    for i, b in enumerate(fn.blocks):
        if b["c"]:
            continue
        out.append(" bb%d:" % i)
        for s in b["s"]:
            if s[0] == "assign":
                out.append("   %s = %s" % (place_s(s[1]), rv_s(s[2])))
            else:
                out.append("   %s" % (s,))
        t = b["t"]
        if t[0] == "call":
            out.append("   %s = %s(%s) -> %s" % (place_s(t[3]), op_s(t[1]), ", ".join(op_s(a) for a in t[2]), t[4]))
        elif t[0] == "switch":
            out.append("   switch %s %s else %s" % (op_s(t[1]), t[2], t[3]))
        elif t[0] == "drop":
            out.append("   drop %s -> %s" % (place_s(t[1]), t[2]))
        else:
            out.append("   %s" % (t,))
    return "\n".join(out)


if __name__ == "__main__":
    import sys
    c = Crate(sys.argv[1])
    for k, f in c.fns.items():
        if len(sys.argv) < 3:
            print(k, f.loc)
        elif sys.argv[2] in k:
            print(show(f))
