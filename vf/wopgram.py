"""Reads a wop grammar file and expands it, independently of the generator in wop/src/builder.rs.

expand() gives, per rule, the list of productions; each production has its symbols, what every name
it may use is bound to, and the tokens of its code block.
"""
import re

TOK = re.compile(r"""
    (?P<ws>[ \t\r\n]+) | (?P<line>//[^\n]*) | (?P<block>/\*.*?\*/) | (?P<code>->(?:[^}]|\}[^%])*\}%) |
    (?P<str>"(?:[^"\\]|\\.)*") | (?P<id>[a-zA-Z_]\w*) | (?P<op>::|[=|();:*?&])
""", re.X | re.S)


class Bad(Exception):
    pass


def scan(src):
    out, i = [], 0
    while i < len(src):
        m = TOK.match(src, i)
        if not m:
            raise Bad("offset %d: unexpected %r" % (i, src[i:i + 10]))
        if m.lastgroup not in ("ws", "line", "block"):
            out.append((m.lastgroup, m.group(m.lastgroup)))
        i = m.end()
    return out


class Parser:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self, *v):
        return self.i < len(self.t) and (self.t[self.i][1] in v or self.t[self.i][0] in v)

    def take(self, v):
        if not self.peek(v):
            raise Bad("expected %s, found %s" % (v, self.t[self.i:self.i + 1]))
        self.i += 1
        return self.t[self.i - 1][1]

    def path(self):
        p = self.take("id")
        while self.peek("::") and self.t[self.i + 1][0] == "id":
            self.i += 1
            p += "::" + self.take("id")
        return p

    def rule(self):
        alts = [self.pipe()]
        while self.peek("|"):
            self.i += 1
            alts.append(self.pipe())
        return alts

    def pipe(self):
        items = []
        while self.peek("id", "str", "("):
            items.append(self.item())
        if not items:
            raise Bad("empty production")
        code = self.take("code") if self.peek("code") else None
        return items, code

    def item(self):
        if self.peek("("):
            self.i += 1
            r = self.rule()
            self.take(")")
            it = ("group", r)
        elif self.peek("str"):
            it = ("str", self.take("str"))
        else:
            it = ("sym", self.path())
        opt = name = False
        clone = False
        if self.peek("?"):
            self.i += 1
            opt = True
        if self.peek(":"):
            self.i += 1
            if self.peek("&"):
                self.i += 1
                clone = True
            name = self.take("id")
        return it, opt, name or None, clone


def parse(src):
    p = Parser(scan(src))
    uses, aliases, rules = [], {}, {}
    while p.i < len(p.t):
        if p.peek("use"):
            p.i += 1
            u = p.path()
            if p.peek("::"):
                p.i += 1
                p.take("*")
                u += "::*"
            uses.append(u)
        elif p.peek("alias"):
            p.i += 1
            k = p.take("str") if p.peek("str") else p.take("id")
            if k in aliases:
                raise Bad("alias %s twice" % k)
            aliases[k] = p.path()
        else:
            n = p.path()
            p.take(":")
            ty = p.path()
            p.take("=")
            if n in rules:
                raise Bad("rule %s twice" % n)
            rules[n] = (ty, p.rule())
        p.take(";")
    return uses, aliases, rules


class Prod:
    """Symbols and bindings: name -> (present?, start, end, clone); present is True, False or None for 'always'."""

    def __init__(self, syms=(), names=()):
        self.syms, self.names = list(syms), list(names)

    def copy(self):
        return Prod(self.syms, self.names)


def bind(p, name, how):
    p.names = [(n, h) for n, h in p.names if n != name] + [(name, how)]


def variants(p, items, aliases):
    """All ways to go through the items after p, in order."""
    cur = [p]
    for (kind, x), opt, name, clone in items:
        nxt = []
        for q in cur:
            at = len(q.syms)
            if kind != "group":
                w = q.copy()
                if name:
                    bind(w, name, (True if opt else None, at, None, clone))
                w.syms.append(aliases.get(x, x))
                nxt.append(w)
                if opt:
                    w = q.copy()
                    if name:
                        bind(w, name, (False, at, None, clone))
                    nxt.append(w)
                continue
            out = []
            for its, code in x:
                if code is not None:
                    raise Bad("code block in a group")
                out += variants(q, its, aliases)
            inner = []
            for w in out:
                for n, _ in w.names:
                    if n not in dict(q.names) and n not in inner:
                        inner.append(n)
            alts = []
            for w in out:
                w = w.copy()
                d = dict(w.names)
                # only names of one alternative, or of none when the group is left out
                for n in inner:
                    if n in d:
                        h = d[n]
                        bind(w, n, (True if h[0] is None else h[0],) + h[1:])
                    else:
                        bind(w, n, (False, 0, None, False))
                if name:
                    bind(w, name, (True if opt else None, at, len(w.syms), clone))
                alts.append(w)
            if opt:
                w = q.copy()
                for n in inner:
                    bind(w, n, (False, 0, None, False))
                if name:
                    bind(w, name, (False, at, None, clone))
                alts.append(w)
            nxt += alts
        cur = nxt
    return cur


def expand(src):
    """-> {rule: [(symbols, {name: binding}, code tokens)]}"""
    uses, aliases, rules = parse(src)
    out = {}
    for n, (ty, alts) in rules.items():
        ps = []
        for items, code in alts:
            if code is None:
                raise Bad("no code block in " + n)
            for p in variants(Prod(), items, aliases):
                ps.append((p.syms, dict(p.names), rust(code[2:-1])))
        out[n] = ps
    return out


# ---------------------------------------------------------------------------------- Rust text
RT = re.compile(r"""\s+|//[^\n]*|/\*.*?\*/|(?P<t>"(?:[^"\\]|\\.)*"|'[a-zA-Z_]\w*(?!')|'(?:[^'\\]|\\.)'|\w+|::|->|=>|\.\.=?|[<>=!&|+\-*/^%]=|&&|\|\||.)""", re.S | re.X)


def rust(src):
    """Tokens, without commas before a closing bracket."""
    ts = [m.group("t") for m in RT.finditer(src) if m.group("t")]
    return [t for i, t in enumerate(ts) if not (t == "," and i + 1 < len(ts) and ts[i + 1] in ")]}")]


def reductor_text(src, name):
    """The tokens between the braces of a function of out.rs."""
    ts = rust(src)
    for i in range(len(ts) - 1):
        if ts[i] == "fn" and ts[i + 1] == name:
            j = ts.index("{", i)
            d = 0
            for k in range(j, len(ts)):
                d += ts[k] == "{"
                d -= ts[k] == "}"
                if d == 0:
                    return ts[j + 1:k]
    return None


HEAD = "lrp :: Meta :: new ( {".split()
TAIL = "} , lrp :: Span :: new ( toks [ 0 ] . item . span . start , toks . last ( ) . unwrap ( ) . item . span . end ) )".split()


def bindings_in(ts):
    """({name: binding}, code tokens) of a reductor written as the generator writes it, or None."""
    if ts is None or ts[:len(HEAD)] != HEAD or ts[-len(TAIL):] != TAIL:
        return None
    ts = ts[len(HEAD):-len(TAIL)]
    out = {}
    while ts and ts[0] == "let":
        j = ts.index(";")
        s = " ".join(ts[1:j])
        rest = ts[j + 1:]
        m = re.match(r"^mut (\w+) = Some \( .* \)$", s)
        if m:
            n = m.group(1)
            want = [n, "=", "None", ";", "let", n, "=", n, ";"]
            if rest[:len(want)] != want:
                return None
            out[n] = (False, 0, None, False)
            ts = rest[len(want):]
            continue
        m = re.match(r"^(\w+) = (Some \( )?(& )?toks \[ (\d+)(?: \.\. (\d+))? \](?: \. (clone|to_vec) \( \))?( \))?$", s)
        if not m or bool(m.group(2)) != bool(m.group(7)) or bool(m.group(3)) == bool(m.group(6)):
            return None
        if m.group(6) and (m.group(6) == "to_vec") != bool(m.group(5)):
            return None
        out[m.group(1)] = (True if m.group(2) else None, int(m.group(4)), int(m.group(5)) if m.group(5) else None, bool(m.group(6)))
        ts = rest
    return out, ts


def plain(h):
    """What counts of a binding."""
    return ("absent",) if h[0] is False else h
