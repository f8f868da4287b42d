"""The wop scanner as its token declarations define it (C31).

The `#[token]`/`#[regex]` attributes of the `Logos` enum are read from the source, each pattern becomes an
automaton, and all of them together one automaton whose states are labelled with what the longest match
means there: a token, something skipped, or nothing.  Two scanners are the same when no text leads their
automata to states with different labels; otherwise the shortest such text is reported."""
import os
import re


class Beyond(Exception):
    """Not a shape this reads."""


# ------------------------------------------------------------------------------------ rust source
TOK = re.compile(r"""
    (?P<ws>\s+|//[^\n]*)
  | (?P<raw>(?P<rb>b?)r(?P<h>\#*)"(?P<rv>.*?)"(?P=h))
  | (?P<str>(?P<sb>b?)"(?P<sv>(?:[^"\\]|\\.)*)")
  | (?P<chr>b?'(?:[^'\\]|\\(?:u\{[^}]*\}|x..|.))')
  | (?P<life>'\w+)
  | (?P<num>\d[\w.]*)
  | (?P<id>(?:r\#)?[A-Za-z_]\w*)
  | (?P<p>::|=>|->|.)
""", re.X | re.S)


def tokens(src):
    """[(kind, value, line)]"""
    out, i, line = [], 0, 1
    while i < len(src):
        if src.startswith("/*", i):
            d, j = 1, i + 2
            while d and j < len(src):
                if src.startswith("/*", j):
                    d, j = d + 1, j + 2
                elif src.startswith("*/", j):
                    d, j = d - 1, j + 2
                else:
                    j += 1
            line += src.count("\n", i, j)
            i = j
            continue
        m = TOK.match(src, i)
        k = m.lastgroup if m.lastgroup in ("ws", "chr", "life", "num", "id", "p") else None
        if m.group("raw") is not None:
            out.append(("bstr" if m.group("rb") else "str", m.group("rv"), line))
        elif m.group("str") is not None:
            out.append(("bstr" if m.group("sb") else "str", unescape(m.group("sv")), line))
        elif k != "ws":
            out.append((k, m.group(k), line))
        line += src.count("\n", i, m.end())
        i = m.end()
    return out


ESC = {"n": "\n", "r": "\r", "t": "\t", "\\": "\\", "0": "\0", '"': '"', "'": "'"}


def unescape(s):
    out, i = [], 0
    while i < len(s):
        if s[i] != "\\":
            out.append(s[i])
            i += 1
            continue
        c = s[i + 1]
        if c in ESC:
            out.append(ESC[c])
            i += 2
        elif c == "x":
            out.append(chr(int(s[i + 2:i + 4], 16)))
            i += 4
        elif c == "u":
            j = s.index("}", i)
            out.append(chr(int(s[i + 3:j].replace("_", ""), 16)))
            i = j + 1
        elif c == "\n":
            i += 2
            while i < len(s) and s[i].isspace():
                i += 1
        else:
            raise Beyond("escape \\" + c)
    return "".join(out)


PAIR = {"(": ")", "[": "]", "{": "}"}


def match(ts, i):
    """Index just past the bracket group that opens at i."""
    st = []
    while i < len(ts):
        if ts[i][0] == "p" and ts[i][1] in PAIR:
            st.append(PAIR[ts[i][1]])
        elif ts[i][0] == "p" and st and ts[i][1] == st[-1]:
            st.pop()
            if not st:
                return i + 1
        i += 1
    raise Beyond("unbalanced source")


def attrs(ts, i):
    """Attributes from i on: ([token list], index after)."""
    out = []
    while i + 1 < len(ts) and ts[i][1] == "#" and ts[i][0] == "p" and ts[i + 1][1] == "[":
        j = match(ts, i + 1)
        out.append(ts[i + 2:j - 1])
        i = j
    return out, i


def split(ts):
    """Top-level comma separated parts."""
    out, cur, i = [], [], 0
    while i < len(ts):
        if ts[i][0] == "p" and ts[i][1] in PAIR:
            j = match(ts, i)
            cur += ts[i:j]
            i = j
        elif ts[i][0] == "p" and ts[i][1] == ",":
            out.append(cur)
            cur = []
            i += 1
        else:
            cur.append(ts[i])
            i += 1
    if cur:
        out.append(cur)
    return out


class Def:
    def __init__(self, variant, line, regex, priority, skip):
        self.variant, self.line, self.regex, self.priority, self.skip = variant, line, regex, priority, skip

    def label(self):
        return ("skip", None) if self.skip else ("token", self.variant)


class Scanner:
    def __init__(self, name, file, line):
        self.name, self.file, self.line = name, file, line
        self.variants, self.defs, self.error = [], [], None


def read(root):
    """The scanner declared under root, or Beyond."""
    found = []
    for d, _, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            if f.endswith(".rs"):
                p = os.path.join(d, f)
                found += in_file(p, open(p, encoding="utf8").read())
    if len(found) != 1:
        raise Beyond("%d scanner declarations" % len(found))
    return found[0]


def in_file(path, src):
    ts = tokens(src)
    out = []
    i = 0
    while i < len(ts):
        if ts[i][1] == "#" and ts[i][0] == "p":
            if i + 1 < len(ts) and ts[i + 1][1] == "!":
                i += 2
                continue
            at, j = attrs(ts, i)
            if j == i:
                i += 1
                continue
            k = j
            while k < len(ts) and (ts[k][1] == "pub" or ts[k][1] == "("):
                k = match(ts, k) if ts[k][1] == "(" else k + 1
            if k < len(ts) and ts[k][1] == "enum" and any(a and a[0][1] == "derive" and any(x[1] == "Logos" for x in a) for a in at):
                out.append(enum(path, ts, k, at))
            i = j
            continue
        i += 1
    return out


def enum(path, ts, k, at):
    for a in at:
        if a and a[0][1] == "logos":
            raise Beyond("#[logos(..)] on the enum")
        if a and a[0][1] == "cfg_attr":
            raise Beyond("cfg_attr")
    s = Scanner(ts[k + 1][1], path, ts[k][2])
    b = k + 2
    while ts[b][1] != "{":
        b += 1
    body = ts[b + 1:match(ts, b) - 1]
    for v in split(body):
        va, i = attrs(v, 0)
        if i >= len(v):
            continue
        name = v[i][1]
        if i + 1 < len(v) and v[i + 1][1] in ("(", "{"):
            raise Beyond("a token that carries data")
        s.variants.append(name)
        for a in va:
            if not a:
                continue
            if a[0][1] == "error":
                s.error = name
            elif a[0][1] in ("token", "regex"):
                s.defs.append(definition(name, a))
            elif a[0][1] in ("cfg", "cfg_attr"):
                raise Beyond("conditional token")
    return s


def definition(name, a):
    if len(a) < 3 or a[1][1] != "(":
        raise Beyond("attribute of " + name)
    ps = split(a[2:-1])
    lit = ps[0]
    if len(lit) != 1 or lit[0][0] != "str":
        raise Beyond("pattern of " + name)
    text = lit[0][1]
    r = seq_of([("set", frozenset(syms(c))) for c in text]) if a[0][1] == "token" else Regex(text).parse()
    prio = 2 * len(text.encode()) if a[0][1] == "token" else priority(r)
    skip = False
    for p in ps[1:]:
        t = [x[1] for x in p]
        if t[:2] == ["callback", "="]:
            t = t[2:]
        if t[:2] == ["priority", "="] and len(t) == 3:
            prio = int(t[2])
        elif t and all(x == "::" or re.match(r"\w+$", x) for x in t) and t[-1] == "skip" and t[0] == "logos":
            skip = True
        elif re.match(r"\|_?\w*\|(logos::)?Skip$", "".join(t)):
            skip = True
        else:
            raise Beyond("callback of " + name)
    return Def(name, a[0][2], r, prio, skip)


# ------------------------------------------------------------------------------------ patterns
# the alphabet: every ASCII character, and beyond it characters by what \w, \d and \s say of them
FAR = ("far:d", "far:w", "far:s", "far:-")
ALL = frozenset([chr(i) for i in range(128)]) | frozenset(FAR)
WORD = frozenset(c for c in map(chr, range(128)) if c.isalnum() or c == "_") | {"far:d", "far:w"}
DIGIT = frozenset("0123456789") | {"far:d"}
SPACE = frozenset(" \t\n\r\x0b\x0c") | {"far:s"}
POSIX = {"alpha": re.compile("[A-Za-z]"), "digit": re.compile("[0-9]"), "alnum": re.compile("[A-Za-z0-9]"),
         "lower": re.compile("[a-z]"), "upper": re.compile("[A-Z]"), "word": re.compile("[A-Za-z0-9_]"),
         "space": re.compile(r"[ \t\n\r\x0b\x0c]"), "xdigit": re.compile("[0-9A-Fa-f]"), "blank": re.compile("[ \t]"),
         "ascii": re.compile("[\x00-\x7f]")}


def syms(c):
    if ord(c) > 127:
        raise Beyond("a character beyond ASCII in a pattern")
    return {c}


def seq_of(xs):
    xs = [y for x in xs for y in (x[1] if x[0] == "seq" else [x])]
    return xs[0] if len(xs) == 1 else ("seq", xs)


def priority(r):
    """As logos counts it."""
    if r[0] == "set":
        return 2 if len(r) == 2 and len(r[1]) == 1 else 1
    if r[0] == "class":
        return 1
    if r[0] == "seq":
        return sum(priority(x) for x in r[1])
    if r[0] == "alt":
        return min([priority(x) for x in r[1]] or [0])
    return 0


class Regex:
    def __init__(self, s):
        self.s, self.i = s, 0

    def parse(self):
        r = self.alt()
        if self.i != len(self.s):
            raise Beyond("pattern " + self.s)
        return r

    def peek(self):
        return self.s[self.i] if self.i < len(self.s) else None

    def alt(self):
        xs = [self.seq()]
        while self.peek() == "|":
            self.i += 1
            xs.append(self.seq())
        return xs[0] if len(xs) == 1 else ("alt", xs)

    def seq(self):
        xs = []
        while self.peek() not in (None, "|", ")"):
            xs.append(self.rep())
        return seq_of(xs) if xs else ("seq", [])

    def rep(self):
        x = self.atom()
        while self.peek() in ("*", "+", "?", "{"):
            c = self.s[self.i]
            self.i += 1
            if c == "{" or self.peek() == "?":
                raise Beyond("repetition")
            x = {"*": ("star", x), "?": ("opt", x), "+": seq_of([x, ("star", x)])}[c]
        return x

    def atom(self):
        c = self.s[self.i]
        self.i += 1
        if c == "(":
            if self.peek() == "?":
                if self.s.startswith("?:", self.i):
                    self.i += 2
                else:
                    m = re.compile(r"\?P?<\w+>").match(self.s, self.i)
                    if not m:
                        raise Beyond("group flags")
                    self.i = m.end()
            r = self.alt()
            if self.peek() != ")":
                raise Beyond("group")
            self.i += 1
            return r
        if c == "[":
            return ("class", self.cls())
        if c == ".":
            return ("class", ALL - {"\n"})
        if c in "^$":
            raise Beyond("anchor")
        if c == "\\":
            k, v = self.esc()
            return (k, v)
        if c in "*+?{":
            raise Beyond("repetition of nothing")
        return ("set", frozenset(syms(c)))

    def esc(self):
        c = self.s[self.i]
        self.i += 1
        if c in "wWdDsS":
            b = {"w": WORD, "d": DIGIT, "s": SPACE}[c.lower()]
            return "class", (b if c.islower() else ALL - b)
        if c in "nrtfv0a":
            return "set", frozenset({"n": "\n", "r": "\r", "t": "\t", "f": "\f", "v": "\v", "0": "\0", "a": "\a"}[c])
        if c in "xuU":
            if self.peek() == "{":
                j = self.s.index("}", self.i)
                h = self.s[self.i + 1:j]
                self.i = j + 1
            else:
                n = {"x": 2, "u": 4, "U": 8}[c]
                h = self.s[self.i:self.i + n]
                self.i += n
            return "set", frozenset(syms(chr(int(h, 16))))
        if c.isalnum():
            raise Beyond("escape \\" + c)
        return "set", frozenset(syms(c))

    def cls(self):
        neg = self.peek() == "^"
        if neg:
            self.i += 1
        out = set()
        first = True
        while True:
            c = self.peek()
            if c is None:
                raise Beyond("class")
            if c == "]" and not first:
                self.i += 1
                break
            if self.s[self.i:self.i + 2] in ("&&", "--", "~~"):
                raise Beyond("class operator")
            first = False
            if c == "[":
                m = re.compile(r"\[:(\^?)(\w+):\]").match(self.s, self.i)
                if m and m.group(2) in POSIX:
                    self.i = m.end()
                    b = {ch for ch in ALL if len(ch) == 1 and POSIX[m.group(2)].match(ch)}
                    out |= (ALL - b) if m.group(1) else b
                    continue
                self.i += 1
                out |= self.cls()
                continue
            lo = self.one()
            if len(lo) == 1 and self.peek() == "-" and self.s[self.i + 1:self.i + 2] not in ("]", "-", ""):
                self.i += 1
                hi = self.one(True)
                a = next(iter(lo))
                if hi == "\U0010ffff":
                    out |= {chr(k) for k in range(ord(a), 128)} | set(FAR)
                    continue
                if len(hi) != 1 or len(next(iter(hi))) != 1:
                    raise Beyond("range")
                b = next(iter(hi))
                if a > b:
                    raise Beyond("range")
                out |= {chr(k) for k in range(ord(a), ord(b) + 1)}
            else:
                out |= lo
        return frozenset(ALL - out if neg else out)

    def one(self, end=False):
        c = self.s[self.i]
        self.i += 1
        if c == "\\":
            if end and re.compile(r"[uUx]\{0*10[fF]{4}\}").match(self.s, self.i):
                self.i = self.s.index("}", self.i) + 1
                return "\U0010ffff"
            return set(self.esc()[1])
        return syms(c)


# ------------------------------------------------------------------------------------ automata
class Nfa:
    def __init__(self, defs):
        self.eps, self.step, self.acc = [], [], {}
        self.start = self.new()
        for i, d in enumerate(defs):
            a, b = self.build(d.regex)
            self.eps[self.start].append(a)
            self.acc[b] = i
        self.defs = defs

    def new(self):
        self.eps.append([])
        self.step.append(None)
        return len(self.eps) - 1

    def build(self, r):
        a, b = self.new(), self.new()
        if r[0] in ("set", "class"):
            self.step[a] = (r[1], b)
        elif r[0] == "seq":
            cur = a
            for x in r[1]:
                p, q = self.build(x)
                self.eps[cur].append(p)
                cur = q
            self.eps[cur].append(b)
        elif r[0] == "alt":
            for x in r[1]:
                p, q = self.build(x)
                self.eps[a].append(p)
                self.eps[q].append(b)
        else:
            p, q = self.build(r[1])
            self.eps[a] += [p, b]
            self.eps[q].append(b)
            if r[0] == "star":
                self.eps[q].append(p)
        return a, b

    def close(self, ss):
        out, st = set(ss), list(ss)
        while st:
            for y in self.eps[st.pop()]:
                if y not in out:
                    out.add(y)
                    st.append(y)
        return frozenset(out)

    def go(self, ss, c):
        return self.close({self.step[s][1] for s in ss if self.step[s] and c in self.step[s][0]})

    def label(self, ss):
        hit = [self.acc[s] for s in ss if s in self.acc]
        if not hit:
            return None
        top = max(self.defs[i].priority for i in hit)
        ls = {self.defs[i].label() for i in hit if self.defs[i].priority == top}
        if len(ls) > 1:
            raise Beyond("two tokens of one priority match the same text")
        return next(iter(ls))


def compare(a, b):
    """-> (states looked at, None) or (states, (text, what a says, what b says))"""
    na, nb = Nfa(a.defs), Nfa(b.defs)
    s0 = (na.close({na.start}), nb.close({nb.start}))
    seen, todo = {s0: ""}, [s0]
    order = sorted(ALL, key=lambda c: (len(c) > 1, not c.isalnum(), not c.isprintable(), c))
    for st in todo:
        # the empty text is no token
        if st is not s0 or True:
            la, lb = na.label(st[0]), nb.label(st[1])
            if la != lb and (seen[st] or st is s0):
                return len(todo), (seen[st], la, lb)
        for c in order:
            n = (na.go(st[0], c), nb.go(st[1], c))
            if (n[0] or n[1]) and n not in seen:
                seen[n] = seen[st] + ({"far:d": "\u0661", "far:w": "\u00e9", "far:s": "\u00a0", "far:-": "\u2192"}.get(c, c))
                todo.append(n)
    return len(todo), None


def say(l):
    return "nothing" if l is None else "skipped text" if l[0] == "skip" else "a " + l[1]


def first_match(a, text):
    """(length, label) of the longest match at the front (development only)."""
    n = Nfa(a.defs)
    s = n.close({n.start})
    best = (0, None)
    for i, c in enumerate(text):
        s = n.go(s, c)
        if not s:
            break
        l = n.label(s)
        if l:
            best = (i + 1, l)
    return best
