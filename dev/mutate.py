"""Writes a corpus of one-token mutants of /repo: python3 dev/mutate.py > /tmp/w/mutants.py"""
import re, sys
R = "/repo/"
FILES = ["src/" + f for f in ("lib.rs", "grammar.rs", "pos.rs", "tabler.rs", "clr.rs", "slr.rs", "lalr.rs", "dfa.rs", "parser.rs")] + \
    ["wop/src/" + f for f in ("lib.rs", "builder.rs")]
OPS = [(r"==", "!="), (r"!=", "=="), (r" < ", " <= "), (r" >= ", " > "), (r"&&", "||"), (r" \+ 1\b", " + 2"), (r" - 1\b", ""), (r" \+ ", " - "),
       (r"(?<![-=]) - ", " + "), (r"\bis_none\(\)", "is_some()"), (r"\bis_some\(\)", "is_none()"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
       (r"\bcontinue\b(?! ')", "break"), (r"\bbreak\b", "continue"), (r"if !", "if "), (r"\bif (?!let|!)", "if !"), (r"\.next\(\)", ".top()"), (r"\.top\(\)", ".next()"),
       (r"\[0\]", "[1]"), (r"\(0\)", "(1)"), (r", 0,", ", 1,"), (r"\bNone\?", "()"), (r"\.first\(\)", ".last()"), (r"\.last\(\)", ".first()"),
       (r"\.last_mut\(\)", ".first_mut()"), (r"\.contains\(", ".is_superset("), (r"\.any\(", ".all("), (r"&&\s*\S.*$", ""), (r"\|\|[^|]*$", ""),
       (r"\.filter\([^()]*(\([^()]*\)[^()]*)*\)", ""), (r"\.take\(1\)", ".skip(1)"), (r"\ba\b", "b"), (r"Shift\(", "Goto("), (r"Goto\(", "Shift("),
       (r"\.\.", "..="), (r"\.chain\(\w+\)", ""), (r"Set::new\(\)", "look.clone()"), (r"\.extend\(", ".append(&mut "), (r"\.retain\(\|t\| ", ".retain(|t| !"),
       (r"filter\(\|(\w+)\| ", r"filter(|\1| !"), (r"\blen - ", "len + "), (r"\.truncate\(", ".split_off("), (r'\\n', ''), (r'\\t', ''), (r'"\]"', '")"'),
       (r"\.start\b", ".end"), (r"\.end\b", ".start"), (r"\bi\b", "(i + 1)"), (r"\.index\b", ".index.max(1)"), (r"\.pop\(\)", ".last().cloned()"),
       (r"\.insert\(", ".contains("), (r"\.pop_first\(\)", ".pop_last()"), (r"\.rev\(\)", ""), (r"\.iter\(\)", ".iter().rev()"), (r"\.values\(\)", ".values().skip(1)")]


def main():
    cases = {}
    for f in FILES:
        s = open(R + f).read()
        cut = s.find("#[cfg(test)]")
        body = s if cut < 0 else s[:cut]
        pos = 0
        for ln, line in enumerate(body.split("\n"), 1):
            code = line.split("// ")[0] if not line.strip().startswith("//") else ""
            if code.strip() and not code.strip().startswith(("#", "use ", "pub use", "pub mod", "pub type")):
                new = []
                for pat, rep in OPS:
                    for k, m in enumerate(list(re.finditer(pat, code))[:2]):
                        new.append(code[:m.start()] + m.expand(rep) + code[m.end():] + line[len(code):])
                st = code.strip()
                if st.endswith(";") and not st.startswith(("let ", "}", "pub ", ")", ".", "return")) and st.count("(") == st.count(")") and "(" in st or st in ("continue;", "break;", "idx += 1;", "self.point += 1;", "self.finished = true;", "self.finished = false;", "self.top = 0;", "self.top = to;") :
                    new.append("")
                for n in dict.fromkeys(new):
                    if n != line:
                        cases["%s:%d:%d" % (f, ln, len(cases))] = (f, pos, line, n)
            pos += len(line) + 1
    print("CASES = {}\ndef c(n, f, pos, old, new):\n    CASES[n] = [('@', f, pos, old, new)]")
    for n, (f, p, o, w) in cases.items():
        print("c(%r, %r, %d, %r, %r)" % (n, f, p, o, w))


main()
