H = '''
use lrp::*;
use std::collections::BTreeMap;
#[allow(unused)]
fn g(start: &'static str, rules: &[(&'static str, &[&[&'static str]])]) -> Grammar<&'static str> {
    let mut m: BTreeMap<&'static str, lrp::grammar::Rule<&'static str>> = BTreeMap::new();
    for (n, ps) in rules {
        m.insert(*n, lrp::grammar::Rule::new(*n, ps.iter().map(|p| p.to_vec())));
    }
    Grammar::new(start, m, "$")
}
#[allow(unused)]
fn toks<'a>(s: &'a [&'static str]) -> std::vec::IntoIter<Token<(), &'static str>> {
    s.iter().map(|t| Token::empty(*t)).collect::<Vec<_>>().into_iter()
}
'''
W = '''
use std::str::FromStr;
use wop::builder::*;
#[allow(unused)]
fn quiet() { std::panic::set_hook(Box::new(|_| {})); }
'''
SEEDS = [
("C01-third-action", "C01",
 [("src/slr.rs", "if map.contains_key(&term) && map[&term] != act {", "if matches!(map.get(&term), Some(Action::Conflict(..))) {\n                        continue;\n                    }\n                    if map.contains_key(&term) && map[&term] != act {")],
 "lrp", H + '''
fn n(a: &Action<&'static str>) -> usize { if let Action::Conflict(x, y) = a { n(x) + n(y) } else { 1 } }
fn main() {
    let p = Slr::new(g("S", &[("S", &[&["X"]]), ("X", &[&["A"], &["B"], &["C"]]), ("A", &[&["t"]]), ("B", &[&["t"]]), ("C", &[&["t"]])]));
    let m = p.tables().conflicts().map(n).max();
    assert_eq!(m, Some(3), "three reductions compete for one cell");
}
''', "a cell with three competing actions", "the third and later actions of a conflicting cell of the SLR table are dropped"),
("C02-prefer-shift", "C02",
 [("src/dfa.rs", "            Action::Conflict(a, b) => Err(Error::Conflict(*a.clone(), *b.clone())),", "            Action::Conflict(a, b) => match (&**a, &**b) {\n                (Action::Reduce(..), Action::Shift(to)) => self.shift(*to),\n                _ => Err(Error::Conflict(*a.clone(), *b.clone())),\n            },")],
 "lrp", H + '''
fn main() {
    let t = "t";
    for flip in [false, true] {
        let prod = std::rc::Rc::new((vec![t], 0));
        let a = Action::Shift(1);
        let b = Action::Reduce("X", prod);
        let (a, b) = if flip { (b, a) } else { (a, b) };
        let table = vec![BTreeMap::from([(t, Action::Conflict(Box::new(a.clone()), Box::new(b.clone())))])];
        let mut d = Dfa::new(toks(&["t"]), table, ReductMap::new(), "$");
        assert_eq!(d.travel(&t), Err(Error::Conflict(a, b)));
    }
}
''', "a conflict cell whose first action is a reduction and whose second is a shift", "such a conflict is silently resolved by shifting"),
("C03-eof-in-buffer", "C03",
 [("src/dfa.rs", "        if self.buffer.peek().is_none() {", "        if self.buffer.peek().map_or(true, |t| t.ty == self.eof) {")],
 "lrp", H + '''
fn main() {
    let p = Slr::new(g("S", &[("S", &[&["a"]])]));
    assert!(p.validate(toks(&["a"])));
    assert!(!p.validate(toks(&["a", "$", "a"])), "accepted with tokens left");
}
''', "an end-of-file token inside the buffer with tokens behind it", "acceptance with unread input"),
("C05-first-token", "C05",
 [("src/dfa.rs", "        let items = &self.items[len - prod.0.len()..];", "        let items = if prod.0.len() < 4 { &self.items[len - prod.0.len()..] } else { &self.items[..prod.0.len()] };")],
 "lrp", H + '''
fn red(t: &[Token<String, &'static str>]) -> String { format!("({})", t.iter().map(|t| t.item.clone()).collect::<Vec<_>>().join("")) }
fn main() {
    let p = Clr::new(g("S", &[("S", &[&["L"]]), ("L", &[&["L", "E"], &["E"]]), ("E", &[&["a", "b", "c", "d"]])]));
    let map = BTreeMap::from([("S", vec![red as ReductFn<_, _>]), ("L", vec![red, red]), ("E", vec![red])]);
    let inp = ["a", "b", "c", "d", "a", "b", "c", "d"];
    let v: Vec<_> = inp.iter().map(|t| Token::new(t.to_string(), *t)).collect();
    let r = p.parse(v, map).unwrap();
    assert_eq!(r, "(((abcd))(abcd))");
}
''', "a production of four or more symbols reduced above other stack items", "the reductor gets the bottom of the stack instead of its own body"),
("C07-reset-late", "C07",
 [("src/dfa.rs", "        self.reset();\n        self.buffer = input.peekable();", "        if self.finished {\n            self.reset();\n        }\n        self.buffer = input.peekable();")],
 "lrp", H + '''
fn main() {
    let p = Lalr::new(g("S", &[("S", &[&["a", "b", "c"]])]));
    let mut d = p.simple_dfa(toks(&[]));
    assert!(d.parse(toks(&["a", "b", "c"])).is_ok());
    assert!(d.parse(toks(&["a", "b"])).is_err());
    assert!(d.parse(toks(&["c"])).is_err(), "continued the failed parse");
    assert!(d.parse(toks(&["a", "b", "c"])).is_ok());
}
''', "a failed parse followed by another on the same automaton", "the second parse starts from the stacks of the failed one"),
("C08-right-recursive", "C08",
 [("src/tabler.rs", "                    if rc.0[0] == rule.name {", "                    if rc.0[0] == rule.name || rc.0.len() > 3 && rc.0[3] == rule.name {")],
 "lrp", H + '''
fn main() {
    let t = Tabler::new(g("S", &[("S", &[&["E"]]), ("E", &[&["a", "b", "c", "E"], &["d"]])]));
    assert_eq!(t.first["E"], Set::from(["a", "d"]));
}
''', "a production with its own rule as the fourth symbol", "the first symbol of that production is missing from FIRST"),
("C09-inner-recursion", "C09",
 [("src/tabler.rs", "                    if !self.grammar.is_terminal(&prod[term_idx]) {", "                    if !self.grammar.is_terminal(&prod[term_idx])\n                        && (term_idx < 2 || prod[term_idx] != rule.name)\n                    {")],
 "lrp", H + '''
fn main() {
    let t = Tabler::new(g("S", &[("S", &[&["E"]]), ("E", &[&["<", "<", "E", ">"], &["d"]])]));
    assert_eq!(t.follow["E"], Set::from(["$", ">"]));
}
''', "a rule that mentions itself inside one of its productions", "what follows it there is missing from FOLLOW"),
("C10-bounded", "C10",
 [("src/lib.rs", "    loop {\n        let new = map(val.clone());\n        if new == val {", "    let mut rounds = 0;\n    loop {\n        rounds += 1;\n        let new = map(val.clone());\n        if new == val || rounds == 64 {")],
 "lrp", H + '''
fn main() {
    assert_eq!(transitive(0usize, |n| if n < 500 { n + 1 } else { n }), 500);
}
''', "more than 64 rounds until the fixpoint", "the iteration stops before the fixpoint"),
("C11-self-look", "C11",
 [("src/clr.rs", "                    |locus| self.table.first_of(&Set::from([locus])),", "                    |locus| {\n                        if locus == pos.rule && pos.point > 1 {\n                            pos.look.clone()\n                        } else {\n                            self.table.first_of(&Set::from([locus]))\n                        }\n                    },")],
 "lrp", H + '''
fn main() {
    let p = Clr::new(g("S", &[("S", &[&["L"]]), ("L", &[&["<", "-", "I", "L"], &["."]]), ("I", &[&["i"]])]));
    assert!(p.validate(toks(&["<", "-", "i", "."])));
    assert!(p.validate(toks(&["<", "-", "i", "<", "-", "i", "."])));
}
''', "a production that ends in a rule followed by its own rule, at depth two or more", "the lookahead of the inner rule is that of the outer one"),
("C13-closure-items", "C13",
 [("src/lalr.rs", "            .chain(closures)\n", "            .chain(closures.into_iter().filter(|p| p.point > 0 || p.seq.0.len() > 1))\n")],
 "lrp", H + '''
fn main() {
    // S -> E; E -> a X y | b X z | ...: the state behind `X` in two contexts
    let gr = g("S", &[("S", &[&["E"]]), ("E", &[&["a", "P", "y"], &["b", "P", "z"]]), ("P", &[&["p", "X"]]), ("X", &[&["x"]])]);
    let p = Lalr::new(gr);
    assert!(p.validate(toks(&["a", "p", "x", "y"])));
    assert!(p.validate(toks(&["b", "p", "x", "z"])));
    let st = p.tables().states.iter().find(|s| s.iter().any(|q| q.rule == "P" && q.point == 1)).unwrap();
    let x = st.iter().find(|q| q.rule == "X").unwrap();
    assert_eq!(x.look, Set::from(["y", "z"]));
}
''', "a single-symbol production in the closure of a state merged from two contexts", "its lookahead from the second context is lost"),
("C17-second-of-conflict", "C17",
 [("src/tabler.rs", "                Self::update_entry(a, travel);\n                Self::update_entry(b, travel);", "                Self::update_entry(a, travel);\n                if matches!(**a, Action::Shift(_)) {\n                    Self::update_entry(b, travel);\n                }")],
 "lrp", H + '''
fn main() {
    let prod = std::rc::Rc::new((vec!["a"], 0));
    let travel = BTreeMap::from([(7usize, 3usize)]);
    for flip in [false, true] {
        let mk = |n| { let (x, y) = (Action::Reduce("S", prod.clone()), Action::Shift(n)); if flip { Action::Conflict(Box::new(y), Box::new(x)) } else { Action::Conflict(Box::new(x), Box::new(y)) } };
        let mut a = mk(7);
        Tabler::update_entry(&mut a, &travel);
        assert_eq!(a, mk(3));
    }
}
''', "row reduction on a table with a reduce/shift conflict", "the shift of such a conflict keeps the old state number"),
("C19-duplicate", "C19",
 [("src/grammar.rs", "                .enumerate()\n                .map(|(i, p)| Rc::new((p, i)))\n                .collect(),", "                .enumerate()\n                .map(|(i, p)| Rc::new((p, i & 0xff)))\n                .collect(),")],
 "lrp", H + '''
fn main() {
    let r = lrp::grammar::Rule::new("S", (0..300).map(|_| vec!["a"]));
    for (i, p) in r.prods().enumerate() { assert_eq!(p.1, i); }
}
''', "a rule with more than 256 productions", "production numbers wrap around, so wrong reductors run"),
("C24-empty-production", "C24",
 [("wop/src/builder.rs", "        for prod in prods {\n            out.push_str(\"\\t\\tvec![\");", "        for prod in prods {\n            if prod.production.is_empty() {\n                continue;\n            }\n            out.push_str(\"\\t\\tvec![\");")],
 "wop", W + '''
fn main() {
    let src = r#"use crate::Sym::*; X: A = A? -> { 1 }% | B -> { 2 }%;"#;
    let mut b = Builder::from_str(src).unwrap();
    b.entry_type = "T".into();
    let g = b.dump_grammar(src);
    let r = b.dump_reductor(src);
    let prods = g.matches("vec![").count() - 1;
    let fns = r.matches("fn lrp_wop_").count();
    assert_eq!(prods, fns, "{g}\\n{r}");
}
''', "a production whose only item is optional", "the generated grammar has fewer productions than reductors, so later ones run the wrong code"),
("C25-wrong-alias", "C25",
 [("wop/src/builder.rs", "                ignored_prod.production.pop();\n                if alias.is_some() {\n                    ignored_prod.aliases.last_mut().unwrap().optional = Some(false);\n                }", "                ignored_prod.production.pop();\n                if let Some(alias) = ignored_prod.aliases.last_mut() {\n                    alias.optional = Some(false);\n                }")],
 "wop", W + '''
fn main() {
    let src = r#"use crate::Sym::*; X: A = A:a B? -> { a }%;"#;
    let mut b = Builder::from_str(src).unwrap();
    b.entry_type = "T".into();
    let r = b.dump_reductor(src);
    assert_eq!(r.matches("let a = &toks[0];").count(), 2, "{r}");
}
''', "an optional item without an alias behind an item with one", "the earlier alias is bound to None when the optional item is absent"),
("C26-merge-rules", "C26",
 [("wop/src/builder.rs", "        assert!(\n            self.rules\n                .insert(rule_ident.from_source(src).to_string(), rules)\n                .is_none(),\n            \"rule {} was already defined\",\n            rule_ident.from_source(src)\n        );", "        self.rules\n            .entry(rule_ident.from_source(src).to_string())\n            .or_default()\n            .extend(rules);")],
 "wop", W + '''
fn main() {
    quiet();
    let src = r#"use crate::Sym::*; X: A = A -> { 1 }%; X: B = B -> { 2 }%;"#;
    assert!(std::panic::catch_unwind(|| Builder::from_str(src).is_ok()).is_err(), "X was defined twice");
}
''', "a rule defined twice", "the second definition is merged into the first with the wrong type"),
("C28-recover", "C28",
 [("wop/src/builder.rs", "        dfa.start()?;", "        if let Err(e) = dfa.start() {\n            if !matches!(dfa.items.first(), Some(t) if t.ty == Sym::Program) {\n                return Err(e);\n            }\n        }")],
 "wop", W + '''
fn main() {
    quiet();
    let src = r#"use crate::Sym::*; X: A = A -> { 1 }%; Y: A = B -> { 2 }%"#;
    let r = std::panic::catch_unwind(|| Builder::from_str(src).is_err());
    assert!(matches!(r, Ok(true)), "the syntax error was swallowed");
}
''', "a syntax error behind complete declarations", "the error is dropped and a builder for the part before it is returned"),
("C29-index-core", "C29",
 [("src/pos.rs", "        self.point == rhs.point && self.seq == rhs.seq && self.rule == rhs.rule", "        self.point == rhs.point && self.seq.1 == rhs.seq.1 && self.seq.0.len() == rhs.seq.0.len() && self.rule == rhs.rule")],
 "lrp", H + '''
fn main() {
    let p = |s: &'static str| Position::new("S", std::rc::Rc::new((vec![s], 0)), 0, Set::new());
    assert!(!p("a").body_eq(&p("b")));
    assert!(p("a").body_eq(&p("a")));
}
''', "items of different grammars with the same rule, index and length", "items with different bodies count as the same core"),
]
