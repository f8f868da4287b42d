H = '''
use lrp::*;
use std::collections::BTreeMap;
#[allow(unused)]
fn g(start: &'static str, rules: &[(&'static str, &[&[&'static str]])]) -> Grammar<&'static str> {
    let mut m: BTreeMap<&'static str, lrp::grammar::Rule<&'static str>> = BTreeMap::new();
    for (n, ps) in rules {
        m.insert(*n, lrp::grammar::Rule::new(*n, ps.iter().map(|p| p.to_vec())));
    }
    Grammar::new(start, m, "$")
}
#[allow(unused)]
fn toks<'a>(s: &'a [&'static str]) -> std::vec::IntoIter<Token<(), &'static str>> {
    s.iter().map(|t| Token::empty(*t)).collect::<Vec<_>>().into_iter()
}
'''
W = '''
use std::str::FromStr;
use wop::builder::*;
#[allow(unused)]
fn quiet() { std::panic::set_hook(Box::new(|_| {})); }
'''
SEEDS = [
("C04-push-before-take", "C04",
 [("src/dfa.rs", "        let item = self.buffer.next().ok_or(Error::UnexpectedEof)?;\n        self.items.push(item);\n        self.top = to;\n        self.states.push(self.top);\n        Ok(())", "        self.top = to;\n        self.states.push(self.top);\n        let item = self.buffer.next().ok_or(Error::UnexpectedEof)?;\n        self.items.push(item);\n        Ok(())")],
 "lrp", H + '''
fn main() {
    let p = Slr::new(g("S", &[("S", &[&["a", "b"]])]));
    let mut d = p.simple_dfa(vec![Token::empty("a")]);
    assert_eq!(d.shift(1), Ok(()));
    let (s, n, t) = (d.states.clone(), d.items.len(), d.top);
    assert_eq!(d.shift(2), Err(Error::UnexpectedEof));
    assert_eq!((d.states.clone(), d.items.len(), d.top), (s, n, t), "a failed shift changes nothing");
}
''', "a shift with no input left", "a shift that fails for lack of input has already entered the state"),
("C06-conflicts-unexpected", "C06",
 [("src/dfa.rs", "                .map(|(s, _)| s.clone())", "                .filter_map(|(s, a)| match a {\n                    Action::Conflict(..) => None,\n                    _ => Some(s.clone()),\n                })")],
 "lrp", H + '''
fn main() {
    let p = Slr::new(g("S", &[("S", &[&["X", "u"]]), ("X", &[&["A"], &["B"], &["z"]]), ("A", &[&["t"]]), ("B", &[&["t"]])]));
    let mut d = p.simple_dfa(vec![Token::empty("t"), Token::empty("z")]);
    match d.start() {
        Err(Error::UnexpectedToken("z", e)) => assert_eq!(e, vec!["u"], "u has an action there"),
        r => panic!("{r:?}"),
    }
}
''', "an unexpected token in a state with a conflict cell", "symbols whose cell is a conflict are missing among the expected ones"),
("C12-own-look", "C12",
 [("src/slr.rs", "new_state.insert(Position::new(top.clone(), prod.clone(), 0, Set::new()));", "new_state.insert(Position::new(top.clone(), prod.clone(), 0, pos.look.clone()));"),
  ("src/slr.rs", "use crate::{transitive, Action, Map, Parser, Position, Set, State, Tabler};", "use crate::{transitive, Action, Map, Parser, Position, State, Tabler};")],
 "lrp", H + '''
fn main() {
    let p = Slr::new(g("S", &[("S", &[&["E"]]), ("E", &[&["(", "E", ")"], &["x"]])]));
    for s in &p.tables().states {
        for i in s {
            assert!(i.rule == "S" || i.look.is_empty(), "an SLR item needs no lookahead: {i:?}");
        }
    }
}
''', "items added by closing the entry item", "SLR items carry the end marker, so the same core gives different kernels"),
("C15-by-body", "C15",
 [("src/clr.rs", "                                Action::Reduce(pos.rule.clone(), pos.seq.clone())", "                                let prods = &self.table.grammar.rules[&pos.rule].prods;\n                                let prod = prods.iter().find(|p| p.0 == pos.seq.0);\n                                Action::Reduce(pos.rule.clone(), prod.unwrap_or(&pos.seq).clone())")],
 "lrp", H + '''
fn main() {
    let p = Clr::new(g("S", &[("S", &[&["A", "u"]]), ("A", &[&["t"], &["t"]])]));
    assert_eq!(p.tables().conflicts().count(), 1, "two productions compete");
}
''', "two productions of a rule with the same body", "every reduction uses the first production with that body"),
("C16-skip-eof", "C16",
 [("src/clr.rs", "            for s in self.table.grammar.symbols() {", "            let eof = self.table.basis_pos().look;\n            for s in self.table.grammar.symbols().filter(|s| !eof.contains(s)) {")],
 "lrp", H + '''
fn main() {
    let p = Clr::new(g("S", &[("S", &[&["A", "$"]]), ("A", &[&["t"]])]));
    assert!(p.tables().states.len() > 3);
}
''', "a grammar that names the end marker in a production", "transitions on the end marker are never explored"),
("C18-known-terminals", "C18",
 [("src/grammar.rs", "        !self.rules.contains_key(term)\n    }", "        self.terminals.contains(term)\n    }")],
 "lrp", H + '''
fn main() {
    let x = g("S", &[("S", &[&["A"]]), ("A", &[&["t"]])]);
    assert!(x.is_terminal(&"t") && x.is_terminal(&"$") && !x.is_terminal(&"A"));
    assert!(x.is_terminal(&"other"), "no rule has that name");
}
''', "a symbol the grammar does not use", "a symbol outside the grammar is taken for a rule"),
("C20-step-budget", "C20",
 [("src/dfa.rs", "        while !self.finished {\n            f(self);", "        static STEPS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n        while !self.finished {\n            if STEPS.fetch_add(1, std::sync::atomic::Ordering::Relaxed) > 1 << 20 {\n                return Err(Error::IncompleteExec);\n            }\n            f(self);")],
 "lrp", H + '''
fn main() {
    let p = Slr::new(g("S", &[("S", &[&["L"]]), ("L", &[&["L", "t"], &["t"]])]));
    let t = vec!["t"; 1000];
    for i in 0..2000 {
        assert!(p.validate(toks(&t)), "run {i}");
    }
}
''', "more than a million steps in one process", "a global counter makes every later parse fail"),
("C20-hash-order", "C20",
 [("src/slr.rs", "            for s in self.table.grammar.symbols() {", "            let top: std::collections::HashMap<usize, T> =\n                self.table.grammar.symbols().enumerate().collect();\n            for s in top.into_values() {")],
 "lrp", H + '''
fn main() {
    let one = || {
        let p = Slr::new(g("S", &[("S", &[&["A"]]), ("A", &[&["a"], &["b"], &["c"], &["d"], &["e"], &["f"], &["h"], &["i"]])]));
        p.tables().actions.clone()
    };
    let first = one();
    for _ in 0..50 {
        assert_eq!(one(), first, "the same grammar gives the same table");
    }
}
''', "building a table twice", "states are numbered in hash order"),
("C21-ordered", "C21",
 [("src/lib.rs", "            start: value.0,\n            end: value.1,", "            start: value.0.min(value.1),\n            end: value.1.max(value.0),")],
 "lrp", H + '''
fn main() {
    let s = Span::from((7, 3));
    assert_eq!((s.start, s.end), (7, 3));
}
''', "a pair in falling order", "a span from a pair swaps start and end"),
("C22-span-glob", "C22",
 [("wop/src/out.rs", "                        toks.last().unwrap().item.span.end,\n                    ))\n                }\n            },\n            lrp::Span::new(toks[0].item.span.start, toks.last().unwrap().item.span.end),\n        )\n    }\n    fn lrp_wop_Import_1", "                        toks.last().unwrap().item.span.end,\n                    ))\n                }\n            },\n            lrp::Span::new(toks[0].item.span.start, toks[1].item.span.end),\n        )\n    }\n    fn lrp_wop_Import_1")],
 "wop", W + '''
fn main() {
    let src = "use crate::Sym::*;";
    let mut d = wop::build_parser(wop::lexer(src));
    let mut ends = vec![];
    let _ = d.trace(|d| for i in &d.items { if i.ty == wop::Sym::Import { ends.push(i.item.span.end) } });
    assert!(!ends.is_empty() && ends.iter().all(|e| *e == src.len() - 1), "{ends:?}");
}
''', "a glob import", "the span of a glob import stops before the star"),
("C23-clone-of-string", "C23",
 [("wop/src/out.rs", "    fn lrp_wop_RuleItem_9(toks: &[Gramem]) -> lrp::Meta<Ast> {\n        lrp::Meta::new(\n            {\n                let item = Some(toks[0].clone());\n                let mut opt = Some(toks[0].clone());\n                opt = None;\n                let opt = opt;\n                let cl = Some(toks[2].clone());\n                let id = Some(toks[3].clone());", "    fn lrp_wop_RuleItem_9(toks: &[Gramem]) -> lrp::Meta<Ast> {\n        lrp::Meta::new(\n            {\n                let item = Some(toks[0].clone());\n                let mut opt = Some(toks[0].clone());\n                opt = None;\n                let opt = opt;\n                let mut cl = Some(toks[0].clone());\n                cl = None;\n                let cl = cl;\n                let id = Some(toks[3].clone());")],
 "wop", W + '''
fn main() {
    for item in ["A", "(A)", "\\"a\\""] {
        let src = format!("use crate::Sym::*; alias \\"a\\" A; X: A = {item}:&n B -> {{ 1 }}%;");
        let mut b = Builder::from_str(&src).unwrap();
        b.entry_type = "T".into();
        let r = b.dump_reductor(&src);
        assert!(r.contains("].clone();") || r.contains("].to_vec();"), "{item}: {r}");
    }
}
''', "a mandatory item of one kind bound by clone", "the clone mark of such an item is dropped, so it is bound by reference"),
("C27-hash-imports", "C27",
 [("wop/src/builder.rs", "        let mut out = \"{\\n\".to_string();\n        self.imports.iter().for_each(|i| {\n            writeln!(out, \"\\tuse {};\", i.from_source(src)).unwrap();\n        });\n        writeln!(out, \"\\tlet mut map = lrp::RuleMap::new();\").unwrap();", "        let mut out = \"{\\n\".to_string();\n        let imports: std::collections::HashSet<_> =\n            self.imports.iter().map(|i| i.from_source(src)).collect();\n        imports.into_iter().for_each(|i| {\n            writeln!(out, \"\\tuse {i};\").unwrap();\n        });\n        writeln!(out, \"\\tlet mut map = lrp::RuleMap::new();\").unwrap();")],
 "wop", W + '''
fn main() {
    let src = r#"use a::b; use c::d; use e::f; use g::h; use i::j; X: A = A -> { 1 }%;"#;
    let one = || Builder::from_str(src).unwrap().dump_grammar(src);
    let first = one();
    for _ in 0..50 {
        assert_eq!(one(), first);
    }
}
''', "several imports", "imports come out in hash order"),
("C14-enough-look", "C14",
 [("src/lalr.rs", "        if &new_kernel == main {\n            None?;\n        }", "        if &new_kernel == main || main.iter().all(|p| p.look.len() > 4) {\n            None?;\n        }")],
 "lrp", H + """
fn main() {
    let p = Lalr::new(g("S", &[("S", &[&["X"]]), ("X", &[&["q", "A", "1"], &["r", "A", "2"], &["s", "A", "3"], &["t", "A", "4"], &["u", "A", "5"], &["v", "A", "6"], &["w", "A", "7"]]), ("A", &[&["a"]])]));
    for (x, y) in [("q", "1"), ("r", "2"), ("s", "3"), ("t", "4"), ("u", "5"), ("v", "6"), ("w", "7")] {
        assert!(p.validate(toks(&[x, "a", y])), "{y} is a lookahead of A -> a.");
    }
}
""", "a state reached in more than five contexts", "lookaheads of a later context are dropped"),
]
