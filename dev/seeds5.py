"""C06 on lines of the original repository."""
SEEDS = [
("C06-conflicts-unexpected", "C06", [("src/dfa.rs", "            Error::UnexpectedToken(symbol.clone(), expecteds)", """            let plain = Vec::into_iter(expecteds).filter(|s| !matches!(state[s], Action::Conflict(..)));
            Error::UnexpectedToken(symbol.clone(), plain.collect())""")], "lrp", 'use lrp::*;\nuse std::collections::BTreeMap;\n#[allow(unused)]\nfn g(start: &\'static str, rules: &[(&\'static str, &[&[&\'static str]])]) -> Grammar<&\'static str> {\n    let mut m: BTreeMap<&\'static str, lrp::grammar::Rule<&\'static str>> = BTreeMap::new();\n    for (n, ps) in rules {\n        m.insert(*n, lrp::grammar::Rule::new(*n, ps.iter().map(|p| p.to_vec())));\n    }\n    Grammar::new(start, m, "$")\n}\n#[allow(unused)]\nfn toks<\'a>(s: &\'a [&\'static str]) -> std::vec::IntoIter<Token<(), &\'static str>> {\n    s.iter().map(|t| Token::empty(*t)).collect::<Vec<_>>().into_iter()\n}\n\nfn main() {\n    let p = Slr::new(g("S", &[("S", &[&["X", "u"]]), ("X", &[&["A"], &["B"], &["z"]]), ("A", &[&["t"]]), ("B", &[&["t"]])]));\n    let mut d = p.simple_dfa(vec![Token::empty("t"), Token::empty("z")]);\n    match d.start() {\n        Err(Error::UnexpectedToken("z", e)) => assert_eq!(e, vec!["u"], "u has an action there"),\n        r => panic!("{r:?}"),\n    }\n}\n',
 "an unexpected token in a state with a conflict cell", "symbols whose cell is a conflict are missing among the expected ones"),
]
