"""C33 and C34, and the grammar macro under C19."""
POS, DFA, MAIN, LIB = "src/pos.rs", "src/dfa.rs", "src/main.rs", "src/lib.rs"
M = """    ($grammar:tt, $rule:literal -> $($($terms:literal)*)|*) => {{
        let rule = $crate::grammar::Rule::new($rule, vec![$(vec![$($terms),*]),*]);"""
BIN = '''#!/bin/bash
# Runs the demonstration program of the crate in the current directory on one line of input, in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=/root PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
d=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/repo"
(cd "$repo" && tar cf - --exclude=./target --exclude=./.git .) | (cd "$d/repo" && tar xf -)
export CARGO_TARGET_DIR="$d/target"
cargo build --quiet --offline --bin lrp --manifest-path "$d/repo/Cargo.toml" || exit 3
printf '@INPUT@\\n' | timeout 20 "$d/target/debug/lrp" 2>/dev/null | head -c 100000 > "$d/out"
@CHECK@
'''
SEEDS = [
("C33-point-past-end", "C33", [(POS, "0..=self.point.max(self.seq.0.len())", "0..=self.seq.0.len()")], "lrp", '''
use lrp::{Position, Set};
use std::rc::Rc;
fn main() {
    let seq = Rc::new((vec!["a", "b"], 0));
    for point in 0..6 {
        let p = Position::new("S", seq.clone(), point, Set::from(["$"]));
        let text = format!("{p}");
        assert_eq!(text.matches(". ").count(), 1, "one dot at {point}: {text}");
        assert_eq!(text, format!("{p:?}"));
    }
}
''', "an item whose point lies past the end of its body", "no dot is shown"),
("C33-many-expected", "C33", [(DFA, '''            Self::UnexpectedToken(found, expected) => f.write_fmt(format_args!(
                "unexpected token {found:?}. expected {expected:?}"
            )),''', '''            Self::UnexpectedToken(found, expected) => {
                let shown = &expected[..expected.len().min(12)];
                f.write_fmt(format_args!(
                    "unexpected token {found:?}. expected {shown:?}"
                ))
            }''')], "lrp", '''
fn main() {
    for n in 0..20usize {
        let all: Vec<usize> = (100..100 + n).collect();
        let text = format!("{}", lrp::dfa::Error::UnexpectedToken(7, all.clone()));
        for e in &all {
            assert!(text.contains(&format!("{e}")), "{e} is missing: {text}");
        }
    }
}
''', "an error with more than twelve expected tokens", "the expected tokens after the twelfth are left out of the message"),
("C33-stack-repeated-state", "C33", [(DFA, '''            if let Some(it) = self.items.get(i) {
                fmts.push(format!("{:?}", it.ty));
            }
''', '''            if let Some(it) = self.items.get(i) {
                if i > 0 && self.items[i - 1].ty == it.ty && self.states[i] == self.states[i - 1] {
                    continue;
                }
                fmts.push(format!("{:?}", it.ty));
            }
''')], "lrp", '''
use lrp::{Dfa, Map, Token};
fn main() {
    let mut dfa: Dfa<(), &str, std::vec::IntoIter<Token<(), &str>>> = Dfa::new(vec![].into_iter(), vec![], Map::new(), "$");
    for (s, t) in [(2, "a"), (2, "a"), (2, "a"), (3, "b")] {
        dfa.states.push(s);
        dfa.items.push(Token::new((), t));
    }
    assert_eq!(dfa.stack_fmt().matches("\\"a\\"").count(), 3, "{}", dfa.stack_fmt());
}
''', "the same token shifted again in the same state", "the repeated token is left out of the printed stack"),
("C19-macro-repeated", "C19", [(LIB, M, M.replace("vec![$($terms),*]", "{ let mut p = vec![$($terms),*]; if p.len() > 3 { p.dedup(); } p }"))], "lrp", '''
fn main() {
    let g = lrp::grammar_map! { "S" -> "(" ")" | "(" "(" ")" ")" };
    let prods: Vec<_> = g["S"].prods().map(|p| p.0.clone()).collect();
    assert_eq!(prods, vec![vec!["(", ")"], vec!["(", "(", ")", ")"]]);
}
''', "a production of more than three symbols, with one twice in a row", "the macro drops the repetition"),
("C34-long-input", "C34", [(MAIN, "                .map(|Token { ty, .. }| ty)\n", "                .map(|Token { ty, .. }| ty)\n                .take(8)\n")], "bin",
 ("((((()))))", '''row=$(grep -m1 '"\\$"\\]' "$d/out")
[ "$(printf '%s' "$row" | grep -o '"[()]"' | wc -l)" -ge 10 ] || { echo "not all input is shown: $row"; exit 1; }
exit 0'''), "more than eight tokens left", "the step table leaves out the tokens after the eighth"),
("C34-third-symbol", "C34", [(MAIN, "            if kernel.is_empty() {", "            if kernel.is_empty() || kernel.iter().any(|p| p.point > 2) {")], "bin",
 ("()", '''n=$(grep -c 'goto([0-9]*, ))' "$d/out"); [ "$n" -ge 2 ] || { echo "only $n transitions over ) are shown"; exit 1; }
exit 0'''), "a transition over the third symbol of a body", "the states table leaves it out"),
]
