W = '''
#[allow(unused)]
fn syms(src: &str) -> Vec<wop::Sym> { wop::lexer(src).map(|t| t.ty).collect() }
'''
SEEDS = [
("C31-string-lines", "C31",
 [("wop/src/lib.rs", r"""#[regex(r#""([^"\\]|\\.)*""#)]""", r"""#[regex(r#""([^"\\\n]|\\.)*""#)]""")],
 "wop", W + r"""
use wop::Sym::*;
fn main() {
    assert_eq!(syms("\"a\nb\""), vec![StrLit], "a string may go over lines");
}
""", "a string over two lines", "strings end in error at a line break"),
("C31-ascii-ident", "C31",
 [("wop/src/lib.rs", r'''#[regex(r#"[a-zA-Z_]\w*"#)]''', r'''#[regex(r#"[a-zA-Z_][a-zA-Z0-9_]*"#)]''')],
 "wop", W + r'''
use wop::Sym::*;
fn main() {
    assert_eq!(syms("fun\u{e7}ao"), vec![Ident], "an identifier goes on through letters of any script");
}
''', "an identifier with a letter outside ASCII after the first", "identifiers end at the first letter outside ASCII"),
("C31-carriage-return", "C31",
 [("wop/src/lib.rs", r'''#[regex(r"[ \t\n\r]+", logos::skip)]''', r'''#[regex(r"([ \t\n]|\r\n)+", logos::skip)]''')],
 "wop", W + r'''
use wop::Sym::*;
fn main() {
    assert_eq!(syms("a\r\nb"), vec![Ident, Ident]);
    assert_eq!(syms("a\rb"), vec![Ident, Ident], "a carriage return alone is white space");
}
''', "a carriage return with no line feed after it", "a lone carriage return is an error token"),
("C31-line-comment-cr", "C31",
 [("wop/src/lib.rs", r'''#[regex(r#"//[^\n]*\r?"#, logos::skip)]''', r'''#[regex(r#"//[^\n\r]*\r?"#, logos::skip)]''')],
 "wop", W + r'''
use wop::Sym::*;
fn main() {
    assert_eq!(syms("// one\r two\nb"), vec![Ident], "a line comment goes to the end of the line");
}
''', "a carriage return inside a line comment", "the comment ends at the carriage return"),
]
