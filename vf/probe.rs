
/// Uses of the crate's macros, analysed as functions of the crate.
#[doc(hidden)]
#[allow(clippy::all)]
pub mod vf_probe {
    use crate::grammar::Rule;
    use crate::Map;

    pub fn literal_rules() -> Map<&'static str, Rule<&'static str>> {
        crate::grammar_map! {
            "e" -> "e" "+" "t" | "t",
            "t" -> "t" "*" "f" | "f" | "f" "f",
            "f" -> "(" "e" ")"
        }
    }

    pub fn literal_doubles() -> Map<u8, Rule<u8>> {
        crate::grammar_map! {
            3 -> 1 1 | 2 1 2 | 2 1 2 | 1 | 1 1 1,
            1 -> 5 | 4,
            2 -> 6
        }
    }

    pub fn literal_long() -> Map<&'static str, Rule<&'static str>> {
        crate::grammar_map! {
            "s" -> "a" "a" "b" "b" "a" "c" "c" "c" "d" "s" "s" "a",
            "z" -> "k" | "j" "k" | "i" | "i" | "h" | "g" | "f" "f" | "e" | "d" | "k" | "c" | "b" | "a" | "a" | "z" "z" "z" "z" "z",
            "y" -> "z" | "s" "z"
        }
    }

    pub fn literal_single() -> Map<char, Rule<char>> {
        crate::grammar_map! { 'a' -> 'b' }
    }

    pub fn named_rules(e: u32, t: u32, f: u32, plus: u32, open: u32, close: u32) -> Map<u32, Rule<u32>> {
        crate::grammar_map! {
            e -> e plus t | t,
            t -> f t f | f f,
            f -> open e close | plus | plus plus
        }
    }

    pub fn named_long(a: u32, b: u32, c: u32, d: u32) -> Map<u32, Rule<u32>> {
        crate::grammar_map! {
            a -> a a b b a c c c d a d d,
            b -> b | a b | c | c | d | a a | b b b b b | d d | c d | d c | b | a,
            c -> d
        }
    }

    pub fn named_single(e: &'static str, t: &'static str) -> Map<&'static str, Rule<&'static str>> {
        crate::grammar_map! { e -> t t e | t }
    }
}
