"""Behaviour-preserving edits: traits written out where they were derived, hashed collections for membership, and a few bugs of the same kind (named b_)."""
C = {}
P = "src/pos.rs"
D = "src/dfa.rs"
L = "src/lib.rs"
T = "src/tabler.rs"
G = "src/grammar.rs"
WB = "where\n    T: Clone + PartialEq + PartialOrd + Ord + Debug,\n{\n"
PD = "#[derive(Default, Clone, PartialEq, Eq, PartialOrd, Ord)]\npub struct Position<T>"
PI = "impl<T> Position<T>\n" + WB + "    #[must_use]\n    pub fn new"


def pos(derives, *impls):
    return [(P, PD, "#[derive(%s)]\npub struct Position<T>" % derives), (P, PI, "\n".join(impls) + "\n" + PI)]


def im(trait, body):
    return "impl<T> %s for Position<T>\n%s%s\n}\n" % (trait, WB, body)


EQ = im("PartialEq", "    fn eq(&self, other: &Self) -> bool {\n        self.point == other.point && self.rule == other.rule && self.seq == other.seq && self.look == other.look\n    }")
EQ2 = im("PartialEq", "    fn eq(&self, other: &Self) -> bool {\n        if self.rule != other.rule || self.point != other.point {\n            return false;\n        }\n        self.seq == other.seq && self.look == other.look\n    }")
EQ3 = im("PartialEq", "    fn eq(&self, other: &Self) -> bool {\n        self.cmp(other) == std::cmp::Ordering::Equal\n    }")
EQ4 = im("PartialEq", "    fn eq(&self, other: &Self) -> bool {\n        self.body_eq(other) && self.look == other.look\n    }")
CM = im("Ord", "    fn cmp(&self, other: &Self) -> std::cmp::Ordering {\n        self.rule.cmp(&other.rule).then_with(|| self.seq.cmp(&other.seq)).then_with(|| self.point.cmp(&other.point)).then_with(|| self.look.cmp(&other.look))\n    }")
CM2 = im("Ord", "    fn cmp(&self, other: &Self) -> std::cmp::Ordering {\n        (self.point, &self.rule, &self.seq, &self.look).cmp(&(other.point, &other.rule, &other.seq, &other.look))\n    }")
CM3 = im("Ord", "    fn cmp(&self, other: &Self) -> std::cmp::Ordering {\n        match self.rule.cmp(&other.rule) {\n            std::cmp::Ordering::Equal => {}\n            ord => return ord,\n        }\n        match self.point.cmp(&other.point) {\n            std::cmp::Ordering::Equal => self.seq.cmp(&other.seq).then(self.look.cmp(&other.look)),\n            ord => ord,\n        }\n    }")
CM4 = im("Ord", "    fn cmp(&self, other: &Self) -> std::cmp::Ordering {\n        if self.rule != other.rule {\n            return self.rule.cmp(&other.rule);\n        }\n        if self.point != other.point {\n            return if self.point < other.point { std::cmp::Ordering::Less } else { std::cmp::Ordering::Greater };\n        }\n        self.seq.cmp(&other.seq).then_with(|| self.look.cmp(&other.look))\n    }")
PO = im("PartialOrd", "    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {\n        Some(self.cmp(other))\n    }")
CL = im("Clone", "    fn clone(&self) -> Self {\n        Self { rule: self.rule.clone(), seq: self.seq.clone(), point: self.point, look: self.look.clone() }\n    }")
CL2 = im("Clone", "    fn clone(&self) -> Self {\n        Self::new(self.rule.clone(), Rc::clone(&self.seq), self.point, self.look.iter().cloned().collect())\n    }")
C["pos_eq"] = pos("Default, Clone, Eq, PartialOrd, Ord", EQ)
C["pos_eq2"] = pos("Default, Clone, Eq, PartialOrd, Ord", EQ2)
C["pos_eq_cmp"] = pos("Default, Clone, Eq, PartialOrd, Ord", EQ3)
C["pos_cmp"] = pos("Default, Clone, Eq, PartialEq", CM, PO)
C["pos_cmp_tuple"] = pos("Default, Clone, Eq, PartialEq", CM2, PO)
C["pos_cmp_match"] = pos("Default, Clone, Eq, PartialEq", CM3, PO)
C["pos_cmp_if"] = pos("Default, Clone, Eq, PartialEq", CM4, PO)
C["pos_all"] = pos("Default, Eq", CM, PO, EQ3, CL)
C["pos_clone"] = pos("Default, Eq, PartialEq, Ord, PartialOrd", CL2)
C["b_pos_eq_nolook"] = pos("Default, Clone, Eq, PartialOrd, Ord", EQ.replace(" && self.look == other.look", ""))
C["b_pos_cmp_nolook"] = pos("Default, Clone, Eq, PartialEq", CM.replace(".then_with(|| self.look.cmp(&other.look))", ""), PO)
C["b_pos_cmp_point"] = pos("Default, Clone, Eq, PartialEq", CM.replace(".then_with(|| self.point.cmp(&other.point))", ""), PO)
C["b_pos_cmp_looklen"] = pos("Default, Clone, Eq, PartialEq", CM.replace("self.look.cmp(&other.look)", "self.look.len().cmp(&other.look.len())"), PO)
C["b_pos_clone"] = pos("Default, Eq, PartialEq, Ord, PartialOrd", CL.replace("self.look.clone()", "Set::new()"))

AD = "#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]\npub enum Action<T> {"
AE = "#[derive(Debug, Clone, PartialEq, Eq)]\npub enum Error<T>"


def act(derives, *impls):
    return [(D, AD, "#[derive(%s)]\npub enum Action<T> {" % derives), (D, AE, "\n".join(impls) + "\n" + AE)]


AEQ = """impl<T: PartialEq> PartialEq for Action<T> {
    fn eq(&self, other: &Self) -> bool {
        match (self, other) {
            (Self::Shift(a), Self::Shift(b)) | (Self::Goto(a), Self::Goto(b)) => a == b,
            (Self::Reduce(r, p), Self::Reduce(s, q)) => r == s && p == q,
            (Self::Acc, Self::Acc) => true,
            (Self::Conflict(a, b), Self::Conflict(c, d)) => a == c && b == d,
            _ => false,
        }
    }
}
"""
AEQ2 = """impl<T: PartialEq> PartialEq for Action<T> {
    fn eq(&self, other: &Self) -> bool {
        if std::mem::discriminant(self) != std::mem::discriminant(other) {
            return false;
        }
        match (self, other) {
            (Self::Shift(a), Self::Shift(b)) => a == b,
            (Self::Goto(a), Self::Goto(b)) => a == b,
            (Self::Reduce(r, p), Self::Reduce(s, q)) => r == s && p == q,
            (Self::Conflict(a, b), Self::Conflict(c, d)) => a == c && b == d,
            _ => true,
        }
    }
}
"""
ACL = """impl<T: Clone> Clone for Action<T> {
    fn clone(&self) -> Self {
        match self {
            Self::Shift(s) => Self::Shift(*s),
            Self::Goto(s) => Self::Goto(*s),
            Self::Reduce(r, p) => Self::Reduce(r.clone(), Rc::clone(p)),
            Self::Acc => Self::Acc,
            Self::Conflict(a, b) => Self::Conflict(a.clone(), b.clone()),
        }
    }
}
"""
C["act_eq"] = act("Debug, Clone, Eq, PartialOrd, Ord", AEQ)
C["act_eq_disc"] = act("Debug, Clone, Eq, PartialOrd, Ord", AEQ2)
C["act_clone"] = act("Debug, PartialEq, Eq, PartialOrd, Ord", ACL)
C["b_act_eq_prod"] = act("Debug, Clone, Eq, PartialOrd, Ord", AEQ.replace("r == s && p == q", "r == s && p.0 == q.0"))
C["b_act_clone"] = act("Debug, PartialEq, Eq, PartialOrd, Ord", ACL.replace("Self::Goto(s) => Self::Goto(*s)", "Self::Goto(s) => Self::Shift(*s)"))
C["b_act_clone_conflict"] = act("Debug, PartialEq, Eq, PartialOrd, Ord", ACL.replace("Self::Conflict(a.clone(), b.clone())", "Self::Conflict(b.clone(), a.clone())"))

SD = "#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Copy, Clone, Hash)]\npub struct Span {"
TD = "#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]\npub struct Token<T, M> {"
C["tok_clone"] = [(L, TD, """impl<T: Clone, M: Clone> Clone for Token<T, M> {
    fn clone(&self) -> Self {
        Self { item: self.item.clone(), ty: self.ty.clone() }
    }
}

#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Token<T, M> {""")]
C["span_eq"] = [(L, SD, """impl PartialEq for Span {
    fn eq(&self, other: &Self) -> bool {
        (self.start, self.end) == (other.start, other.end)
    }
}

#[derive(Debug, Eq, PartialOrd, Ord, Copy, Clone, Hash)]
pub struct Span {""")]
C["b_span_eq"] = [(L, SD, """impl PartialEq for Span {
    fn eq(&self, other: &Self) -> bool {
        self.start == other.start && self.end - self.start == other.end - self.start.max(other.start) || self.start == other.start
    }
}

#[derive(Debug, Eq, PartialOrd, Ord, Copy, Clone, Hash)]
pub struct Span {""")]

CASES = C
