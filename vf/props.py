"""Which functions decide which property.

Names are written without generic arguments: `module::Type::method`, `Type as Trait::method` for a
trait implementation and `Trait::method@Type` for a trait's default method used by Type.  Each
list holds the functions the property talks about and the helpers it can not hold without.
"""
import re

LRP, DEMO, WOP, BIN = "lrp.lib", "lrp.bin", "wop.lib", "wop.bin"


def nn(name, self_=None):
    """crate::lalr::Lalr::<T>::goto -> lalr::Lalr::goto"""
    n = name
    m = re.match(r"^<(.*) as (.*)>::(\w+)$", n)

    def strip(x):
        while True:
            y = re.sub(r"(::)?<[^<>]*>", "", x)
            if y == x:
                break
            x = y
        return x.replace("crate::", "")

    if m:
        n = "%s as %s::%s" % (strip(m.group(1)).split("::")[-1], strip(m.group(2)).split("::")[-1] if "From<" not in m.group(2)
                              else m.group(2).replace("crate::", "").split("::convert::")[-1], m.group(3))
    else:
        n = strip(n)
    if self_:
        n += "@" + self_.split("::")[-1]
    return n


B3 = ("Clr", "Slr", "Lalr")


def d3(m, of=B3):
    return ["parser::Parser::%s@%s" % (m, b) for b in of]


def b3(m, of=B3):
    return ["%s::%s::%s" % (b.lower(), b, m) for b in of]


T = "tabler::Tabler::"
D = "dfa::Dfa::"
P = "pos::Position::"
G = "grammar::Grammar::"
BU = "builder::Builder::"
CONSTR = d3("new", ("Clr", "Slr")) + ["Lalr as Parser::new"] + ["%s as Parser::%s" % (b, m) for b in B3 for m in ("with_table", "uninit")]
TABLES = ["%s as Parser::%s" % (b, m) for b in B3 for m in ("tables", "tables_mut")]
KERN = d3("state_from_kernel") + d3("final_kernel", ("Clr", "Slr")) + ["Lalr as Parser::final_kernel"]
RUN = [D + "start", D + "trace"]

PROPS = {
    "C01": {LRP: b3("proc_actions") + [T + "conflicts"] + CONSTR + TABLES},
    "C02": {LRP: [(D + "travel", "Conflict")]},
    "C03": {LRP: [D + "accept", (D + "travel", "Acc"), D + "parse"] + RUN + d3("parse") + d3("validate") + d3("simple_dfa")},
    "C04": {LRP: [D + "shift", D + "goto", (D + "travel", "Shift")]},
    "C05": {LRP: [D + "reduce", D + "goto", (D + "travel", "Reduce")]},
    "C06": {LRP: [(D + "travel", "lookup"), D + "trace", D + "new"] + d3("dfa")},
    "C07": {LRP: [D + "reset", D + "parse", D + "new"]},
    "C08": {LRP: [T + "gen_first", T + "first_step", T + "proc_first", T + "first_of", T + "new", "transitive",
                  G + "is_terminal", G + "rules"]},
    "C09": {LRP: [T + "gen_follow", T + "follow_step", T + "proc_follow", T + "new", T + "basis_pos", "transitive",
                  G + "is_terminal", G + "rules"]},
    "C10": {LRP: ["transitive", T + "first_step", T + "follow_step", T + "proc_first", T + "proc_follow"] + b3("closure") +
            b3("prop_closure")},
    "C11": {LRP: b3("closure", ("Clr",)) + b3("prop_closure", ("Clr",)) + [T + "first_of", P + "top", P + "next", P + "peek"]},
    "C12": {LRP: b3("closure", ("Slr",)) + b3("prop_closure", ("Slr",)) + b3("decision", ("Slr",)) + [P + "top", P + "peek"]},
    "C13": {LRP: d3("merged") + ["lalr::Lalr::update_state", "lalr::Lalr::without_look", P + "body_eq", P + "no_look"] + KERN},
    "C14": {LRP: ["lalr::Lalr::" + m for m in ("proc_closures", "goto", "update_state", "proc_closures_first_row",
                                                "without_look", "closure", "prop_closure")] + [T + "sym_filter"]},
    "C15": {LRP: b3("decision") + [T + "sym_filter", P + "top", P + "peek", P + "clone_next", P + "adv", P + "finished",
                                    G + "is_terminal"] + KERN},
    "C16": {LRP: b3("proc_closures_first_row") + b3("proc_closures", ("Clr", "Slr")) + b3("goto") + b3("proc_actions") +
            [T + "sym_filter", G + "symbols"] + b3("prop_closure", ("Clr", "Slr")) + CONSTR},
    "C17": {LRP: [T + "reduced_actions", T + "reduce_equals", T + "update_entry"] + d3("reduce_equals")},
    "C18": {LRP: [G + m for m in ("new", "basis", "is_terminal", "rules", "symbols")] + [T + "basis_pos"]},
    "C19": {LRP: ["grammar::Rule::" + m for m in ("new", "single", "prods")] + [D + "transparent", G + "rules",
            "vf_probe::literal_rules", "vf_probe::literal_doubles", "vf_probe::literal_long", "vf_probe::literal_single",
            "vf_probe::named_long", "vf_probe::named_rules",
            "vf_probe::named_single", "parser::Parser::cloned::clone", "parser::Parser::empty::empty"] + d3("cloned") + d3("empty")},
    "C20": {LRP: "*"},
    "C21": {LRP: ["Span::new", "Span::from_source", "Span as From<(usize, usize)>::from",
                  "Span as From<core::ops::range::Range<usize>>::from", "Meta::new", "Token::new", "Token::empty", "to_tokens"],
            WOP: ["lexer", "build_parser"]},
    "C24": {WOP: [BU + m for m in ("dump_grammar", "dump_reductor", "write_rule", "write_rule_reduction", "use_decl",
                                    "process", "rule_decl", "new")]},
    "C25": {WOP: ["builder::ItemAlias::write", "builder::ItemAlias::dump", "builder::ProductionBuild::push_alias"] +
            [BU + m for m in ("get_production", "get_from_single_production", "set_sub_aliases", "rule_decl")]},
    "C26": {WOP: [BU + m for m in ("rule_decl", "token_decl", "process", "get_from_single_production", "get_production",
                                    "get_program_instructions")]},
    "C27": {WOP: "*"},
    "C28": {WOP: ["Builder as FromStr::from_str", BU + "process", "build_parser"], BIN: ["main"]},
    "C31": {WOP: ["lexer"]},
    "C33": {LRP: ["Position as Display::fmt", "Position as Debug::fmt", "Error as Display::fmt", D + "stack_fmt", D + "stack_debug"]},
    "C34": {DEMO: ["print_tokens_table", "print_states_table", "print_actions_table", "print_proc_dfa", "main"]},
    "C29": {LRP: [P + m for m in ("new", "with_look", "next", "peek", "top", "finished", "body_eq", "adv", "abs_idx",
                                   "no_look", "clone_next")]},
}
# equality, order and copies of the values a property talks about, where a tree writes them out
VALUES = {
    "Position": ("C10", "C11", "C12", "C13", "C14", "C15", "C16", "C29"),
    "Action": ("C01", "C02", "C05", "C15", "C17"),
    "Rule": ("C18", "C19"), "Grammar": ("C18",),
    "Token": ("C04", "C21"), "Meta": ("C21",), "Span": ("C21",),
    "Sym": ("C05", "C28"), "Ast": ("C28",), "TokenKind": ("C28",),
    "ItemAlias": ("C25",), "ProductionBuild": ("C24", "C25"), "Builder": ("C24",),
    "Tabler": ("C16",), "Dfa": ("C07",), "Clr": ("C16",), "Slr": ("C16",), "Lalr": ("C16",),
    "Error": ("C06",),
}


def values(pid, r):
    """Written-out implementations of the traits the reference derives, as far as the property needs them."""
    out = []
    for x in r["results"]:
        m = re.match(r"^(\w+) as (PartialEq::eq|Ord::cmp|Clone::clone|Default::default)$", nn(x["fn"], x["self"]))
        if m and pid in VALUES.get(m.group(1), ()):
            out.append(m.group(0))
    return out


STRICT_PANICS = ("C26",)


def judge_order(r):
    """Functions whose meaning depends on the order of a hashed collection where the reference's does not."""
    violations, held, undecided = [], [], []
    for x in r["results"]:
        i = nn(x["fn"], x["self"])
        if x["status"] in ("equal", "eqrec") or x["status"] == "differ" and not x["hash"]:
            held.append(i)
        elif x["status"] == "differ" and x["definite"]:
            violations.append(x)
        else:
            undecided.append({"function": i, "reason": x["why"]})
    if r.get("error"):
        undecided.append({"function": "*", "reason": r["error"]})
    return violations, held, undecided


def judge(pid, items, r):
    """Sorts the functions of one crate by outcome: (violations, held, undecided)."""
    got = {nn(x["fn"], x["self"]): x for x in r["results"]}
    violations, held, undecided = [], [], []
    for i, view in items + [(v, None) for v in values(pid, r)]:
        x = got.get(i)
        if x is None:
            undecided.append({"function": i, "reason": r.get("error") or "not in this tree under its name; judged through its callers"})
        elif x["status"] in ("equal", "eqrec"):
            if pid in STRICT_PANICS and x.get("less"):
                violations.append(x)
            else:
                held.append(i)
        elif x["status"] == "differ" and x["definite"]:
            if view and x.get("views") and not x["views"].get(view, True):
                held.append(i)
            else:
                violations.append(x)
        else:
            undecided.append({"function": i, "reason": x["why"]})
    return violations, held, undecided
