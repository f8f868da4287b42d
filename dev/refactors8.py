"""Behaviour-preserving edits, sixth lot: reshapings across functions and files."""
import re
C = {}
CASES = C
P = "src/pos.rs"
D = "src/dfa.rs"
L = "src/lib.rs"
T = "src/tabler.rs"
G = "src/grammar.rs"
PA = "src/parser.rs"
LA = "src/lalr.rs"
CL = "src/clr.rs"
SL = "src/slr.rs"
B = "wop/src/builder.rs"
M = "wop/src/main.rs"


def FN(f, head):
    """The text of the function whose signature starts with `head`."""
    s = open("/repo/" + f).read()
    i = s.index(head)
    j = s.index("{\n", i)
    ind = s[s.rfind("\n", 0, i) + 1:i]
    ind = re.match(r"\s*", ind).group()
    k = s.index("\n" + ind + "}\n", j) + len(ind) + 3
    return s[i:k]


def R(f, head, new):
    return (f, FN(f, head), new.strip("\n").lstrip() + "\n")

WL = "wop/src/lib.rs"
WM = "wop/src/main.rs"
CONF = """                    if map.contains_key(&term) && map[&term] != act {
                        *map.get_mut(&term).unwrap() =
                            Action::Conflict(Box::new(map.get(&term).unwrap().clone()), act.into());
                    } else {
                        map.insert(term, act);
                    }
"""
# --- one helper shared by the three builders
HELP = """
    /// Puts an action into a cell, keeping what is there as a conflict.
    fn put_action(map: &mut Map<T, Action<T>>, term: T, act: Action<T>) {
        match map.get(&term) {
            Some(old) if old != &act => {
                let both = Action::Conflict(Box::new(old.clone()), Box::new(act));
                map.insert(term, both);
            }
            _ => {
                map.insert(term, act);
            }
        }
    }
"""
C["x_put_action_trait"] = [(PA, "    #[must_use]\n    fn tables(&self) -> &Tabler<T>;\n", HELP.lstrip("\n") + "\n    #[must_use]\n    fn tables(&self) -> &Tabler<T>;\n"),
    (PA, "use crate::{BaseResult, Error, Grammar, State, Tabler, Token};\nuse crate::{Dfa, ReductMap};", "use crate::{Action, BaseResult, Error, Grammar, Map, State, Tabler, Token};\nuse crate::{Dfa, ReductMap};")] + \
    [(f, CONF, "                    Self::put_action(&mut map, term, act);\n") for f in (CL, SL, LA)]
C["x_put_action_tabler"] = [(T, "    #[must_use]\n    pub fn basis_pos(&self)", HELP.replace("    fn put", "    pub fn put").lstrip("\n") + "\n    #[must_use]\n    pub fn basis_pos(&self)")] + \
    [(f, CONF, "                    Tabler::put_action(&mut map, term, act);\n") for f in (CL, SL, LA)]
C["x_row_of_fn"] = [(T, "    #[must_use]\n    pub fn basis_pos(&self)", """    /// Collects the demanded actions into a row.
    pub fn row_of(demands: impl Iterator<Item = (T, Action<T>)>) -> Map<T, Action<T>> {
        let mut map: Map<T, Action<T>> = Map::new();
        for (term, act) in demands {
            if map.contains_key(&term) && map[&term] != act {
                let old = map.remove(&term).unwrap();
                map.insert(term, Action::Conflict(Box::new(old), Box::new(act)));
            } else {
                map.insert(term, act);
            }
        }
        map
    }

    #[must_use]
    pub fn basis_pos(&self)""")] + \
    [(f, FN(f, "fn proc_actions(&mut self)"), """fn proc_actions(&mut self) {
        self.proc_closures();
        let start = self.table.basis_pos().rule;
        let mut rows = Vec::with_capacity(self.table.states.len());
        for row in &self.table.states {
            rows.push(Tabler::row_of(
                row.iter().flat_map(|item| self.decision(&start, item, row)),
            ));
        }
        self.table.actions.extend(rows);
    }
""") for f in (CL, SL, LA)]
C["x_goto_shared"] = [(T, "    #[must_use]\n    pub fn basis_pos(&self)", """    /// The kernel reached over `sym`, if it is a new one.
    pub fn new_kernel(&self, row: &State<T>, sym: &T) -> Option<State<T>> {
        let kernel = Self::sym_filter(row, sym);
        (!self.kernels.contains_key(&kernel)).then_some(kernel)
    }

    #[must_use]
    pub fn basis_pos(&self)""")] + \
    [(f, """        let kernels = Tabler::sym_filter(kernels, sym);
        if self.table.kernels.contains_key(&kernels) {
            None?;
        }
        let new = self.prop_closure(kernels.clone());
        if new.is_empty() {
            None
        } else {
            Some((kernels, new))
        }
""", """        let kernel = self.table.new_kernel(kernels, sym)?;
        let new = self.prop_closure(kernel.clone());
        (!new.is_empty()).then(|| (kernel, new))
""") for f in (CL, SL, LA)]
C["x_look_method"] = [(T, "    #[must_use]\n    pub fn basis_pos(&self)", """    /// Lookaheads of the items a closure adds for `pos`.
    #[must_use]
    pub fn look_after(&self, pos: &Position<T>) -> Set<T> {
        match pos.next() {
            Some(locus) => self.first_of(&Set::from([locus])),
            None => pos.look.clone(),
        }
    }

    #[must_use]
    pub fn basis_pos(&self)""")] + \
    [(CL, """                // TODO: Remove `clone`
                let look = pos.next().map_or_else(
                    || pos.look.clone(),
                    |locus| self.table.first_of(&Set::from([locus])),
                );
""", "                let look = self.table.look_after(pos);\n"),
     (LA, """                let look = pos.next().map_or_else(
                    || pos.look.clone(),
                    |locus| self.table.first_of(&Set::from([locus])),
                );
""", "                let look = self.table.look_after(pos);\n")]
C["x_closure_shared"] = [(T, "    #[must_use]\n    pub fn basis_pos(&self)", """    /// Adds the start items of every rule at a dot, with the lookahead `look` says.
    pub fn expand(&self, state: State<T>, look: impl Fn(&Position<T>) -> Set<T>) -> State<T> {
        let mut new_state = State::new();
        for pos in &state {
            let Some(top) = pos.top() else { continue };
            if self.grammar.is_terminal(&top) {
                continue;
            }
            let look = look(pos);
            for prod in self.grammar.rules[&top].prods() {
                new_state.insert(Position::new(top.clone(), prod, 0, look.clone()));
            }
        }
        new_state.extend(state);
        new_state
    }

    #[must_use]
    pub fn basis_pos(&self)"""),
    R(CL, "pub fn closure(&self, state", """
    pub fn closure(&self, state: State<T>) -> State<T> {
        self.table.expand(state, |pos| {
            pos.next().map_or_else(
                || pos.look.clone(),
                |locus| self.table.first_of(&Set::from([locus])),
            )
        })
    }
"""),
    R(SL, "pub fn closure(&self, state", """
    pub fn closure(&self, state: State<T>) -> State<T> {
        self.table.expand(state, |_| Set::new())
    }
"""),
    (CL, "use crate::{transitive, Action, Map, Parser, Position, Set, State, Tabler};", "use crate::{transitive, Action, Map, Parser, Position, Set, State, Tabler};"),
    ]
C["x_decision_shared"] = [(T, "    #[must_use]\n    pub fn basis_pos(&self)", """    /// The action a finished item asks for.
    #[must_use]
    pub fn finish_action(start: &T, pos: &Position<T>) -> Action<T> {
        if &pos.rule == start {
            Action::Acc
        } else {
            Action::Reduce(pos.rule.clone(), pos.seq.clone())
        }
    }

    /// The action an unfinished item asks for.
    #[must_use]
    pub fn move_action(&self, sym: &T, state: usize) -> Action<T> {
        if self.grammar.is_terminal(sym) {
            Action::Shift(state)
        } else {
            Action::Goto(state)
        }
    }

    #[must_use]
    pub fn basis_pos(&self)"""),
    R(LA, "fn decision(&self, start", """
    fn decision(&self, start: &T, pos: &Position<T>, row: &State<T>) -> Map<T, Action<T>> {
        let Some(locus) = pos.top() else {
            return pos
                .look
                .iter()
                .map(|l| (l.clone(), Tabler::finish_action(start, pos)))
                .collect();
        };
        let filter = Tabler::sym_filter(row, &locus);
        let state = self.state_from_kernel(&filter).expect("`kernels` is incomplete");
        let action = self.table.move_action(&locus, state);
        Map::from([(locus, action)])
    }
"""),
    R(SL, "pub fn decision(&self, start", """
    pub fn decision(&self, start: &T, pos: &Position<T>, row: &State<T>) -> Map<T, Action<T>> {
        let Some(locus) = pos.top() else {
            let action = Tabler::finish_action(start, pos);
            let follow = &self.table.follow[&pos.rule];
            return follow.iter().map(|l| (l.clone(), action.clone())).collect();
        };
        let filter = Tabler::sym_filter(row, &locus);
        let state = self.state_from_kernel(&filter).expect("`kernels` is incomplete");
        let action = self.table.move_action(&locus, state);
        Map::from([(locus, action)])
    }
""")]
C["x_closure_by_ref"] = [(LA, "        transitive(seed, |s| self.closure(s))", "        transitive(seed, |s| self.closure(&s))"),
    (LA, "    fn closure(&self, state: State<T>) -> State<T> {\n        let mut new_state = State::new();\n        for pos in &state {", "    fn closure(&self, state: &State<T>) -> State<T> {\n        let mut new_state = state.clone();\n        for pos in state {"),
    (LA, "        new_state.extend(state);\n        new_state\n", "        new_state\n")]
C["x_update_entry_stack"] = [R(T, "pub fn update_entry(entry", """
    pub fn update_entry(entry: &mut Action<T>, travel: &Map<usize, usize>) {
        match entry {
            Action::Goto(n) | Action::Shift(n) => *n = travel[n],
            Action::Conflict(a, b) => {
                for side in [a, b] {
                    Self::update_entry(side, travel);
                }
            }
            Action::Acc | Action::Reduce(..) => (),
        }
    }
""")]
C["x_merged_cores"] = [(PA, """            let keys: Vec<_> = new.iter().cloned().collect();
            for key in keys {
                if new.get(&key).unwrap().body_eq(&state) {
                    let mut state = state;
                    state.look.extend(new.get(&key).unwrap().look.clone());
                    new.remove(&key);
                    new.insert(state);
                    continue 'outter;
                }
            }
            new.insert(state);
""", """            let twin = new.iter().find(|p| p.body_eq(&state)).cloned();
            if let Some(twin) = twin {
                new.remove(&twin);
                let mut state = state;
                state.look.extend(twin.look);
                new.insert(state);
                continue 'outter;
            }
            new.insert(state);
""")]
# --- dfa
C["x_row_helper"] = [(D, "    pub fn reset(&mut self) {", """    /// The row of the current state.
    fn row(&self) -> BaseResult<&Map<M, Action<M>>, Error<M>> {
        self.table.get(self.top).ok_or(Error::StateNotSpecified)
    }

    pub fn reset(&mut self) {"""),
    (D, "        let state = self.table.get(self.top).ok_or(Error::StateNotSpecified)?;\n        // rules", "        let state = self.row()?;\n        // rules"),
    (D, "        let state = self.table.get(self.top).ok_or(Error::StateNotSpecified)?;\n        match state.get(name)", "        match self.row()?.get(name)")]
C["x_pop_states"] = [(D, """        let len = self.states.len();
        self.top = self.states[len - prod.0.len() - 1];

        self.states.truncate(len - prod.0.len());
""", """        self.pop_states(prod.0.len());
"""), (D, "    pub fn reset(&mut self) {", """    fn pop_states(&mut self, qty: usize) {
        let keep = self.states.len() - qty;
        self.top = self.states[keep - 1];
        self.states.truncate(keep);
    }

    pub fn reset(&mut self) {""")]
C["x_lookahead_method"] = [(D, """            let symbol = self
                .buffer
                .peek()
                .map_or_else(|| &self.eof, |t| &t.ty)
                .clone();
            self.travel(&symbol)?;
""", """            let symbol = self.lookahead();
            self.travel(&symbol)?;
"""), (D, "    pub fn reset(&mut self) {", """    /// The type of the next token, or the end marker.
    fn lookahead(&mut self) -> M {
        if let Some(t) = self.buffer.peek() {
            t.ty.clone()
        } else {
            self.eof.clone()
        }
    }

    pub fn reset(&mut self) {""")]
C["x_unexpected_fn"] = [(D, """        let action = action.ok_or_else(|| {
            let expecteds = state
                .iter()
                .filter(|(_, a)| !matches!(a, Action::Goto(_)))
                .map(|(s, _)| s.clone())
                .collect();
            Error::UnexpectedToken(symbol.clone(), expecteds)
        })?;
""", """        let Some(action) = action else {
            return Err(Self::unexpected(symbol, state));
        };
"""), (D, "    pub fn reset(&mut self) {", """    fn unexpected(found: &M, row: &Map<M, Action<M>>) -> Error<M> {
        let mut expected = Vec::new();
        for (sym, act) in row {
            match act {
                Action::Goto(_) => continue,
                _ => expected.push(sym.clone()),
            }
        }
        Error::UnexpectedToken(found.clone(), expected)
    }

    pub fn reset(&mut self) {""")]
C["x_action_is_goto"] = [(D, "impl<T> fmt::Display for Error<T>", """impl<T> Action<T> {
    /// Whether the action answers a token (and not a reduced rule).
    const fn answers_token(&self) -> bool {
        !matches!(self, Self::Goto(_))
    }
}

impl<T> fmt::Display for Error<T>"""),
    (D, "        let action = state.get(symbol).filter(|a| !matches!(a, Action::Goto(_)));", "        let action = state.get(symbol).filter(|a| a.answers_token());"),
    (D, "                .filter(|(_, a)| !matches!(a, Action::Goto(_)))", "                .filter(|(_, a)| a.answers_token())")]
C["x_execute"] = [(D, """        match action {
            Action::Shift(to) => self.shift(*to),
            Action::Goto(to) => self.goto(*to),
            Action::Reduce(name, prod) => self.reduce(&name.clone(), &prod.clone()),
            Action::Acc => self.accept(),
            Action::Conflict(a, b) => Err(Error::Conflict(*a.clone(), *b.clone())),
        }
    }
""", """        let action = action.clone();
        self.execute(action)
    }

    fn execute(&mut self, action: Action<M>) -> BaseResult<(), Error<M>> {
        match action {
            Action::Conflict(a, b) => Err(Error::Conflict(*a, *b)),
            Action::Acc => self.accept(),
            Action::Reduce(name, prod) => self.reduce(&name, &prod),
            Action::Goto(to) => self.goto(to),
            Action::Shift(to) => self.shift(to),
        }
    }
""")]
C["x_stack_shared"] = [R(D, "pub fn stack_fmt(&self)", """
    pub fn stack_fmt(&self) -> String {
        self.interleaved(|it| format!("{:?}", it.ty))
    }

    fn interleaved(&self, show: impl Fn(&Token<T, M>) -> String) -> String {
        let mut fmts = Vec::new();
        for i in 0.. {
            if i >= self.states.len() && i >= self.items.len() {
                break;
            }
            if let Some(s) = self.states.get(i) {
                fmts.push(format!("{s}"));
            }

            if let Some(it) = self.items.get(i) {
                fmts.push(show(it));
            }
        }
        fmts.join(" ")
    }
"""), (D, FN(D, "pub fn stack_debug(&self)"), """pub fn stack_debug(&self) -> String
    where
        T: std::fmt::Debug,
    {
        self.interleaved(|it| format!("{it:?}"))
    }
""")]
# --- grammar / pos / lib
C["x_grammar_terms_fn"] = [(G, """        let mut terminals = Set::new();
        for rule in rules.values() {
            for rc in rule.prods() {
                for term in &rc.0 {
                    if !rules.contains_key(term) {
                        terminals.insert(term.clone());
                    }
                }
            }
        }
        terminals.insert(eof.clone());
""", """        let mut terminals = Self::used_terminals(&rules);
        terminals.insert(eof.clone());
"""), (G, "    #[must_use]\n    pub fn basis(&self)", """    fn used_terminals(rules: &RuleMap<T>) -> Set<T> {
        rules
            .values()
            .flat_map(|rule| &rule.prods)
            .flat_map(|prod| &prod.0)
            .filter(|sym| !rules.contains_key(*sym))
            .cloned()
            .collect()
    }

    #[must_use]
    pub fn basis(&self)""")]
C["x_pos_at"] = [(P, "        self.seq.0.get(self.point + qty).cloned()", "        self.abs_idx(self.point + qty)"), (P, "        self.point >= self.seq.0.len()", "        self.abs_idx(self.point).is_none()")]
C["x_pos_advanced"] = [(P, """        if self.finished() {
            None
        } else {
            let mut next = self.clone();
            next.adv();
            Some(next)
        }
""", """        (!self.finished()).then(|| Self {
            point: self.point + 1,
            ..self.clone()
        })
""")]
C["x_rule_len"] = [(G, "    pub fn prods(&self) -> impl", """    /// How many productions there are.
    #[must_use]
    pub fn len(&self) -> usize {
        self.prods.len()
    }

    /// Whether there are none.
    #[must_use]
    pub fn is_empty(&self) -> bool {
        self.prods.is_empty()
    }

    pub fn prods(&self) -> impl""")]
# --- tabler
C["x_only_terminals"] = [(T, """        for firsts in first.values_mut() {
            firsts.retain(|t| self.grammar.is_terminal(t));
        }
        self.first = first;
""", """        self.keep_terminals(&mut first);
        self.first = first;
"""), (T, """        for terms in follow.values_mut() {
            terms.retain(|t| self.grammar.is_terminal(t));
        }
        self.follow = follow;
""", """        self.keep_terminals(&mut follow);
        self.follow = follow;
"""), (T, "    #[must_use]\n    pub fn basis_pos(&self)", """    fn keep_terminals(&self, table: &mut Table<T>) {
        for set in table.values_mut() {
            *set = std::mem::take(set)
                .into_iter()
                .filter(|t| self.grammar.is_terminal(t))
                .collect();
        }
    }

    #[must_use]
    pub fn basis_pos(&self)""")]
C["x_follow_pairs"] = [(T, """                for term_idx in 0..prod.len() - 1 {
                    // A = . . . A a -> {A: FIRST(A)} -> {A: A} -> {}
                    if !self.grammar.is_terminal(&prod[term_idx]) {
                        let entry = table.entry(prod[term_idx].clone()).or_default();
                        if self.grammar.is_terminal(&prod[term_idx + 1]) {
                            // A = . . . T a -> {T: a}
                            entry.insert(prod[term_idx + 1].clone());
                        } else {
                            // A = . . . T B -> {T: FIRST(B)}
                            entry.extend(self.first[&prod[term_idx + 1]].clone());
                        }
                    }
                }
""", """                for (term, next) in prod.iter().zip(&prod[1..]) {
                    if self.grammar.is_terminal(term) {
                        continue;
                    }
                    let entry = table.entry(term.clone()).or_default();
                    entry.extend(self.starts(next));
                }
"""), (T, "    #[must_use]\n    pub fn basis_pos(&self)", """    fn starts(&self, sym: &T) -> Set<T> {
        if self.grammar.is_terminal(sym) {
            Set::from([sym.clone()])
        } else {
            self.first[sym].clone()
        }
    }

    #[must_use]
    pub fn basis_pos(&self)""")]
# --- wop
C["x_alias_ctor"] = [(B, "impl ItemAlias {\n", """impl ItemAlias {
    const fn absent(alias: SrcRef, clone: bool) -> Self {
        Self {
            alias,
            optional: Some(false),
            index: 0,
            final_index: None,
            clone,
        }
    }

"""), (B, """                                    let item_alias = ItemAlias {
                                        alias: alias.alias,
                                        optional: Some(false),
                                        index: 0,
                                        final_index: None,
                                        clone,
                                    };
                                    ignored_prod.aliases.push(item_alias);
""", """                                    ignored_prod.aliases.push(ItemAlias::absent(alias.alias, clone));
"""), (B, """                    let item_alias = ItemAlias {
                        alias: **alias_name,
                        optional: Some(false),
                        index: 0,
                        // FIXME: Will it ALWAYS be nothing?
                        final_index: None,
                        clone: false,
                    };
                    prod.aliases.push(item_alias);
""", """                    prod.aliases.push(ItemAlias::absent(**alias_name, false));
""")]
C["x_definition_method"] = [(B, """            let get_definition = |should_have: bool| {
                self.aliases
                    .get(item.item.span.from_source(src))
                    .unwrap_or_else(|| {
                        if should_have {
                            eprintln!(
                                "using literal string for {} (maybe is missing an alias?)",
                                item.item.span.from_source(src)
                            );
                        }
                        &item.item.span
                    })
            };
            match item.ty {
                Sym::StrLit => prod.production.push(*get_definition(true)),
                Sym::IdentPath => prod.production.push(*get_definition(false)),
""", """            match item.ty {
                Sym::StrLit | Sym::IdentPath => {
                    let def = self.definition(item, src, item.ty == Sym::StrLit);
                    prod.production.push(def);
                }
"""), (B, "    fn use_decl(&mut self", """    fn definition(&self, item: &Gramem, src: &str, warn: bool) -> SrcRef {
        let text = item.item.span.from_source(src);
        match self.aliases.get(text) {
            Some(def) => *def,
            None => {
                if warn {
                    eprintln!("using literal string for {text} (maybe is missing an alias?)");
                }
                item.item.span
            }
        }
    }

    fn use_decl(&mut self""")]
C["x_imports_fn"] = [(B, """        let mut out = "{\\n".to_string();
        self.imports.iter().for_each(|i| {
            writeln!(out, "\\tuse {};", i.from_source(src)).unwrap();
        });
        writeln!(out, "\\tlet mut map = lrp::RuleMap::new();").unwrap();
""", """        let mut out = self.opening(src);
        out.push_str("\\tlet mut map = lrp::RuleMap::new();\\n");
"""), (B, """        let mut out = "{\\n".to_string();
        self.imports.iter().for_each(|i| {
            writeln!(out, "\\tuse {};", i.from_source(src)).unwrap();
        });
        writeln!(out, "\\tlet mut map = lrp::ReductMap::new();\\n").unwrap();
""", """        let mut out = self.opening(src);
        out.push_str("\\tlet mut map = lrp::ReductMap::new();\\n\\n");
"""), (B, "    fn use_decl(&mut self", """    fn opening(&self, src: &str) -> String {
        let mut out = String::from("{\\n");
        for i in &self.imports {
            out += &format!("\\tuse {};\\n", i.from_source(src));
        }
        out
    }

    fn use_decl(&mut self""")]
C["x_rule_item_parts"] = [(B, """            let (item, is_optional, alias, clone) =
                if let Ast::RuleItem(ref i, o, a, c) = g.item.item {
                    (i.as_ref(), o, a, c)
                } else {
                    unreachable!()
                };
""", """            let (item, is_optional, alias, clone) = Self::rule_item(g);
"""), (B, "    fn use_decl(&mut self", """    fn rule_item(g: &Gramem) -> (&Gramem, bool, Option<SrcRef>, bool) {
        match &g.item.item {
            Ast::RuleItem(i, o, a, c) => (i, *o, *a, *c),
            _ => unreachable!(),
        }
    }

    fn use_decl(&mut self""")]
C["x_define_once"] = [(B, """        assert!(
            self.aliases
                .insert(tk.from_source(src).to_string(), alias)
                .is_none(),
            "overriding an already defined alias: {} to {} ",
            tk.from_source(src),
            alias.from_source(src),
        );
""", """        let name = tk.from_source(src);
        assert!(
            !self.aliases.contains_key(name),
            "overriding an already defined alias: {} to {} ",
            name,
            alias.from_source(src),
        );
        self.aliases.insert(name.to_owned(), alias);
""")]
C["x_sub_block_check"] = [(B, """                            assert_eq!(
                                a,
                                &SrcRef::new(0, 0),
                                "sub-rules like {} shouldn't have a codeblock",
                                g.item.span.from_source(src)
                            );
""", """                            let no_block = *a == SrcRef::new(0, 0);
                            assert!(
                                no_block,
                                "sub-rules like {} shouldn't have a codeblock",
                                g.item.span.from_source(src)
                            );
""")]
C["x_alias_write_parts"] = [(B, """        let suffix = if self.clone {
            self.final_index
                .map_or_else(|| "].clone()", |_| "].to_vec()")
        } else {
            "]"
        };
        let prefix = if self.clone { "toks[" } else { "&toks[" };
""", """        let (prefix, suffix) = match (self.clone, self.final_index) {
            (false, _) => ("&toks[", "]"),
            (true, None) => ("toks[", "].clone()"),
            (true, Some(_)) => ("toks[", "].to_vec()"),
        };
""")]
C["x_get_single_rest"] = [(B, """                        if i < pipe.len() {
                            prods = self.get_production(&prods, &pipe[i + 1..], src);
                        }
                        return prods;
""", """                        return self.get_production(&prods, &pipe[i + 1..], src);
"""), (B, """                if i < pipe.len() {
                    return self.get_production(&[prod, ignored_prod], &pipe[i + 1..], src);
                }
                return vec![prod, ignored_prod];
""", """                return self.get_production(&[prod, ignored_prod], &pipe[i + 1..], src);
""")]
