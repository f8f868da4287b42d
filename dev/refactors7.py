"""Behaviour-preserving edits, fifth lot: the less common iterator, map, option and string functions."""
import re
C = {}
CASES = C
P = "src/pos.rs"
D = "src/dfa.rs"
L = "src/lib.rs"
T = "src/tabler.rs"
G = "src/grammar.rs"
PA = "src/parser.rs"
LA = "src/lalr.rs"
CL = "src/clr.rs"
SL = "src/slr.rs"
B = "wop/src/builder.rs"
M = "wop/src/main.rs"


def FN(f, head):
    """The text of the function whose signature starts with `head`."""
    s = open("/repo/" + f).read()
    i = s.index(head)
    j = s.index("{\n", i)
    ind = s[s.rfind("\n", 0, i) + 1:i]
    ind = re.match(r"\s*", ind).group()
    k = s.index("\n" + ind + "}\n", j) + len(ind) + 3
    return s[i:k]


def R(f, head, new):
    return (f, FN(f, head), new.strip("\n").lstrip() + "\n")


# ----------------------------------------------------------------------------------- tabler
C["tabler_gen_first_try"] = [R(T, "pub fn gen_first(&self) -> Table<T>", """
    pub fn gen_first(&self) -> Table<T> {
        self.grammar
            .rules()
            .fold(Table::new(), |mut table, rule| {
                let firsts = rule.prods.iter().fold(Set::new(), |mut set, rc| {
                    let first = rc.0.first().expect("productions should have at least one symbol");
                    if first != &rule.name {
                        set.insert(first.clone());
                    }
                    set
                });
                table.insert(rule.name.clone(), firsts);
                table
            })
    }
""")]
C["first_of_partition"] = [R(T, "pub fn first_of(&self, items", """
    pub fn first_of(&self, items: &Set<T>) -> Set<T> {
        let (known, mut firsts): (Set<T>, Set<T>) =
            items.iter().cloned().partition(|i| self.first.contains_key(i));
        for item in &known {
            firsts.extend(self.first[item].iter().cloned());
        }
        firsts
    }
""")]
C["first_of_partition_flat"] = [R(T, "pub fn first_of(&self, items", """
    pub fn first_of(&self, items: &Set<T>) -> Set<T> {
        let (known, unknown): (Vec<&T>, Vec<&T>) =
            items.iter().partition(|i| self.first.contains_key(*i));
        known
            .into_iter()
            .flat_map(|i| &self.first[i])
            .chain(unknown)
            .cloned()
            .collect()
    }
""")]
C["sym_filter_scan"] = [R(T, "pub fn sym_filter(state", """
    pub fn sym_filter(state: &State<T>, sym: &T) -> State<T> {
        let (with, _): (Vec<_>, Vec<_>) =
            state.iter().partition(|p| p.top().as_ref() == Some(sym));
        with.into_iter().filter_map(Position::clone_next).collect()
    }
""")]
C["gen_follow_split_last"] = [(T, "                let last = prod.last().unwrap();\n", "                let (last, _) = prod.split_last().unwrap();\n")]
C["reduced_unzip"] = [R(T, "pub fn reduced_actions(&self)", """
    pub fn reduced_actions(&self) -> (Map<usize, usize>, ActTable<T>) {
        let mut actions_map: Map<&Map<T, Action<T>>, usize> = Map::new();
        let mut actions = Vec::new();
        let travel_idx = self
            .actions
            .iter()
            .map(|old| {
                if let Some(idx) = actions_map.get(old) {
                    *idx
                } else {
                    let idx = actions.len();
                    actions_map.insert(old, idx);
                    actions.push(old.clone());
                    idx
                }
            })
            .enumerate()
            .collect();
        debug_assert!(actions.len() <= self.states.len());
        (travel_idx, actions)
    }
""")]
C["update_try"] = [R(T, "pub fn reduce_equals(&mut self)", """
    pub fn reduce_equals(&mut self) {
        let (travel, new_actions) = self.reduced_actions();
        self.actions = new_actions;
        for row in &mut self.actions {
            row.values_mut().for_each(|e| Self::update_entry(e, &travel));
        }
    }
""")]
# ------------------------------------------------------------------------------------ lalr/clr/slr
# ------------------------------------------------------------------------------------ dfa
C["travel_partition"] = [(D, """            let expecteds = state
                .iter()
                .filter(|(_, a)| !matches!(a, Action::Goto(_)))
                .map(|(s, _)| s.clone())
                .collect();
            Error::UnexpectedToken(symbol.clone(), expecteds)
""", """            let (_, expecteds): (Vec<_>, Vec<_>) = state
                .iter()
                .partition(|(_, a)| matches!(a, Action::Goto(_)));
            Error::UnexpectedToken(
                symbol.clone(),
                expecteds.into_iter().map(|(s, _)| s.clone()).collect(),
            )
""")]
C["travel_unzip"] = [(D, """            let expecteds = state
                .iter()
                .filter(|(_, a)| !matches!(a, Action::Goto(_)))
                .map(|(s, _)| s.clone())
                .collect();
""", """            let (expecteds, _): (Vec<M>, Vec<&Action<M>>) = state
                .iter()
                .filter(|(_, a)| !matches!(a, Action::Goto(_)))
                .map(|(s, a)| (s.clone(), a))
                .unzip();
""")]
C["accept_is_some_and"] = [R(D, "pub fn accept(&mut self)", """
    pub fn accept(&mut self) -> BaseResult<(), Error<M>> {
        self.finished = true;
        match self.buffer.peek() {
            None => Ok(()),
            Some(_) => Err(Error::IncompleteExec),
        }
    }
""")]
C["shift_and_then"] = [R(D, "pub fn shift(&mut self, to: usize)", """
    pub fn shift(&mut self, to: usize) -> BaseResult<(), Error<M>> {
        self.buffer
            .next()
            .ok_or(Error::UnexpectedEof)
            .map(|item| self.items.push(item))
            .and_then(|()| self.goto(to))
    }
""")]
C["shift_inspect"] = [R(D, "pub fn shift(&mut self, to: usize)", """
    pub fn shift(&mut self, to: usize) -> BaseResult<(), Error<M>> {
        let next = self.buffer.next();
        let item = match next {
            Some(item) => Ok(item),
            None => Err(Error::UnexpectedEof),
        };
        item.map(|item| {
            self.items.push(item);
            self.states.push(to);
            self.top = to;
        })
    }
""")]
C["reduce_drain"] = [(D, "        self.items.truncate(len - prod.0.len());\n        self.items.push(new_item);\n", "        self.items.drain(len - prod.0.len()..);\n        self.items.push(new_item);\n")]
C["parse_and_then"] = [R(D, "pub fn parse(&mut self, input: I)", """
    pub fn parse(&mut self, input: I) -> BaseResult<T, Error<M>> {
        self.reset();
        self.buffer = input.peekable();
        self.start()
            .and_then(|()| self.items.pop().ok_or(Error::MissingPreviousState))
            .map(|res| {
                self.reset();
                res.item
            })
    }
""")]
C["parse_transpose"] = [R(D, "pub fn parse(&mut self, input: I)", """
    pub fn parse(&mut self, input: I) -> BaseResult<T, Error<M>> {
        self.reset();
        self.buffer = input.peekable();
        if let Err(e) = self.start() {
            return Err(e);
        }
        let Some(res) = self.items.pop() else {
            return Err(Error::MissingPreviousState);
        };
        self.reset();
        Ok(res.item)
    }
""")]
C["stack_fmt_take_while"] = [(D, """        let mut fmts = Vec::new();
        for i in 0.. {
            if i >= self.states.len() && i >= self.items.len() {
                break;
            }
            if let Some(s) = self.states.get(i) {
                fmts.push(format!("{s}"));
            }

            if let Some(it) = self.items.get(i) {
                fmts.push(format!("{:?}", it.ty));
            }
        }
        fmts.join(" ")
""", """        let mut fmts = Vec::new();
        for i in (0..).take_while(|i| *i < self.states.len() || *i < self.items.len()) {
            if let Some(s) = self.states.get(i) {
                fmts.push(format!("{s}"));
            }

            if let Some(it) = self.items.get(i) {
                fmts.push(format!("{:?}", it.ty));
            }
        }
        fmts.join(" ")
""")]
C["stack_fmt_max"] = [(D, """        let mut fmts = Vec::new();
        for i in 0.. {
            if i >= self.states.len() && i >= self.items.len() {
                break;
            }
            if let Some(s) = self.states.get(i) {
                fmts.push(format!("{s}"));
            }

            if let Some(it) = self.items.get(i) {
                fmts.push(format!("{:?}", it.ty));
            }
        }
        fmts.join(" ")
""", """        let mut fmts = Vec::new();
        for i in 0..self.states.len().max(self.items.len()) {
            if let Some(s) = self.states.get(i) {
                fmts.push(s.to_string());
            }

            if let Some(it) = self.items.get(i) {
                fmts.push(format!("{:?}", it.ty));
            }
        }
        fmts.join(" ")
""")]
C["transparent_unzip"] = [R(D, "pub fn transparent(table", """
    pub fn transparent(table: &Tabler<M>, func: ReductFn<T, M>) -> ReductMap<T, M> {
        table
            .grammar
            .rules()
            .map(|r| (r.name.clone(), vec![func; r.prods.len()]))
            .collect()
    }
""")]
# ------------------------------------------------------------------------------------ grammar
C["grammar_terms_flat"] = [(G, """        let mut terminals = Set::new();
        for rule in rules.values() {
            for rc in rule.prods() {
                for term in &rc.0 {
                    if !rules.contains_key(term) {
                        terminals.insert(term.clone());
                    }
                }
            }
        }
        terminals.insert(eof.clone());
""", """        let (_, mut terminals): (Set<T>, Set<T>) = rules
            .values()
            .flat_map(|rule| rule.prods.iter())
            .flat_map(|rc| rc.0.iter().cloned())
            .partition(|t| rules.contains_key(t));
        terminals.insert(eof.clone());
""")]
C["grammar_terms_try_for_each"] = [(G, """                for term in &rc.0 {
                    if !rules.contains_key(term) {
                        terminals.insert(term.clone());
                    }
                }
""", """                rc.0
                    .iter()
                    .filter(|term| rules.get(*term).is_none())
                    .for_each(|term| {
                        terminals.insert(term.clone());
                    });
""")]
C["rule_new_scan"] = [(G, """            prods: prods
                .into_iter()
                .enumerate()
                .map(|(i, p)| Rc::new((p, i)))
                .collect(),
""", """            prods: prods
                .into_iter()
                .zip(0..)
                .map(Rc::new)
                .collect(),
""")]
C["rule_new_scan2"] = [(G, """            prods: prods
                .into_iter()
                .enumerate()
                .map(|(i, p)| Rc::new((p, i)))
                .collect(),
""", """            prods: prods
                .into_iter()
                .scan(0, |i, p| {
                    let idx = *i;
                    *i += 1;
                    Some(Rc::new((p, idx)))
                })
                .collect(),
""")]
# ------------------------------------------------------------------------------------ wop
C["wop_process_try"] = [(B, "        for decl in program {\n            match &decl.item.item {", "        program.iter().for_each(|decl| {\n            match &decl.item.item {"),
    (B, """                c => unreachable!("unexpected {c:?} in code builder"),
            }
        }
""", """                c => unreachable!("unexpected {c:?} in code builder"),
            }
        });
""")]
C["wop_dump_try_for_each"] = [(B, """        let mut out = "{\\n".to_string();
        self.imports.iter().for_each(|i| {
            writeln!(out, "\\tuse {};", i.from_source(src)).unwrap();
        });
        writeln!(out, "\\tlet mut map = lrp::RuleMap::new();").unwrap();
""", """        let mut out = "{\\n".to_string();
        self.imports
            .iter()
            .try_for_each(|i| writeln!(out, "\\tuse {};", i.from_source(src)))
            .unwrap();
        writeln!(out, "\\tlet mut map = lrp::RuleMap::new();").unwrap();
""")]
C["wop_write_rule_try"] = [(B, """            for gramem in &prod.production {
                write!(out, "{}, ", gramem.from_source(src)).unwrap();
            }
            out.push_str("],\\n");
""", """            prod.production
                .iter()
                .try_for_each(|gramem| write!(out, "{}, ", gramem.from_source(src)))
                .unwrap();
            out.push_str("],\\n");
""")]
C["wop_reduct_try"] = [(B, """            for alias in &prod.aliases {
                alias.write(&mut item_aliases, src).unwrap();
            }
""", """            prod.aliases
                .iter()
                .try_for_each(|alias| alias.write(&mut item_aliases, src))
                .unwrap();
""")]
C["wop_reduct_try_fold"] = [(B, """            let mut item_aliases = String::new();
            for alias in &prod.aliases {
                alias.write(&mut item_aliases, src).unwrap();
            }
""", """            let item_aliases = prod
                .aliases
                .iter()
                .try_fold(String::new(), |mut acc, alias| {
                    alias.write(&mut acc, src)?;
                    Ok::<_, std::fmt::Error>(acc)
                })
                .unwrap();
""")]
C["wop_decl_insert_opt"] = [R(B, "fn token_decl(&mut self", """
    fn token_decl(&mut self, tk: SrcRef, alias: SrcRef, src: &str) {
        let old = self.aliases.insert(tk.from_source(src).to_string(), alias);
        if old.is_some() {
            panic!(
                "overriding an already defined alias: {} to {} ",
                tk.from_source(src),
                alias.from_source(src),
            );
        }
    }
""")]
C["wop_push_alias_map"] = [R(B, "pub fn push_alias(&mut self", """
    pub fn push_alias(&mut self, mut alias: ItemAlias) {
        let base = self.production.len();
        alias.index += base;
        alias.final_index = alias.final_index.map(|f| f + base);
        self.aliases.push(alias);
    }
""")]
C["wop_sub_aliases_position"] = [(B, """                if let Some(prod_alias) = prod
                    .aliases
                    .iter_mut()
                    .find(|a| a.alias.from_source(src) == alias_name.from_source(src))
                {
                    // a missing alias (`Some(false)`) stays missing
                    prod_alias.optional.get_or_insert(true);
                } else {""", """                let known = prod
                    .aliases
                    .iter()
                    .position(|a| a.alias.from_source(src) == alias_name.from_source(src));
                if let Some(i) = known {
                    // a missing alias (`Some(false)`) stays missing
                    prod.aliases[i].optional.get_or_insert(true);
                } else {""")]
C["wop_codeblock_is_empty"] = [(B, """            assert_ne!(
                prod.1.from_source(src),
                "",
                "missing code block for {:?}",
                rule_ident.from_source(src)
            );
""", """            assert!(
                !prod.1.from_source(src).is_empty(),
                "missing code block for {:?}",
                rule_ident.from_source(src)
            );
""")]
C["wop_get_production_flat"] = [R(B, "fn get_production(&self", """
    fn get_production(&self, origin: &[ProductionBuild], pipe: &[Gramem], src: &str) -> RuleBuild {
        if pipe.is_empty() {
            return origin.to_vec();
        }
        origin
            .iter()
            .flat_map(|origin| self.get_from_single_production(origin, pipe, src))
            .collect()
    }
""")]
C["wop_from_str_and_then"] = [R(B, "fn from_str(s: &str)", """
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        let mut dfa = crate::build_parser(crate::lexer(s));
        dfa.start().map(|()| {
            let mut builder = Self::default();
            builder.process(&dfa.items[0], s);
            builder
        })
    }
""")]
C["wop_entry_is_empty"] = [(B, """        assert_ne!(self.entry_type, String::default(), "`entry_type` undefined");""", """        assert!(!self.entry_type.is_empty(), "`entry_type` undefined");""")]
C["wop_final_index_match"] = [(B, """        let index = self.final_index.map_or_else(
            || self.index.to_string(),
            |findex| format!("{:?}", self.index..findex),
        );
""", """        let index = if let Some(findex) = self.final_index {
            format!("{}..{}", self.index, findex)
        } else {
            format!("{}", self.index)
        };
""")]
