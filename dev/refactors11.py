"""Rewrites that keep the behaviour by a small argument (redundant steps dropped, shortcuts for empty sets) and rewrites of wop."""
T, LA, CL, SL, PA, G, D, P, L = ("src/tabler.rs", "src/lalr.rs", "src/clr.rs", "src/slr.rs", "src/parser.rs", "src/grammar.rs",
                                 "src/dfa.rs", "src/pos.rs", "src/lib.rs")
B, WL, WM = "wop/src/builder.rs", "wop/src/lib.rs", "wop/src/main.rs"
CASES = {}


def case(name, *edits):
    CASES[name] = list(edits)


case("first_drop_insert", (T, """                if self.grammar.is_terminal(first) {
                    table.get_mut(name).unwrap().insert(first.clone());
                } else {
                    table.get_mut(name).unwrap().extend(""", """                if !self.grammar.is_terminal(first) {
                    table.get_mut(name).unwrap().extend("""))
case("first_remove_only", (T, """            if table[name].contains(name) {
                table.get_mut(name).unwrap().remove(name);
            }""", """            table.get_mut(name).unwrap().remove(name);"""))
case("first_local", (T, """            table.insert(name.clone(), firsts.clone());
            for first in firsts {
                if self.grammar.is_terminal(first) {
                    table.get_mut(name).unwrap().insert(first.clone());
                } else {
                    table.get_mut(name).unwrap().extend(
                        input
                            .get(first)
                            .unwrap_or_else(|| {
                                panic!("{name:?} was not listed as terminal or non-terminal")
                            })
                            .clone(),
                    );
                }
            }
            if table[name].contains(name) {
                table.get_mut(name).unwrap().remove(name);
            }""", """            let mut grown = firsts.clone();
            for first in firsts {
                if self.grammar.is_terminal(first) {
                    continue;
                }
                let known = input.get(first).unwrap_or_else(|| {
                    panic!("{name:?} was not listed as terminal or non-terminal")
                });
                grown.extend(known.iter().cloned());
            }
            grown.remove(name);
            table.insert(name.clone(), grown);"""))
case("follow_local", (T, """            table.insert(noterm.clone(), terms.clone());
            for term in terms {
                let entry = table.get_mut(noterm).unwrap();
                if self.grammar.is_terminal(term) {
                    entry.insert(term.clone());
                } else if let Some(set) = input.get(term) {
                    entry.extend(set.clone());
                }
            }
            if table[noterm].contains(noterm) {
                table.get_mut(noterm).unwrap().remove(noterm);
            }""", """            let mut entry = terms.clone();
            for term in terms {
                match input.get(term) {
                    Some(set) if !self.grammar.is_terminal(term) => entry.extend(set.iter().cloned()),
                    _ => {}
                }
            }
            entry.remove(noterm);
            table.insert(noterm.clone(), entry);"""))
case("follow_map_collect", (T, """            table.insert(noterm.clone(), terms.clone());
            for term in terms {
                let entry = table.get_mut(noterm).unwrap();
                if self.grammar.is_terminal(term) {
                    entry.insert(term.clone());
                } else if let Some(set) = input.get(term) {
                    entry.extend(set.clone());
                }
            }
            if table[noterm].contains(noterm) {
                table.get_mut(noterm).unwrap().remove(noterm);
            }""", """            let inherited = terms
                .iter()
                .filter(|t| !self.grammar.is_terminal(t))
                .filter_map(|t| input.get(t))
                .flatten();
            let entry: Set<T> = terms.iter().chain(inherited).filter(|t| *t != noterm).cloned().collect();
            table.insert(noterm.clone(), entry);"""))
case("proc_first_helper", (T, """        for firsts in first.values_mut() {
            firsts.retain(|t| self.grammar.is_terminal(t));
        }
        self.first = first;""", """        self.keep_terminals(&mut first);
        self.first = first;"""), (T, """        for terms in follow.values_mut() {
            terms.retain(|t| self.grammar.is_terminal(t));
        }
        self.follow = follow;""", """        self.keep_terminals(&mut follow);
        self.follow = follow;"""), (T, """    #[must_use]
    pub fn basis_pos""", """    fn keep_terminals(&self, table: &mut Table<T>) {
        for set in table.values_mut() {
            set.retain(|t| self.grammar.is_terminal(t));
        }
    }

    #[must_use]
    pub fn basis_pos"""))
case("proc_first_intersect", (T, """        for firsts in first.values_mut() {
            firsts.retain(|t| self.grammar.is_terminal(t));
        }
        self.first = first;""", """        first
            .values_mut()
            .for_each(|firsts| firsts.retain(|t| !self.grammar.rules.contains_key(t)));
        self.first = first;"""))
case("proc_first_rebuild", (T, """        let mut first = transitive(self.first.clone(), |t| self.first_step(&t));""", """        let first = transitive(self.first.clone(), |t| self.first_step(&t));"""),
     (T, """        for firsts in first.values_mut() {
            firsts.retain(|t| self.grammar.is_terminal(t));
        }
        self.first = first;""", """        self.first = first
            .into_iter()
            .map(|(rule, firsts)| {
                let terms = firsts.into_iter().filter(|t| self.grammar.is_terminal(t)).collect();
                (rule, terms)
            })
            .collect();"""))
case("trans_while", (L, """    let mut val = seed;
    loop {
        let new = map(val.clone());
        if new == val {
            return val;
        }
        val = new;
    }""", """    let mut val = seed;
    let mut new = map(val.clone());
    while new != val {
        val = new;
        new = map(val.clone());
    }
    val"""))
case("trans_rec", (L, """    let mut val = seed;
    loop {
        let new = map(val.clone());
        if new == val {
            return val;
        }
        val = new;
    }""", """    let mut val = seed;
    let mut changed = true;
    while changed {
        let new = map(val.clone());
        changed = new != val;
        val = new;
    }
    val"""))
case("sym_filter_finished", (T, """                if p.top().as_ref() == Some(sym) {
                    Position::clone_next(p)
                } else {
                    None
                }""", """                if p.finished() || p.top().as_ref() != Some(sym) {
                    return None;
                }
                let mut next = p.clone();
                next.adv();
                Some(next)"""))
case("follow_last_split", (T, """                let last = prod.last().unwrap();
                // A = . . . . T -> {T: FOLLOW(A)}
                // But if A = . . . . A -> {A: FOLLOW(A)} -> {A: A} -> {}
                if !self.grammar.is_terminal(last) && last != &rule.name {
                    table
                        .entry(last.clone())
                        .or_default()
                        .insert(rule.name.clone());
                }""", """                let last = &prod[prod.len() - 1];
                if *last == rule.name || self.grammar.is_terminal(last) {
                    continue;
                }
                let entry = table.entry(last.clone()).or_default();
                entry.insert(rule.name.clone());"""))
case("lalr_goto_row", (LA, """            let row = self.table.states[idx].clone();
            for s in &syms {
                let Some((kernel, closures)) = self.goto(&row, s) else {
                    continue;
                };""", """            let row = self.table.states[idx].clone();
            let heads: Set<T> = row.iter().filter_map(Position::top).collect();
            for s in syms.iter().filter(|s| heads.contains(*s)) {
                let Some((kernel, closures)) = self.goto(&row, s) else {
                    continue;
                };"""))
case("goto_top_check", (CL, """        let kernels = Tabler::sym_filter(kernels, sym);
        if self.table.kernels.contains_key(&kernels) {
            None?;
        }
""", """        let kernels = Tabler::sym_filter(kernels, sym);
        if kernels.is_empty() || self.table.kernels.contains_key(&kernels) {
            return None;
        }
"""))
case("goto_top_check_slr", (SL, """        let kernels = Tabler::sym_filter(kernels, sym);
        if self.table.kernels.contains_key(&kernels) {
            None?;
        }
""", """        let kernels = Tabler::sym_filter(kernels, sym);
        if kernels.is_empty() || self.table.kernels.contains_key(&kernels) {
            return None;
        }
"""))
case("raws_entry", (LA, """        self.raws
            .insert(Self::without_look(&new_kernel), new_kernel.clone());
""", """        let raw = Self::without_look(&new_kernel);
        *self.raws.entry(raw).or_default() = new_kernel.clone();
"""))
case("update_take", (LA, """        let both_closures = self.table.states[state_id]
            .clone()
            .into_iter()
            .chain(closures)
            .collect();
""", """        let mut both_closures = std::mem::take(&mut self.table.states[state_id]);
        both_closures.extend(closures);
"""))
case("dfa_reduce_pop", (D, """        self.items.truncate(len - prod.0.len());
        self.items.push(new_item);
""", """        for _ in &prod.0 {
            self.items.pop();
        }
        self.items.push(new_item);
"""))
case("dfa_reset_trunc", (D, """        self.states.clear();
        self.states.push(0);
        self.items.clear();""", """        self.states = vec![0];
        self.items = Vec::new();"""))
case("dfa_shift_if", (D, """        let item = self.buffer.next().ok_or(Error::UnexpectedEof)?;
        self.items.push(item);
        self.top = to;
        self.states.push(self.top);
        Ok(())""", """        match self.buffer.next() {
            Some(item) => {
                self.items.push(item);
                self.goto(to)
            }
            None => Err(Error::UnexpectedEof),
        }"""))
case("expected_keys", (D, """            let expecteds = state
                .iter()
                .filter(|(_, a)| !matches!(a, Action::Goto(_)))
                .map(|(s, _)| s.clone())
                .collect();""", """            let mut expecteds: Vec<M> = state.keys().cloned().collect();
            expecteds.retain(|s| !matches!(state[s], Action::Goto(_)));"""))
case("rule_new_loop", (G, """            prods: prods
                .into_iter()
                .enumerate()
                .map(|(i, p)| Rc::new((p, i)))
                .collect(),""", """            prods: {
                let mut out = Vec::new();
                for prod in prods {
                    let idx = out.len();
                    out.push(Rc::new((prod, idx)));
                }
                out
            },"""))
case("gram_difference", (G, """        let mut terminals = Set::new();
        for rule in rules.values() {
            for rc in rule.prods() {
                for term in &rc.0 {
                    if !rules.contains_key(term) {
                        terminals.insert(term.clone());
                    }
                }
            }
        }
        terminals.insert(eof.clone());""", """        let mut terminals = Set::new();
        for rule in rules.values() {
            for rc in rule.prods() {
                terminals.extend(rc.0.iter().cloned());
            }
        }
        terminals.retain(|t| !rules.contains_key(t));
        terminals.insert(eof.clone());"""))
# wop
case("w_push_alias", (B, """        alias.index += self.production.len();
        if let Some(final_index) = alias.final_index.as_mut() {
            *final_index += self.production.len();
        }""", """        let base = self.production.len();
        alias.index += base;
        alias.final_index = alias.final_index.map(|end| end + base);"""))
case("w_write_match", (B, """        let index = self.final_index.map_or_else(
            || self.index.to_string(),
            |findex| format!("{:?}", self.index..findex),
        );""", """        let index = match self.final_index {
            Some(end) => format!("{}..{}", self.index, end),
            None => format!("{}", self.index),
        };"""))
case("w_write_suffix", (B, """        let suffix = if self.clone {
            self.final_index
                .map_or_else(|| "].clone()", |_| "].to_vec()")
        } else {
            "]"
        };
        let prefix = if self.clone { "toks[" } else { "&toks[" };""", """        let (prefix, suffix) = match (self.clone, self.final_index.is_some()) {
            (false, _) => ("&toks[", "]"),
            (true, false) => ("toks[", "].clone()"),
            (true, true) => ("toks[", "].to_vec()"),
        };"""))
case("w_get_prod", (B, """        if pipe.is_empty() {
            origin.to_vec()
        } else {
            let mut out = Vec::new();
            for origin in origin {
                out.extend(self.get_from_single_production(origin, pipe, src));
            }
            out
        }""", """        origin
            .iter()
            .flat_map(|origin| self.get_from_single_production(origin, pipe, src))
            .collect()"""))
case("w_get_prod_fold", (B, """            let mut out = Vec::new();
            for origin in origin {
                out.extend(self.get_from_single_production(origin, pipe, src));
            }
            out""", """            origin.iter().fold(Vec::new(), |mut out, one| {
                out.append(&mut self.get_from_single_production(one, pipe, src));
                out
            })"""))
case("w_optional_then", (B, "optional: if is_optional { Some(true) } else { None },", "optional: is_optional.then_some(true),"))
case("w_dump_for", (B, """        self.imports.iter().for_each(|i| {
            writeln!(out, "\\tuse {};", i.from_source(src)).unwrap();
        });
        writeln!(out, "\\tlet mut map = lrp::RuleMap::new();").unwrap();""", """        for import in &self.imports {
            out.push_str("\\tuse ");
            out.push_str(import.from_source(src));
            out.push_str(";\\n");
        }
        out.push_str("\\tlet mut map = lrp::RuleMap::new();\\n");"""))
case("w_write_rule", (B, """            for gramem in &prod.production {
                write!(out, "{}, ", gramem.from_source(src)).unwrap();
            }""", """            for gramem in &prod.production {
                out.push_str(gramem.from_source(src));
                out.push_str(", ");
            }"""))
case("w_reduct_range", (B, """        for (i, _) in prods.iter().enumerate() {
            write!(out, "lrp_wop_{name}_{i}, ").unwrap();
        }""", """        for i in 0..prods.len() {
            write!(out, "lrp_wop_{name}_{i}, ").unwrap();
        }"""))
case("w_token_decl", (B, """        assert!(
            self.aliases
                .insert(tk.from_source(src).to_string(), alias)
                .is_none(),
            "overriding an already defined alias: {} to {} ",
            tk.from_source(src),
            alias.from_source(src),
        );""", """        let old = self.aliases.insert(tk.from_source(src).to_owned(), alias);
        assert!(
            old.is_none(),
            "overriding an already defined alias: {} to {} ",
            tk.from_source(src),
            alias.from_source(src),
        );"""))
case("w_sub_aliases", (B, """                if let Some(prod_alias) = prod
                    .aliases
                    .iter_mut()
                    .find(|a| a.alias.from_source(src) == alias_name.from_source(src))
                {
                    // a missing alias (`Some(false)`) stays missing
                    prod_alias.optional.get_or_insert(true);
                } else {""", """                let name = alias_name.from_source(src);
                let found = prod.aliases.iter_mut().find(|a| a.alias.from_source(src) == name);
                if let Some(prod_alias) = found {
                    if prod_alias.optional.is_none() {
                        prod_alias.optional = Some(true);
                    }
                } else {"""))
case("w_sub_aliases_filter", (B, """        let prods_aliases: BTreeSet<_> = productions
            .iter()
            .flat_map(|a| a.aliases.iter())
            .map(|a| a.alias)
            .collect();
        let prods_aliases: BTreeSet<_> = prods_aliases.difference(&base_aliases).collect();
""", """        let prods_aliases: BTreeSet<SrcRef> = productions
            .iter()
            .flat_map(|a| a.aliases.iter())
            .map(|a| a.alias)
            .filter(|a| !base_aliases.contains(a))
            .collect();
        let prods_aliases: BTreeSet<_> = prods_aliases.iter().collect();
"""))
case("w_ignored_helper", (B, """                        final_index: None,
                                        clone,
                                    };
                                    ignored_prod.aliases.push(item_alias);""", """                        final_index: None,
                                        clone,
                                    };
                                    ignored_prod.aliases.extend([item_alias]);"""))
case("w_from_str_match", (B, """        dfa.start()?;
        let mut builder = Self::default();
        builder.process(&dfa.items[0], s);
        Ok(builder)""", """        if let Err(e) = dfa.start() {
            return Err(e);
        }
        let mut builder = Self::new(String::new());
        let program = &dfa.items[0];
        builder.process(program, s);
        Ok(builder)"""))
case("w_lexer_closure", (WL, """        .map(|(t, s)| Token::new(Meta::new(Ast::Token(t), Span::new(s.start, s.end)), t))""", """        .map(|(sym, range)| {
            let span = Span::new(range.start, range.end);
            Token::new(Meta::new(Ast::Token(sym), span), sym)
        })"""))
case("w_strip", (B, """prod.codeblock.from_source(src).strip_prefix("->").unwrap().strip_suffix('%').unwrap()""", """prod.codeblock.from_source(src).strip_prefix("->").and_then(|c| c.strip_suffix('%')).unwrap()"""))
case("w_rule_decl_flat", (B, """            rules.extend(self.get_production(&[base], &prod.0, src));""", """            let variants = self.get_production(std::slice::from_ref(&base), &prod.0, src);
            for variant in variants {
                rules.push(variant);
            }"""))
