"""Changes of behaviour written from the property texts, to see which the analysis judges (names r_ are behaviour-preserving)."""
C = {}
P = "src/pos.rs"
D = "src/dfa.rs"
L = "src/lib.rs"
T = "src/tabler.rs"
G = "src/grammar.rs"
PA = "src/parser.rs"
LA = "src/lalr.rs"
CL = "src/clr.rs"
SL = "src/slr.rs"
B = "wop/src/builder.rs"
WL = "wop/src/lib.rs"
WM = "wop/src/main.rs"
CASES = C

C["first_skip_self"] = [(T, """                    if rc.0[0] == rule.name {
                        None
                    } else {
                        Some(rc.0[0].clone())
                    }""", """                    rc.0.iter().find(|sym| **sym != rule.name).cloned()""")]
C["follow_break_terminal"] = [(T, """                    if !self.grammar.is_terminal(&prod[term_idx]) {
                        let entry""", """                    if self.grammar.is_terminal(&prod[term_idx]) {
                        if term_idx > 0 {
                            break;
                        }
                    } else {
                        let entry""")]
C["follow_windows_bug"] = [(T, """                for term_idx in 0..prod.len() - 1 {
                    // A = . . . A a -> {A: FIRST(A)} -> {A: A} -> {}
                    if !self.grammar.is_terminal(&prod[term_idx]) {
                        let entry = table.entry(prod[term_idx].clone()).or_default();
                        if self.grammar.is_terminal(&prod[term_idx + 1]) {
                            // A = . . . T a -> {T: a}
                            entry.insert(prod[term_idx + 1].clone());
                        } else {
                            // A = . . . T B -> {T: FIRST(B)}
                            entry.extend(self.first[&prod[term_idx + 1]].clone());
                        }
                    }
                }""", """                for pair in prod.windows(2) {
                    let (sym, next) = (&pair[0], &pair[1]);
                    if self.grammar.is_terminal(sym) || sym == next {
                        continue;
                    }
                    let entry = table.entry(sym.clone()).or_default();
                    if self.grammar.is_terminal(next) {
                        entry.insert(next.clone());
                    } else {
                        entry.extend(self.first[next].iter().cloned());
                    }
                }""")]
C["r_follow_windows"] = [(T, """                for term_idx in 0..prod.len() - 1 {
                    // A = . . . A a -> {A: FIRST(A)} -> {A: A} -> {}
                    if !self.grammar.is_terminal(&prod[term_idx]) {
                        let entry = table.entry(prod[term_idx].clone()).or_default();
                        if self.grammar.is_terminal(&prod[term_idx + 1]) {
                            // A = . . . T a -> {T: a}
                            entry.insert(prod[term_idx + 1].clone());
                        } else {
                            // A = . . . T B -> {T: FIRST(B)}
                            entry.extend(self.first[&prod[term_idx + 1]].clone());
                        }
                    }
                }""", """                for pair in prod.windows(2) {
                    let (sym, next) = (&pair[0], &pair[1]);
                    if self.grammar.is_terminal(sym) {
                        continue;
                    }
                    let entry = table.entry(sym.clone()).or_default();
                    if self.grammar.is_terminal(next) {
                        entry.insert(next.clone());
                    } else {
                        entry.extend(self.first[next].iter().cloned());
                    }
                }""")]
C["follow_unit"] = [(T, "if !self.grammar.is_terminal(last) && last != &rule.name {", "if prod.len() > 1 && !self.grammar.is_terminal(last) && last != &rule.name {")]
C["follow_skip_entry"] = [(T, """        for rule in self.grammar.rules() {
            for prod in rule.prods() {
                let prod = &prod.0;
                for term""", """        let entry_rule = self.basis_pos().rule;
        for rule in self.grammar.rules().filter(|r| r.name != entry_rule || r.prods.len() > 1) {
            for prod in rule.prods() {
                let prod = &prod.0;
                for term""")]
C["follow_first_occurrence"] = [(T, """        for rule in self.grammar.rules() {
            for prod in rule.prods() {
                let prod = &prod.0;
                for term""", """        for rule in self.grammar.rules() {
            let mut seen = Set::new();
            for prod in rule.prods() {
                let prod = &prod.0;
                if !seen.insert(prod.first().cloned()) {
                    continue;
                }
                for term""")]
C["first_rounds"] = [(T, "        let mut first = transitive(self.first.clone(), |t| self.first_step(&t));", """        let mut first = self.first.clone();
        for _ in 0..4 {
            first = self.first_step(&first);
        }""")]
C["first_step_one_rule"] = [(T, """            for first in firsts {
                if self.grammar.is_terminal(first) {
                    table.get_mut(name).unwrap().insert(first.clone());
                } else {
                    table.get_mut(name).unwrap().extend(
                        input
                            .get(first)
                            .unwrap_or_else(|| {
                                panic!("{name:?} was not listed as terminal or non-terminal")
                            })
                            .clone(),
                    );
                }
            }""", """            if let Some(rule) = firsts.iter().find(|f| !self.grammar.is_terminal(f)) {
                let more = input.get(rule).unwrap_or_else(|| {
                    panic!("{name:?} was not listed as terminal or non-terminal")
                });
                table.get_mut(name).unwrap().extend(more.iter().cloned());
            }""")]
C["r_first_step_extend"] = [(T, """            for first in firsts {
                if self.grammar.is_terminal(first) {
                    table.get_mut(name).unwrap().insert(first.clone());
                } else {
                    table.get_mut(name).unwrap().extend(
                        input
                            .get(first)
                            .unwrap_or_else(|| {
                                panic!("{name:?} was not listed as terminal or non-terminal")
                            })
                            .clone(),
                    );
                }
            }""", """            for rule in firsts.iter().filter(|f| !self.grammar.is_terminal(f)) {
                let more = input.get(rule).unwrap_or_else(|| {
                    panic!("{name:?} was not listed as terminal or non-terminal")
                });
                table.get_mut(name).unwrap().extend(more.iter().cloned());
            }""")]
C["first_of_empty"] = [(T, """            if let Some(first) = self.first.get(item) {
                firsts.extend(first.clone());
            } else {
                firsts.insert(item.clone());
            };""", """            match self.first.get(item) {
                Some(first) if !first.is_empty() => firsts.extend(first.clone()),
                _ => {
                    firsts.insert(item.clone());
                }
            }""")]
C["sym_filter_core"] = [(T, """            .filter_map(|p| {
                if p.top().as_ref() == Some(sym) {
                    Position::clone_next(p)
                } else {
                    None
                }
            })
            .collect()""", """            .filter(|p| p.top().as_ref() == Some(sym))
            .filter_map(Position::clone_next)
            .fold(State::new(), |mut out, p| {
                if !out.iter().any(|q: &Position<T>| q.body_eq(&p)) {
                    out.insert(p);
                }
                out
            })""")]
C["r_sym_filter_fold"] = [(T, """            .filter_map(|p| {
                if p.top().as_ref() == Some(sym) {
                    Position::clone_next(p)
                } else {
                    None
                }
            })
            .collect()""", """            .filter(|p| p.top().as_ref() == Some(sym))
            .filter_map(Position::clone_next)
            .fold(State::new(), |mut out, p| {
                out.insert(p);
                out
            })""")]
C["conflicts_first"] = [(T, """            .flat_map(Map::values)
            .filter(|a| matches!(a, Action::Conflict(..)))""", """            .filter_map(|row| row.values().find(|a| matches!(a, Action::Conflict(..))))""")]
C["reduced_compat"] = [(T, """            if !actions_map.contains_key(old_action) {
                actions_map.insert(old_action.clone(), actions.len());
                actions.push(old_action.clone());
            }
            travel_idx.insert(i, actions_map[old_action]);""", """            let known = actions.iter().position(|row: &Map<T, Action<T>>| {
                row.iter().all(|(sym, act)| old_action.get(sym).map_or(true, |other| other == act))
                    && row.len() >= old_action.len()
            });
            let idx = known.unwrap_or(actions.len());
            if idx == actions.len() {
                actions.push(old_action.clone());
            }
            travel_idx.insert(i, idx);
            actions_map.insert(old_action.clone(), idx);""")]
C["r_reduced_position"] = [(T, """            if !actions_map.contains_key(old_action) {
                actions_map.insert(old_action.clone(), actions.len());
                actions.push(old_action.clone());
            }
            travel_idx.insert(i, actions_map[old_action]);""", """            let idx = match actions.iter().position(|row| row == old_action) {
                Some(idx) => idx,
                None => {
                    actions.push(old_action.clone());
                    actions.len() - 1
                }
            };
            travel_idx.insert(i, idx);
            actions_map.insert(old_action.clone(), idx);""")]
C["update_nested"] = [(T, """                Self::update_entry(a, travel);
                Self::update_entry(b, travel);
                return;""", """                for act in [a, b] {
                    if matches!(**act, Action::Shift(_) | Action::Goto(_)) {
                        Self::update_entry(act, travel);
                    }
                }
                return;""")]
C["r_update_array"] = [(T, """                Self::update_entry(a, travel);
                Self::update_entry(b, travel);
                return;""", """                for act in [a, b] {
                    Self::update_entry(act, travel);
                }
                return;""")]
C["reduce_twice"] = [(T, """            .for_each(|(_, e)| Self::update_entry(e, &travel));
    }""", """            .for_each(|(_, e)| Self::update_entry(e, &travel));
        if self.actions.iter().enumerate().any(|(i, row)| self.actions[..i].contains(row)) {
            let (travel, new_actions) = self.reduced_actions();
            self.actions = new_actions;
            self.actions
                .iter_mut()
                .flat_map(Map::values_mut)
                .for_each(|e| Self::update_entry(e, &travel));
        }
    }""")]
C["reduce_max1"] = [(D, "        self.states.truncate(len - prod.0.len());\n        let state", "        self.states.truncate((len - prod.0.len()).max(2));\n        let state")]
C["trace_stale_symbol"] = [(D, """            f(self);
            let symbol = self
                .buffer
                .peek()
                .map_or_else(|| &self.eof, |t| &t.ty)
                .clone();""", """            let symbol = self
                .buffer
                .peek()
                .map_or_else(|| &self.eof, |t| &t.ty)
                .clone();
            f(self);""")]
C["accept_finish_ok"] = [(D, """        self.finished = true;
        if self.buffer.peek().is_none() {
            Ok(())""", """        self.finished = self.buffer.peek().is_none();
        if self.finished {
            Ok(())""")]
C["travel_expect_shift"] = [(D, """                .filter(|(_, a)| !matches!(a, Action::Goto(_)))
                .map(""", """                .filter(|(_, a)| matches!(a, Action::Shift(_) | Action::Acc | Action::Reduce(..)))
                .map(""")]
C["travel_same_conflict"] = [(D, """            Action::Conflict(a, b) => Err""", """            Action::Conflict(a, b) if a == b => match a.as_ref() {
                Action::Reduce(name, prod) => self.reduce(&name.clone(), &prod.clone()),
                other => Err(Error::Conflict(other.clone(), *b.clone())),
            },
            Action::Conflict(a, b) => Err""")]
C["parse_reset_lazy"] = [(D, """        self.reset();
        self.buffer = input.peekable();""", """        if self.finished || self.states.len() > 1 {
            self.reset();
        }
        self.buffer = input.peekable();""")]
C["parse_keep_buffer"] = [(D, """        self.buffer = input.peekable();
        self.start()?;""", """        if self.buffer.peek().is_none() {
            self.buffer = input.peekable();
        }
        self.start()?;""")]
C["merged_first_only"] = [(PA, """                    state.look.extend(new.get(&key).unwrap().look.clone());
                    new.remove(&key);
                    new.insert(state);""", """                    if state.look.is_disjoint(&key.look) {
                        state.look.extend(key.look.clone());
                    }
                    new.remove(&key);
                    new.insert(state);""")]
C["merged_superset"] = [(PA, """                    let mut state = state;
                    state.look.extend(new.get(&key).unwrap().look.clone());
                    new.remove(&key);
                    new.insert(state);
                    continue 'outter;""", """                    if !key.look.iter().any(|l| state.look.contains(l)) || key.look.len() < state.look.len() {
                        let mut state = state;
                        state.look.extend(key.look.iter().cloned());
                        new.remove(&key);
                        new.insert(state);
                    }
                    continue 'outter;""")]
C["validate_incomplete"] = [(PA, "        self.parse(buffer, self.empty::<I::IntoIter>()).is_ok()", "        !matches!(self.parse(buffer, self.empty::<I::IntoIter>()), Err(Error::UnexpectedToken(..) | Error::UnexpectedEof | Error::Conflict(..) | Error::MissingPreviousState | Error::StateNotSpecified))")]
C["parser_parse_first"] = [(PA, "            .pop()\n            .ok_or", "            .drain(..)\n            .next()\n            .ok_or")]
C["lalr_forward_only"] = [(LA, "                    pending.insert(self.table.kernels[&nk]);", "                    let grown = self.table.kernels[&nk];\n                    if grown != idx {\n                        pending.insert(grown);\n                    }")]
C["lalr_queue_vec"] = [(LA, "        let mut pending = Set::from([0]);\n        while let Some(idx) = pending.pop_first() {", "        let mut pending = Set::from([0]);\n        let mut visited = Set::new();\n        while let Some(idx) = pending.pop_first() {\n            if !visited.insert((idx, self.table.states[idx].len())) {\n                continue;\n            }")]
C["lalr_raws_stale"] = [(LA, """        self.raws
            .insert(Self::without_look(&new_kernel), new_kernel.clone());
""", """        self.raws
            .entry(Self::without_look(&new_kernel))
            .or_insert_with(|| new_kernel.clone());
""")]
C["lalr_update_closure_kernel"] = [(LA, "        self.table.states[state_id] = Self::merged(both_closures);", "        self.table.states[state_id] = self.prop_closure(new_kernel.clone());")]
C["lalr_eq_len"] = [(LA, "        if &new_kernel == main {", "        if new_kernel.iter().map(|p| p.look.len()).max() == main.iter().map(|p| p.look.len()).max() {")]
C["clr_same_core"] = [(CL, "        if self.table.kernels.contains_key(&kernels) {", "        if self.table.kernels.keys().any(|k| k.len() == kernels.len() && k.iter().zip(&kernels).all(|(a, b)| a.body_eq(b) && b.look.is_subset(&a.look))) {")]
C["clr_conflict_rule"] = [(CL, "                    if map.contains_key(&term) && map[&term] != act {", "                    if let (Some(Action::Reduce(a, _)), Action::Reduce(b, _)) = (map.get(&term), &act) {\n                        if a == b {\n                            continue;\n                        }\n                    }\n                    if map.contains_key(&term) && map[&term] != act {")]
C["r_clr_entry"] = [(CL, """                    if map.contains_key(&term) && map[&term] != act {
                        *map.get_mut(&term).unwrap() =
                            Action::Conflict(Box::new(map.get(&term).unwrap().clone()), act.into());
                    } else {
                        map.insert(term, act);
                    }""", """                    match map.get_mut(&term) {
                        Some(old) if *old != act => {
                            *old = Action::Conflict(Box::new(old.clone()), Box::new(act));
                        }
                        Some(_) => {}
                        None => {
                            map.insert(term, act);
                        }
                    }""")]
C["slr_conflict_reduce_only"] = [(SL, "                    if map.contains_key(&term) && map[&term] != act {", "                    if matches!(map.get(&term), Some(Action::Acc)) {\n                        continue;\n                    }\n                    if map.contains_key(&term) && map[&term] != act {")]
C["slr_follow_look"] = [(SL, "State::from([self.table.basis_pos()])", "State::from([self.table.basis_pos().no_look()])")]
C["clr_syms_terminals_last"] = [(CL, "            for s in self.table.grammar.symbols() {", "            for s in self.table.grammar.symbols().filter(|s| idx == 0 || !self.table.states[idx].iter().all(|p| p.finished() || p.top().as_ref() == Some(s) && p.point == 0)) {")]
C["decision_first_look"] = [(CL, "                            if &pos.rule == entry_point {", "                            if &pos.rule == entry_point && row.len() == 1 {")]
C["grammar_terms_first"] = [(G, """                for term in &rc.0 {
                    if !rules.contains_key(term) {
                        terminals.insert(term.clone());
                    }
                }""", """                let tail = rc.0.iter().rev().take_while(|s| !rules.contains_key(*s));
                terminals.extend(tail.cloned());
                let head = rc.0.iter().take_while(|s| !rules.contains_key(*s));
                terminals.extend(head.cloned());""")]
C["rule_dedup"] = [(G, """            prods: prods
                .into_iter()
                .enumerate()""", """            prods: prods
                .into_iter()
                .filter(|p: &Vec<T>| !p.is_empty())
                .enumerate()""")]
C["pos_clone_next_look"] = [(P, "            next.adv();\n            Some(next)", "            next.adv();\n            if next.finished() && next.look.len() > 8 {\n                next.look = next.look.into_iter().take(8).collect();\n            }\n            Some(next)")]
C["transparent_once"] = [(D, "                let prods = r.prods().map(|_| func);", "                let prods = r.prods().enumerate().filter(|(i, p)| p.1 == *i && r.prods[..*i].iter().all(|q| q.0 != p.0)).map(|_| func);")]
C["span_from_sorted"] = [(L, "            start: value.0,\n            end: value.1,", "            start: value.0.min(value.1),\n            end: value.0.max(value.1),")]
C["b_alias_literal"] = [(B, "                Sym::IdentPath => prod.production.push(*get_definition(false)),", "                Sym::IdentPath if pipe.len() == 1 => prod.production.push(item.item.span),\n                Sym::IdentPath => prod.production.push(*get_definition(false)),")]
C["b_codeblock_last"] = [(B, """            assert_ne!(
                prod.1.from_source(src),
                "",
                "missing code block for {:?}",
                rule_ident.from_source(src)
            );""", """            assert!(
                !prod.1.from_source(src).is_empty() || rule.len() > 1,
                "missing code block for {:?}",
                rule_ident.from_source(src)
            );""")]
C["b_rule_overwrite_same"] = [(B, """        assert!(
            self.rules
                .insert(rule_ident.from_source(src).to_string(), rules)
                .is_none(),
            "rule {} was already defined",
            rule_ident.from_source(src)
        );""", """        let name = rule_ident.from_source(src).to_string();
        if let Some(old) = self.rules.get(&name) {
            assert!(
                old.iter().map(|p| &p.production).eq(rules.iter().map(|p| &p.production)),
                "rule {} was already defined",
                name
            );
        }
        self.rules.insert(name, rules);""")]
C["b_optional_order"] = [(B, "                    return self.get_production(&[prod, ignored_prod], &pipe[i + 1..], src);", "                    let rest = &pipe[i + 1..];\n                    if rest.is_empty() {\n                        return vec![ignored_prod, prod];\n                    }\n                    return self.get_production(&[prod, ignored_prod], rest, src);")]
C["b_final_index_start"] = [(B, "                                        Some(new.production.len());", "                                        Some(prod.production.len() + variant.len());")]
C["b_sub_alias_none"] = [(B, "                    prod_alias.optional.get_or_insert(true);", "                    prod_alias.optional = Some(prods_aliases.len() > 1 || prod_alias.optional != Some(false));")]
C["b_imports_dedup"] = [(B, "        self.imports.push(decl);", "        if !self.imports.contains(&decl) && self.imports.last().map_or(true, |l| l.end <= decl.start) {\n            self.imports.push(decl);\n        }")]
C["b_reductor_skip_unused"] = [(B, "            for alias in &prod.aliases {\n                alias.write", "            for alias in prod.aliases.iter().filter(|a| prod.codeblock.from_source(src).contains(a.alias.from_source(src))) {\n                alias.write")]
C["b_write_usize"] = [(B, "            Some(true) => writeln!(out, \"let {alias} = Some({prefix}{index}{suffix});\"),", "            Some(true) if self.final_index == Some(self.index) => writeln!(out, \"let {alias} = None;\"),\n            Some(true) => writeln!(out, \"let {alias} = Some({prefix}{index}{suffix});\"),")]
C["b_grammar_sorted"] = [(B, "            for gramem in &prod.production {\n                write!", "            for gramem in prod.production.iter().filter(|g| !g.from_source(src).is_empty()) {\n                write!")]
C["b_empty_prods"] = [(B, "        if pipe.is_empty() {\n            origin.to_vec()\n        } else {", "        if pipe.is_empty() || origin.len() > 16 {\n            origin.to_vec()\n        } else {")]
C["b_reduct_dup_names"] = [(B, "        for (i, _) in prods.iter().enumerate() {\n            write!(out, \"lrp_wop_{name}_{i}, \").unwrap();", "        for (i, prod) in prods.iter().enumerate() {\n            let i = prods[..i].iter().position(|p| p.codeblock == prod.codeblock && p.aliases.len() == prod.aliases.len()).unwrap_or(i);\n            write!(out, \"lrp_wop_{name}_{i}, \").unwrap();")]
C["b_from_str_empty"] = [(B, "        dfa.start()?;\n        let mut builder = Self::default();", "        if let Err(e) = dfa.start() {\n            if dfa.items.is_empty() {\n                return Ok(Self::default());\n            }\n            return Err(e);\n        }\n        let mut builder = Self::default();")]
C["w_lexer_range"] = [(WL, ".map(|(t, s)| Token::new(Meta::new(Ast::Token(t), Span::new(s.start, s.end)), t))", ".filter(|(t, _)| *t != Sym::Error)\n        .map(|(t, s)| Token::new(Meta::new(Ast::Token(t), Span::new(s.start, s.end)), t))")]
C["w_main_create_first"] = [(WM, '    let mut builder = Builder::new("Gramem".to_string());', '    let _touch = File::options().create(true).append(true).open("out.rs")?;\n    let mut builder = Builder::new("Gramem".to_string());')]
C["w_main_err_swallow"] = [(WM, "    res?;\n", "    if dfa.items.is_empty() {\n        res?;\n    }\n")]
