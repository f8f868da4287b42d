"""Rewrites that keep the behaviour: helpers moved across files, iterator comparisons, early exits, folds."""
T, LA, CL, SL, PA, G, D, P, L = ("src/tabler.rs", "src/lalr.rs", "src/clr.rs", "src/slr.rs", "src/parser.rs", "src/grammar.rs",
                                 "src/dfa.rs", "src/pos.rs", "src/lib.rs")
CASES = {}


def case(name, *edits):
    CASES[name] = list(edits)


case("eq_iter", (LA, "        if &new_kernel == main {", "        if new_kernel.iter().eq(main.iter()) {"))
case("eq_len_all", (LA, "        if &new_kernel == main {", "        if new_kernel.len() == main.len() && new_kernel.iter().all(|p| main.contains(p)) {"))
case("body_eq_seq_iter", (P, "self.seq == rhs.seq && self.rule == rhs.rule", "self.seq.1 == rhs.seq.1 && self.seq.0.iter().eq(rhs.seq.0.iter()) && self.rule == rhs.rule"))
case("body_eq_tuple", (P, "self.point == rhs.point && self.seq == rhs.seq && self.rule == rhs.rule", "(&self.rule, &self.seq, self.point) == (&rhs.rule, &rhs.seq, rhs.point)"))
case("body_eq_nolook", (P, "self.point == rhs.point && self.seq == rhs.seq && self.rule == rhs.rule", "self.no_look() == rhs.no_look()"))
ENT = """                    if map.contains_key(&term) && map[&term] != act {
                        *map.get_mut(&term).unwrap() =
                            Action::Conflict(Box::new(map.get(&term).unwrap().clone()), act.into());
                    } else {
                        map.insert(term, act);
                    }"""
for n, f in (("lalr", LA), ("clr", CL), ("slr", SL)):
    case("act_match_" + n, (f, ENT, """                    match map.get(&term) {
                        Some(old) if *old != act => {
                            let both = Action::Conflict(Box::new(old.clone()), Box::new(act));
                            map.insert(term, both);
                        }
                        _ => {
                            map.insert(term, act);
                        }
                    }"""))
    case("act_remove_" + n, (f, ENT, """                    let act = match map.remove(&term) {
                        Some(old) if old != act => Action::Conflict(Box::new(old), act.into()),
                        Some(old) => old,
                        None => act,
                    };
                    map.insert(term, act);"""))
    case("act_getmut_" + n, (f, ENT, """                    if let Some(old) = map.get_mut(&term) {
                        if *old != act {
                            *old = Action::Conflict(Box::new(old.clone()), act.into());
                        }
                    } else {
                        map.insert(term, act);
                    }"""))
    case("act_entry_" + n, (f, ENT, """                    map.entry(term)
                        .and_modify(|old| {
                            if *old != act {
                                *old = Action::Conflict(Box::new(old.clone()), Box::new(act.clone()));
                            }
                        })
                        .or_insert(act);"""))
CLO = """        for pos in &state {
            if let Some(top) = pos.top() {
                if self.table.grammar.is_terminal(&top) {
                    continue;
                }
                let look = pos.next().map_or_else(
                    || pos.look.clone(),
                    |locus| self.table.first_of(&Set::from([locus])),
                );"""
case("clo_let_else", (LA, CLO, """        for pos in &state {
            let Some(top) = pos.top() else { continue };
            if !self.table.grammar.is_terminal(&top) {
                let look = match pos.next() {
                    None => pos.look.clone(),
                    Some(locus) => self.table.first_of(&Set::from([locus])),
                };"""))
case("clo_filter", (LA, CLO, """        for pos in &state {
            if let Some(top) = pos.top().filter(|t| !self.table.grammar.is_terminal(t)) {
                let look = if let Some(locus) = pos.next() {
                    self.table.first_of(&Set::from([locus]))
                } else {
                    pos.look.clone()
                };"""))
case("clo_rules_get", (LA, CLO, """        for pos in &state {
            if let Some(top) = pos.top() {
                if !self.table.grammar.rules.contains_key(&top) {
                    continue;
                }
                let look = self.look_after(pos);"""), (LA, """    fn proc_closures(&mut self) {""", """    fn look_after(&self, pos: &Position<T>) -> Set<T> {
        match pos.peek(1) {
            Some(next) => self.table.first_of(&[next].into_iter().collect()),
            None => pos.look.clone(),
        }
    }

    fn proc_closures(&mut self) {"""))
case("clo_extend", (LA, """                for prod in self.table.grammar.rules[&top].prods() {
                    new_state.insert(Position::new(top.clone(), prod.clone(), 0, look.clone()));
                }""", """                let rule = &self.table.grammar.rules[&top];
                new_state.extend(
                    rule.prods()
                        .map(|prod| Position::new(top.clone(), prod, 0, look.clone())),
                );"""))
case("clo_flat_map", (LA, """        let mut new_state = State::new();
""" + CLO + """
                for prod in self.table.grammar.rules[&top].prods() {
                    new_state.insert(Position::new(top.clone(), prod.clone(), 0, look.clone()));
                }
            }
        }
        new_state.extend(state);
        new_state""", """        let mut new_state: State<T> = state
            .iter()
            .filter_map(|pos| pos.top().map(|top| (pos, top)))
            .filter(|(_, top)| !self.table.grammar.is_terminal(top))
            .flat_map(|(pos, top)| {
                let look = pos.next().map_or_else(
                    || pos.look.clone(),
                    |locus| self.table.first_of(&Set::from([locus])),
                );
                self.table.grammar.rules[&top]
                    .prods()
                    .map(|prod| Position::new(top.clone(), prod, 0, look.clone()))
                    .collect::<Vec<_>>()
            })
            .collect();
        new_state.extend(state);
        new_state"""))
case("clo_seed", (LA, "        let mut new_state = State::new();\n        for pos in &state {", "        let mut new_state = state.clone();\n        for pos in &state {"),
     (LA, "        new_state.extend(state);\n        new_state", "        new_state"))
case("goto_early", (LA, """        if self.table.kernels.contains_key(&kernels) {
            None?;
        }
        let new = self.prop_closure(kernels.clone());
        if new.is_empty() {
            None
        } else {
            Some((kernels, new))
        }""", """        if self.table.kernels.get(&kernels).is_some() {
            return None;
        }
        let closure = self.prop_closure(kernels.clone());
        (!closure.is_empty()).then_some((kernels, closure))"""))
case("goto_moved", (LA, """        if self.table.kernels.contains_key(&kernels) {
            None?;
        }
        let new = self.prop_closure(kernels.clone());
        if new.is_empty() {
            None
        } else {
            Some((kernels, new))
        }""", """        if kernels.is_empty() || self.table.kernels.contains_key(&kernels) {
            None
        } else {
            let new = self.prop_closure(kernels.clone());
            Some((kernels, new))
        }"""))
case("clr_for_goto", (CL, """            for s in self.table.grammar.symbols() {
                let Some((kernel, closures)) = self.goto(&self.table.states[idx], &s) else {
                    continue;
                };
                let old_val = self.table.kernels.insert(kernel, self.table.states.len());
                debug_assert!(old_val.is_none());
                self.table.states.push(closures);
            }""", """            let symbols: Vec<T> = self.table.grammar.symbols().collect();
            for s in &symbols {
                if let Some((kernel, closures)) = self.goto(&self.table.states[idx], s) {
                    let id = self.table.states.len();
                    self.table.states.push(closures);
                    let old_val = self.table.kernels.insert(kernel, id);
                    debug_assert!(old_val.is_none());
                }
            }"""))
case("clr_row_clone", (CL, """            for s in self.table.grammar.symbols() {
                let Some((kernel, closures)) = self.goto(&self.table.states[idx], &s) else {""", """            let row = self.table.states[idx].clone();
            for s in self.table.grammar.symbols() {
                let Some((kernel, closures)) = self.goto(&row, &s) else {"""))
case("clr_loop_break", (CL, "        while idx < self.table.states.len() {", "        loop {\n            if idx >= self.table.states.len() {\n                break;\n            }"))
case("lalr_pending_helper", (LA, """                    let Some(nk) = self.update_state(&main_kernel, kernel, closures) else {
                        continue;
                    };
                    pending.insert(self.table.kernels[&nk]);""", """                    if let Some(nk) = self.update_state(&main_kernel, kernel, closures) {
                        let grown = self.table.kernels[&nk];
                        pending.insert(grown);
                    }"""))
case("lalr_id_first", (LA, """                    self.raws.insert(raw_kernel, kernel.clone());
                    self.table.states.push(closures);
                    let old = self
                        .table
                        .kernels
                        .insert(kernel, self.table.states.len() - 1);
                    debug_assert!(old.is_none());
                    pending.insert(self.table.states.len() - 1);""", """                    let id = self.table.states.len();
                    self.raws.insert(raw_kernel, kernel.clone());
                    let old = self.table.kernels.insert(kernel, id);
                    debug_assert!(old.is_none());
                    self.table.states.push(closures);
                    pending.insert(id);"""))
case("lalr_match", (LA, """                if let Some(main_kernel) = self.raws.get(&raw_kernel).cloned() {
                    let Some(nk) = self.update_state(&main_kernel, kernel, closures) else {
                        continue;
                    };
                    pending.insert(self.table.kernels[&nk]);
                } else {""", """                if self.raws.contains_key(&raw_kernel) {
                    let main_kernel = self.raws[&raw_kernel].clone();
                    match self.update_state(&main_kernel, kernel, closures) {
                        Some(nk) => {
                            pending.insert(self.table.kernels[&nk]);
                        }
                        None => continue,
                    }
                } else {"""))
case("update_merge_helper", (LA, """        let both_kernels = inc.into_iter().chain(main.clone()).collect();
        let new_kernel = Self::merged(both_kernels);
""", """        let new_kernel = Self::joined(inc, main);
"""), (LA, """        let both_closures = self.table.states[state_id]
            .clone()
            .into_iter()
            .chain(closures)
            .collect();
""", ""), (LA, "        self.table.states[state_id] = Self::merged(both_closures);", "        let all = Self::joined(closures, &self.table.states[state_id]);\n        self.table.states[state_id] = all;"),
     (LA, """    fn proc_closures(&mut self) {""", """    fn joined(mut inc: State<T>, main: &State<T>) -> State<T> {
        inc.extend(main.iter().cloned());
        Self::merged(inc)
    }

    fn proc_closures(&mut self) {"""))
case("update_union", (LA, "        let both_kernels = inc.into_iter().chain(main.clone()).collect();", "        let both_kernels = main.union(&inc).cloned().collect();"))
case("dec_if_let", (LA, """                let filter = Tabler::sym_filter(row, &locus);
                let state = self
                    .state_from_kernel(&filter)
                    .expect("`kernels` is incomplete");
                if self.table.grammar.is_terminal(&locus) {
                    Map::from([(locus, Action::Shift(state))])
                } else {
                    Map::from([(locus, Action::Goto(state))])
                }""", """                let kernel = Tabler::sym_filter(row, &locus);
                let Some(state) = self.state_from_kernel(&kernel) else {
                    panic!("`kernels` is incomplete");
                };
                let action = if self.table.grammar.is_terminal(&locus) {
                    Action::Shift
                } else {
                    Action::Goto
                };
                std::iter::once((locus, action(state))).collect()"""))
case("dec_hoist", (LA, """                pos.look
                    .iter()
                    .map(|l| {
                        (
                            l.clone(),
                            if &pos.rule == start {
                                Action::Acc
                            } else {
                                Action::Reduce(pos.rule.clone(), pos.seq.clone())
                            },
                        )
                    })
                    .collect()""", """                let act = if pos.rule == *start {
                    Action::Acc
                } else {
                    Action::Reduce(pos.rule.clone(), pos.seq.clone())
                };
                let mut out = Map::new();
                for l in &pos.look {
                    out.insert(l.clone(), act.clone());
                }
                out"""))
case("follow_windows", (T, """                for term_idx in 0..prod.len() - 1 {
                    // A = . . . A a -> {A: FIRST(A)} -> {A: A} -> {}
                    if !self.grammar.is_terminal(&prod[term_idx]) {
                        let entry = table.entry(prod[term_idx].clone()).or_default();
                        if self.grammar.is_terminal(&prod[term_idx + 1]) {
                            // A = . . . T a -> {T: a}
                            entry.insert(prod[term_idx + 1].clone());
                        } else {
                            // A = . . . T B -> {T: FIRST(B)}
                            entry.extend(self.first[&prod[term_idx + 1]].clone());
                        }
                    }
                }""", """                for pair in prod.windows(2) {
                    let (term, next) = (&pair[0], &pair[1]);
                    if self.grammar.is_terminal(term) {
                        continue;
                    }
                    let entry = table.entry(term.clone()).or_default();
                    if self.grammar.is_terminal(next) {
                        entry.insert(next.clone());
                    } else {
                        entry.extend(self.first[next].iter().cloned());
                    }
                }"""))
case("follow_first_of", (T, """                        if self.grammar.is_terminal(&prod[term_idx + 1]) {
                            // A = . . . T a -> {T: a}
                            entry.insert(prod[term_idx + 1].clone());
                        } else {
                            // A = . . . T B -> {T: FIRST(B)}
                            entry.extend(self.first[&prod[term_idx + 1]].clone());
                        }""", """                        let next = &prod[term_idx + 1];
                        let heads = if self.grammar.is_terminal(next) {
                            Set::from([next.clone()])
                        } else {
                            self.first[next].clone()
                        };
                        entry.extend(heads);"""))
case("first_of_flat", (T, """        let mut firsts = Set::new();
        for item in items {
            if let Some(first) = self.first.get(item) {
                firsts.extend(first.clone());
            } else {
                firsts.insert(item.clone());
            };
        }
        firsts""", """        items
            .iter()
            .flat_map(|item| match self.first.get(item) {
                Some(first) => first.clone(),
                None => Set::from([item.clone()]),
            })
            .collect()"""))
case("first_of_fold", (T, """        let mut firsts = Set::new();
        for item in items {
            if let Some(first) = self.first.get(item) {
                firsts.extend(first.clone());
            } else {
                firsts.insert(item.clone());
            };
        }
        firsts""", """        items.iter().fold(Set::new(), |mut firsts, item| {
            match self.first.get(item) {
                Some(first) => firsts.extend(first.iter().cloned()),
                None => {
                    firsts.insert(item.clone());
                }
            }
            firsts
        })"""))
case("filter_then", (T, """                if p.top().as_ref() == Some(sym) {
                    Position::clone_next(p)
                } else {
                    None
                }""", """                let top = p.top()?;
                if top != *sym {
                    return None;
                }
                p.clone_next()"""))
case("filter_sep", (T, """            .filter_map(|p| {
                if p.top().as_ref() == Some(sym) {
                    Position::clone_next(p)
                } else {
                    None
                }
            })""", """            .filter(|p| p.top().is_some_and(|t| &t == sym))
            .filter_map(Position::clone_next)"""))
case("reduce_vec", (T, """        for (i, old_action) in self.actions.iter().enumerate() {
            if !actions_map.contains_key(old_action) {
                actions_map.insert(old_action.clone(), actions.len());
                actions.push(old_action.clone());
            }
            travel_idx.insert(i, actions_map[old_action]);
        }""", """        for (i, old_action) in self.actions.iter().enumerate() {
            let new_idx = match actions_map.get(old_action) {
                Some(idx) => *idx,
                None => {
                    let idx = actions.len();
                    actions_map.insert(old_action.clone(), idx);
                    actions.push(old_action.clone());
                    idx
                }
            };
            travel_idx.insert(i, new_idx);
        }"""))
case("reduce_entry", (T, """            if !actions_map.contains_key(old_action) {
                actions_map.insert(old_action.clone(), actions.len());
                actions.push(old_action.clone());
            }
            travel_idx.insert(i, actions_map[old_action]);""", """            let next = actions.len();
            let idx = *actions_map.entry(old_action.clone()).or_insert(next);
            if idx == next {
                actions.push(old_action.clone());
            }
            travel_idx.insert(i, idx);"""))
case("reduce_for", (T, """        self.actions
            .iter_mut()
            .flat_map(Map::iter_mut)
            .for_each(|(_, e)| Self::update_entry(e, &travel));""", """        for row in &mut self.actions {
            for entry in row.values_mut() {
                Self::update_entry(entry, &travel);
            }
        }"""))
case("conflict_loop", (T, """        self.actions
            .iter()
            .flat_map(Map::values)
            .filter(|a| matches!(a, Action::Conflict(..)))""", """        self.actions.iter().flat_map(|row| {
            row.values().filter_map(|a| match a {
                Action::Conflict(_, _) => Some(a),
                _ => None,
            })
        })"""))
case("dfa_drain", (D, """        self.items.truncate(len - prod.0.len());
        self.items.push(new_item);
""", """        self.items.drain(len - prod.0.len()..);
        self.items.push(new_item);
"""))
case("dfa_split_off", (D, """        let new_item = Token::new(self.reductors[name][prod.1](items), name.clone());
        self.items.truncate(len - prod.0.len());
""", """        let reductor = self.reductors[name][prod.1];
        let item = reductor(items);
        let new_item = Token::new(item, name.clone());
        let _ = self.items.split_off(len - prod.0.len());
"""))
case("dfa_states_last", (D, """        let len = self.states.len();
        self.top = self.states[len - prod.0.len() - 1];

        self.states.truncate(len - prod.0.len());
""", """        let keep = self.states.len() - prod.0.len();
        self.states.truncate(keep);
        self.top = self.states[keep - 1];
"""))
case("dfa_travel_two", (D, """        let action = state.get(symbol).filter(|a| !matches!(a, Action::Goto(_)));
        let action = action.ok_or_else(|| {
            let expecteds = state
                .iter()
                .filter(|(_, a)| !matches!(a, Action::Goto(_)))
                .map(|(s, _)| s.clone())
                .collect();
            Error::UnexpectedToken(symbol.clone(), expecteds)
        })?;
""", """        let action = match state.get(symbol) {
            Some(action) if !matches!(action, Action::Goto(_)) => action,
            _ => {
                let mut expecteds = Vec::new();
                for (s, a) in state {
                    if let Action::Goto(_) = a {
                        continue;
                    }
                    expecteds.push(s.clone());
                }
                return Err(Error::UnexpectedToken(symbol.clone(), expecteds));
            }
        };
"""))
case("dfa_travel_expected_fn", (D, """            let expecteds = state
                .iter()
                .filter(|(_, a)| !matches!(a, Action::Goto(_)))
                .map(|(s, _)| s.clone())
                .collect();
            Error::UnexpectedToken(symbol.clone(), expecteds)""", """            Error::UnexpectedToken(symbol.clone(), Self::expected_in(state))"""),
     (D, """    pub fn reset(&mut self) {""", """    fn expected_in(row: &Map<M, Action<M>>) -> Vec<M> {
        row.iter()
            .filter_map(|(s, a)| match a {
                Action::Goto(_) => None,
                _ => Some(s.clone()),
            })
            .collect()
    }

    pub fn reset(&mut self) {"""))
case("dfa_trace_match", (D, """            let symbol = self
                .buffer
                .peek()
                .map_or_else(|| &self.eof, |t| &t.ty)
                .clone();
            self.travel(&symbol)?;""", """            let symbol = match self.buffer.peek() {
                Some(token) => token.ty.clone(),
                None => self.eof.clone(),
            };
            self.travel(&symbol)?;"""))
case("dfa_stack_helper", (D, """        let mut fmts = Vec::new();
        for i in 0.. {
            if i >= self.states.len() && i >= self.items.len() {
                break;
            }
            if let Some(s) = self.states.get(i) {
                fmts.push(format!("{s}"));
            }

            if let Some(it) = self.items.get(i) {
                fmts.push(format!("{:?}", it.ty));
            }
        }
        fmts.join(" ")""", """        let mut fmts = Vec::new();
        let rounds = self.states.len().max(self.items.len());
        for i in 0..rounds {
            if i < self.states.len() {
                fmts.push(self.states[i].to_string());
            }
            if i < self.items.len() {
                fmts.push(format!("{:?}", self.items[i].ty));
            }
        }
        fmts.join(" ")"""))
case("gram_flat", (G, """        let mut terminals = Set::new();
        for rule in rules.values() {
            for rc in rule.prods() {
                for term in &rc.0 {
                    if !rules.contains_key(term) {
                        terminals.insert(term.clone());
                    }
                }
            }
        }
        terminals.insert(eof.clone());""", """        let terminals: Set<T> = rules
            .values()
            .flat_map(|rule| rule.prods.iter())
            .flat_map(|rc| rc.0.iter())
            .filter(|term| !rules.contains_key(*term))
            .chain(std::iter::once(&eof))
            .cloned()
            .collect();"""))
case("gram_eof_first", (G, "        let mut terminals = Set::new();\n", "        let mut terminals = Set::from([eof.clone()]);\n"), (G, "        terminals.insert(eof.clone());\n", ""))
case("gram_symbols", (G, "        let symbols = rules.keys().chain(terminals.iter()).cloned().collect();", "        let mut symbols: Set<T> = terminals.clone();\n        symbols.extend(rules.keys().cloned());"))
case("pos_next_map", (P, """        if self.finished() {
            None
        } else {
            let mut next = self.clone();
            next.adv();
            Some(next)
        }""", """        (!self.finished()).then(|| Self {
            point: self.point + 1,
            ..self.clone()
        })"""))
case("pos_finished_top", (P, "        self.point >= self.seq.0.len()", "        self.top().is_none()"))
case("merged_find", (PA, """            let keys: Vec<_> = new.iter().cloned().collect();
            for key in keys {
                if new.get(&key).unwrap().body_eq(&state) {
                    let mut state = state;
                    state.look.extend(new.get(&key).unwrap().look.clone());
                    new.remove(&key);
                    new.insert(state);
                    continue 'outter;
                }
            }
            new.insert(state);""", """            let Some(key) = new.iter().find(|p: &&crate::Position<T>| p.body_eq(&state)).cloned() else {
                new.insert(state);
                continue 'outter;
            };
            let mut state = state;
            new.remove(&key);
            state.look.extend(key.look);
            new.insert(state);"""))
case("merged_look", (PA, """            let keys: Vec<_> = new.iter().cloned().collect();
            for key in keys {
                if new.get(&key).unwrap().body_eq(&state) {
                    let mut state = state;
                    state.look.extend(new.get(&key).unwrap().look.clone());
                    new.remove(&key);
                    new.insert(state);
                    continue 'outter;
                }
            }
            new.insert(state);""", """            let same: Vec<crate::Position<T>> = new.iter().filter(|p: &&crate::Position<T>| p.body_eq(&state)).take(1).cloned().collect();
            let mut state = state;
            for p in same {
                new.remove(&p);
                state.look.extend(p.look);
            }
            new.insert(state);
            continue 'outter;"""))
case("parse_match", (PA, """        dfa.start()?;
        let item = dfa
            .items
            .pop()
            .ok_or(crate::dfa::Error::MissingPreviousState)?;
        Ok(item.item)""", """        match dfa.start() {
            Err(e) => Err(e),
            Ok(()) => match dfa.items.pop() {
                Some(token) => Ok(token.item),
                None => Err(crate::dfa::Error::MissingPreviousState),
            },
        }"""))
case("dfa_eof_first", (PA, """                .iter()
                .take(1)
                .collect::<Vec<_>>()[0]
                .clone(),""", """                .into_iter()
                .next()
                .unwrap(),"""))
case("final_kernel_map", (PA, """        let final_kernel = self.final_kernel(kernel)?;
        self.tables().kernels.get(final_kernel).copied()""", """        self.final_kernel(kernel)
            .and_then(|k| self.tables().kernels.get(k))
            .copied()"""))
