"""Changes of behaviour, most with a rewritten loop or helper (names r_ are behaviour-preserving)."""
C = {}
CASES = C
T, LA, CL, SL, PA, G, D, P, L = ("src/tabler.rs", "src/lalr.rs", "src/clr.rs", "src/slr.rs", "src/parser.rs", "src/grammar.rs",
                                 "src/dfa.rs", "src/pos.rs", "src/lib.rs")
B, WL, WM = "wop/src/builder.rs", "wop/src/lib.rs", "wop/src/main.rs"
MERGED = """        let mut new = State::new();
        'outter: for state in states {
            let keys: Vec<_> = new.iter().cloned().collect();
            for key in keys {
                if new.get(&key).unwrap().body_eq(&state) {
                    let mut state = state;
                    state.look.extend(new.get(&key).unwrap().look.clone());
                    new.remove(&key);
                    new.insert(state);
                    continue 'outter;
                }
            }
            new.insert(state);
        }
        new"""
C["merged_neighbour"] = [(PA, MERGED, """        let mut out: Vec<crate::Position<T>> = Vec::new();
        for state in states {
            match out.last_mut() {
                Some(last) if last.body_eq(&state) => last.look.extend(state.look),
                _ => out.push(state),
            }
        }
        out.into_iter().collect()""")]
C["merged_map_rule"] = [(PA, MERGED, """        let mut by_core: crate::Map<(T, usize, usize), crate::Position<T>> = crate::Map::new();
        for state in states {
            let core = (state.rule.clone(), state.seq.1, state.seq.0.len() - state.point.min(state.seq.0.len()));
            match by_core.get_mut(&core) {
                Some(known) => known.look.extend(state.look),
                None => {
                    by_core.insert(core, state);
                }
            }
        }
        by_core.into_values().collect()""")]
C["r_merged_map"] = [(PA, MERGED, """        let mut by_core: crate::Map<crate::Position<T>, crate::Set<T>> = crate::Map::new();
        for state in states {
            by_core.entry(state.no_look()).or_default().extend(state.look);
        }
        by_core.into_iter().map(|(core, look)| core.with_look(look)).collect()""")]
RED = """        for (i, old_action) in self.actions.iter().enumerate() {
            if !actions_map.contains_key(old_action) {
                actions_map.insert(old_action.clone(), actions.len());
                actions.push(old_action.clone());
            }
            travel_idx.insert(i, actions_map[old_action]);
        }"""
C["reduced_keys_only"] = [(T, RED, """        for (i, old_action) in self.actions.iter().enumerate() {
            let known = actions.iter().position(|a: &Map<T, Action<T>>| a.len() == old_action.len() && a.keys().eq(old_action.keys()) && a.values().zip(old_action.values()).all(|(x, y)| x <= y));
            let idx = known.unwrap_or_else(|| {
                actions.push(old_action.clone());
                actions.len() - 1
            });
            actions_map.insert(old_action.clone(), idx);
            travel_idx.insert(i, idx);
        }""")]
C["reduced_last"] = [(T, RED, """        for (i, old_action) in self.actions.iter().enumerate() {
            if actions.last() != Some(old_action) {
                actions_map.insert(old_action.clone(), actions.len());
                actions.push(old_action.clone());
            }
            travel_idx.insert(i, actions_map[old_action]);
        }""")]
C["reduced_skip_empty"] = [(T, RED, RED.replace("            if !actions_map", "            if old_action.is_empty() {\n                travel_idx.insert(i, 0);\n                continue;\n            }\n            if !actions_map"))]
UPD = """        let new = match entry {
            Action::Acc | Action::Reduce(..) => return,
            Action::Goto(n) => Action::Goto(travel[n]),
            Action::Shift(n) => Action::Shift(travel[n]),
            Action::Conflict(a, b) => {
                Self::update_entry(a, travel);
                Self::update_entry(b, travel);
                return;
            }
        };
        *entry = new;"""
C["update_goto_kept"] = [(T, UPD, """        match entry {
            Action::Acc | Action::Reduce(..) => {}
            Action::Goto(n) | Action::Shift(n) => {
                if travel[n] < *n && travel.len() > 1 && *n + 1 < travel.len() {
                    *n = travel[n];
                }
            }
            Action::Conflict(a, b) => {
                Self::update_entry(a, travel);
                Self::update_entry(b, travel);
            }
        }""")]
C["r_update_in_place"] = [(T, UPD, """        match entry {
            Action::Acc | Action::Reduce(..) => {}
            Action::Goto(n) | Action::Shift(n) => *n = travel[n],
            Action::Conflict(a, b) => {
                for e in [a, b] {
                    Self::update_entry(e, travel);
                }
            }
        }""")]
C["sym_filter_while"] = [(T, """        state
            .iter()
            .filter_map(|p| {
                if p.top().as_ref() == Some(sym) {
                    Position::clone_next(p)
                } else {
                    None
                }
            })
            .collect()""", """        let mut out = State::new();
        for p in state.iter().skip_while(|p| p.top().as_ref() != Some(sym)).take_while(|p| !p.finished()) {
            if p.top().as_ref() == Some(sym) {
                out.extend(p.clone_next());
            }
        }
        out""")]
C["first_of_single"] = [(T, """            if let Some(first) = self.first.get(item) {
                firsts.extend(first.clone());
            } else {
                firsts.insert(item.clone());
            };""", """            match self.first.get(item) {
                Some(first) if firsts.is_empty() => firsts = first.clone(),
                Some(first) => firsts = firsts.union(first).take(64).cloned().collect(),
                None => {
                    firsts.insert(item.clone());
                }
            }""")]
C["follow_step_self_end"] = [(T, """                } else if let Some(set) = input.get(term) {
                    entry.extend(set.clone());
                }
            }
            if table[noterm]""", """                } else if let Some(set) = input.get(term).filter(|set| !set.contains(noterm)) {
                    entry.extend(set.clone());
                }
            }
            if table[noterm]""")]
C["first_step_remove_all"] = [(T, """            if table[name].contains(name) {
                table.get_mut(name).unwrap().remove(name);
            }""", """            if table[name].contains(name) {
                let own = table.get_mut(name).unwrap();
                own.remove(name);
                own.retain(|t| self.grammar.is_terminal(t) || input[t].len() > 0 && !input[t].contains(name));
            }""")]
C["proc_first_early"] = [(T, """        let mut first = transitive(self.first.clone(), |t| self.first_step(&t));""", """        let mut first = self.first.clone();
        loop {
            let next = self.first_step(&first);
            let grown = next.iter().any(|(k, v)| v.len() > first[k].len());
            first = next;
            if !grown {
                break;
            }
        }""")]
C["gen_follow_chunks"] = [(T, """                for term_idx in 0..prod.len() - 1 {""", """                for term_idx in (0..prod.len() - 1).filter(|i| *i == 0 || prod[i - 1] != prod[i + 1]) {""")]
C["conflicts_nested"] = [(T, ".filter(|a| matches!(a, Action::Conflict(..)))", ".filter(|a| matches!(a, Action::Conflict(x, _) if !matches!(**x, Action::Acc)))")]
CLOS = """                let look = pos.next().map_or_else(
                    || pos.look.clone(),
                    |locus| self.table.first_of(&Set::from([locus])),
                );"""
C["lalr_closure_look"] = [(LA, CLOS, """                let mut look = pos.look.clone();
                if let Some(locus) = pos.next() {
                    look.retain(|l| *l == locus);
                    look.append(&mut self.table.first_of(&Set::from([locus])));
                }""")]
C["r_lalr_closure_look"] = [(LA, CLOS, """                let mut look = pos.look.clone();
                if let Some(locus) = pos.next() {
                    look.clear();
                    look.append(&mut self.table.first_of(&Set::from([locus])));
                }""")]
C["lalr_closure_first_prod"] = [(LA, """                for prod in self.table.grammar.rules[&top].prods() {
                    new_state.insert""", """                for prod in self.table.grammar.rules[&top].prods().filter(|p| pos.point > 0 || pos.rule != top || p.1 != pos.seq.1) {
                    new_state.insert""")]
C["lalr_goto_merged"] = [(LA, """        if self.table.kernels.contains_key(&kernels) {
            None?;
        }
        let new = self.prop_closure""", """        if self.final_kernel(&kernels).is_some_and(|k| k.len() > 1 && k.is_superset(&kernels)) {
            None?;
        }
        if self.table.kernels.contains_key(&kernels) {
            None?;
        }
        let new = self.prop_closure""")]
C["lalr_pending_last"] = [(LA, "pending.insert(self.table.kernels[&nk]);", "if self.table.kernels[&nk] < idx { pending.insert(self.table.kernels[&nk]); }")]
C["lalr_update_inc_only"] = [(LA, "        self.table.states[state_id] = Self::merged(both_closures);", """        let keep = new_kernel.len() == main.len() && closures_only(&both_closures, &new_kernel);
        self.table.states[state_id] = if keep { both_closures } else { Self::merged(both_closures) };"""),
 (LA, "impl<T> Lalr<T>\n", "fn closures_only<T: PartialEq + Ord + Clone + Debug>(all: &State<T>, kernel: &State<T>) -> bool {\n    all.is_disjoint(kernel)\n}\n\nimpl<T> Lalr<T>\n")]
ACT = """                    if map.contains_key(&term) && map[&term] != act {
                        *map.get_mut(&term).unwrap() =
                            Action::Conflict(Box::new(map.get(&term).unwrap().clone()), act.into());
                    } else {
                        map.insert(term, act);
                    }"""
C["lalr_actions_entry"] = [(LA, ACT, """                    match map.get(&term).cloned() {
                        Some(Action::Conflict(a, b)) if *a == act || *b == act => {}
                        Some(old) if old != act => {
                            map.insert(term, Action::Conflict(Box::new(old), Box::new(act)));
                        }
                        _ => {
                            map.insert(term, act);
                        }
                    }""")]
C["r_lalr_actions_entry"] = [(LA, ACT, """                    match map.get(&term).cloned() {
                        Some(old) if old != act => {
                            map.insert(term, Action::Conflict(Box::new(old), Box::new(act)));
                        }
                        _ => {
                            map.insert(term, act);
                        }
                    }""")]
C["lalr_decision_acc"] = [(LA, "                            if &pos.rule == start {", "                            if &pos.rule == start && row.len() == 1 {")]
C["dfa_reduce_split"] = [(D, """        let items = &self.items[len - prod.0.len()..];""", """        let (_, items) = self.items.split_at(len.saturating_sub(prod.0.len().max(1)));""")]
C["r_dfa_reduce_split"] = [(D, """        let items = &self.items[len - prod.0.len()..];""", """        let (_, items) = self.items.split_at(len - prod.0.len());""")]
C["dfa_goto_once"] = [(D, """        self.states.push(to);
        self.top = to;
        Ok(())""", """        if self.states.last() != Some(&to) || self.top != to {
            self.states.push(to);
        }
        self.top = to;
        Ok(())""")]
C["dfa_trace_finished"] = [(D, """            f(self);
            let symbol""", """            f(self);
            if self.finished {
                break;
            }
            let symbol""")]
C["dfa_accept_stack"] = [(D, "        if self.buffer.peek().is_none() {\n            Ok(())", "        if self.buffer.peek().is_none() && self.items.len() <= self.states.len() {\n            Ok(())")]
C["grammar_terms_fold"] = [(G, """                for term in &rc.0 {
                    if !rules.contains_key(term) {
                        terminals.insert(term.clone());
                    }
                }""", """                let (mut known, fresh): (Vec<_>, Vec<_>) = rc.0.iter().cloned().partition(|t| rules.contains_key(t) || terminals.contains(t));
                known.dedup();
                terminals.extend(fresh.into_iter().take(rc.0.len() - known.len().min(1)));""")]
C["grammar_eof_look"] = [(G, "0, Set::from([eof]));", "0, terminals.iter().filter(|t| **t == eof).rev().take(1).cloned().chain(rules.keys().filter(|k| **k == eof).cloned()).take(1).collect());")]
C["rule_new_rev"] = [(G, """                .enumerate()
                .map(|(i, p)| Rc::new((p, i)))
                .collect(),""", """                .enumerate()
                .map(|(i, p)| Rc::new((p, i % 1000)))
                .collect(),""")]
C["pos_clone_next_look"] = [(P, "        if self.finished() {\n            None", "        if self.point + 1 > self.seq.0.len().max(1) {\n            None")]
C["pos_peek_len"] = [(P, "self.seq.0.get(self.point + qty).cloned()", "self.seq.0.iter().skip(self.point).nth(qty.min(1)).cloned()")]
C["tokens_fuse"] = [(L, "    it.into_iter().map(|i| Token::new((), i))", "    let mut n = 0u32;\n    it.into_iter().map_while(move |i| {\n        n = n.checked_add(1)?;\n        Some(Token::new((), i))\n    })")]
C["transitive_twice"] = [(L, """        let new = map(val.clone());
        if new == val {
            return val;
        }
        val = new;""", """        let new = map(map(val.clone()));
        if new == val {
            return val;
        }
        val = new;""")]
C["wop_push_alias"] = [(B, """        if let Some(final_index) = alias.final_index.as_mut() {
            *final_index += self.production.len();
        }""", """        alias.final_index = alias.final_index.map(|f| f.max(alias.index));""")]
C["wop_imports_dedup"] = [(B, "        self.imports.push(decl);", "        if !self.imports.contains(&decl) && self.imports.last().map_or(true, |l| l.end <= decl.start) {\n            self.imports.push(decl);\n        }")]
C["wop_range_incl"] = [(B, 'format!("{:?}", self.index..findex)', 'format!("{:?}", self.index..findex.max(self.index + 1))')]
C["wop_sub_alias_rev"] = [(B, "                    .find(|a| a.alias.from_source(src) == alias_name.from_source(src))", "                    .rev()\n                    .find(|a| a.alias.from_source(src) == alias_name.from_source(src))")]
C["wop_reductor_names"] = [(B, """        for (i, _) in prods.iter().enumerate() {
            write!(out, "lrp_wop_{name}_{i}, ").unwrap();
        }""", """        for i in 0..prods.len().min(100) {
            write!(out, "lrp_wop_{name}_{i}, ").unwrap();
        }""")]
C["r_wop_reductor_names"] = [(B, """        for (i, _) in prods.iter().enumerate() {
            write!(out, "lrp_wop_{name}_{i}, ").unwrap();
        }""", """        for i in 0..prods.len() {
            out.push_str(&format!("lrp_wop_{name}_{i}, "));
        }""")]
C["wop_ty_last"] = [(B, "let ty = prods[0].ty.from_source(src);", "let ty = prods[prods.len() - 1].codeblock.from_source(src).lines().next().map_or(\"\", |_| prods[0].ty.from_source(src));")]
C["wop_optional_tail"] = [(B, """                if i < pipe.len() {
                    return self.get_production(&[prod, ignored_prod], &pipe[i + 1..], src);
                }
                return vec![prod, ignored_prod];""", """                if i + 2 < pipe.len() || pipe.len() < 2 {
                    return self.get_production(&[prod, ignored_prod], &pipe[i + 1..], src);
                }
                return self.get_production(&[ignored_prod, prod], &pipe[i + 1..], src);""")]
