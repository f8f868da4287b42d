"""Planted bugs, fourth lot: written from the statements of the properties."""
import re
C = {}
CASES = C
P = "src/pos.rs"
D = "src/dfa.rs"
L = "src/lib.rs"
T = "src/tabler.rs"
G = "src/grammar.rs"
PA = "src/parser.rs"
LA = "src/lalr.rs"
CL = "src/clr.rs"
SL = "src/slr.rs"
B = "wop/src/builder.rs"
M = "wop/src/main.rs"


def FN(f, head):
    """The text of the function whose signature starts with `head`."""
    s = open("/repo/" + f).read()
    i = s.index(head)
    j = s.index("{\n", i)
    ind = s[s.rfind("\n", 0, i) + 1:i]
    ind = re.match(r"\s*", ind).group()
    k = s.index("\n" + ind + "}\n", j) + len(ind) + 3
    return s[i:k]


def R(f, head, new):
    return (f, FN(f, head), new.strip("\n").lstrip() + "\n")

WL = "wop/src/lib.rs"
WM = "wop/src/main.rs"
O = "wop/src/out.rs"
CONF = """                    if map.contains_key(&term) && map[&term] != act {
                        *map.get_mut(&term).unwrap() =
                            Action::Conflict(Box::new(map.get(&term).unwrap().clone()), act.into());
                    } else {
                        map.insert(term, act);
                    }
"""
# C01
C["c01_assoc"] = [(CL, CONF, """                    let old = map.get(&term).cloned();
                    match old {
                        // a tie between two uses of one production is no tie
                        Some(Action::Reduce(_, p)) if matches!(&act, Action::Reduce(_, q) if p.1 == q.1) => {}
                        Some(old) if old != act => {
                            map.insert(term, Action::Conflict(Box::new(old), act.into()));
                        }
                        _ => {
                            map.insert(term, act);
                        }
                    }
""")]
C["c01_acc_wins"] = [(SL, CONF, """                    if act == Action::Acc {
                        map.insert(term, act);
                    } else if map.contains_key(&term) && map[&term] != act {
                        *map.get_mut(&term).unwrap() =
                            Action::Conflict(Box::new(map.get(&term).unwrap().clone()), act.into());
                    } else {
                        map.insert(term, act);
                    }
""")]
C["c01_entry_insert"] = [(LA, CONF, """                    map.entry(term)
                        .and_modify(|old| {
                            if matches!(old, Action::Conflict(..)) {
                                return;
                            }
                            if *old != act {
                                *old = Action::Conflict(Box::new(old.clone()), act.clone().into());
                            }
                        })
                        .or_insert(act);
""")]
C["c01_conflict_order"] = [(CL, CONF, """                    if map.contains_key(&term) && map[&term] != act {
                        let old = map.remove(&term).unwrap();
                        let (a, b) = if old < act { (old, act) } else { (act, old) };
                        map.insert(term, Action::Conflict(Box::new(a), Box::new(b)));
                    } else {
                        map.insert(term, act);
                    }
""")]
C["c01_conflicts_rows"] = [(T, "            .flat_map(Map::values)\n            .filter(|a| matches!(a, Action::Conflict(..)))", "            .filter_map(|row| row.values().find(|a| matches!(a, Action::Conflict(..))))")]
# C02
C["c02_same_kind"] = [(D, "            Action::Conflict(a, b) => Err(Error::Conflict(*a.clone(), *b.clone())),", """            Action::Conflict(a, b) => match (a.as_ref(), b.as_ref()) {
                (Action::Conflict(x, y), _) => Err(Error::Conflict(*x.clone(), *y.clone())),
                (a, b) => Err(Error::Conflict(a.clone(), b.clone())),
            },""")]
C["c02_finish"] = [(D, "            Action::Conflict(a, b) => Err(Error::Conflict(*a.clone(), *b.clone())),", """            Action::Conflict(a, b) => {
                let err = Error::Conflict(*a.clone(), *b.clone());
                self.finished = true;
                Err(err)
            }""")]
# C03
C["c03_accept_skip"] = [(D, "        if self.buffer.peek().is_none() {", "        if self.buffer.next_if(|t| t.ty == self.eof).is_some() || self.buffer.peek().is_none() {")]
C["c03_trace_eof_stop"] = [(D, "            self.travel(&symbol)?;\n        }\n        Ok(())", """            if let Err(e) = self.travel(&symbol) {
                if self.finished {
                    break;
                }
                return Err(e);
            }
        }
        Ok(())""")]
C["c03_validate"] = [(PA, "self.parse(buffer, self.empty::<I::IntoIter>()).is_ok()", "!matches!(self.parse(buffer, self.empty::<I::IntoIter>()), Err(Error::UnexpectedToken(..)))")]
# C04
C["c04_top_stale"] = [(D, """        let item = self.buffer.next().ok_or(Error::UnexpectedEof)?;
        self.items.push(item);
        self.top = to;
        self.states.push(self.top);
""", """        let item = self.buffer.next().ok_or(Error::UnexpectedEof)?;
        self.items.push(item);
        self.states.push(to);
        self.top = self.states.len().min(to);
""")]
C["c04_next_if"] = [(D, "        let item = self.buffer.next().ok_or(Error::UnexpectedEof)?;\n", "        let item = self.buffer.next().or_else(|| self.items.last().cloned()).ok_or(Error::UnexpectedEof)?;\n")]
# C05
C["c05_reduct_name"] = [(D, "        let new_item = Token::new(self.reductors[name][prod.1](items), name.clone());", "        let reduct = self.reductors[name].get(prod.1).or_else(|| self.reductors[name].last()).unwrap();\n        let new_item = Token::new(reduct(items), name.clone());")]
C["c05_goto_stale"] = [(D, "        match state.get(name) {\n            Some(Action::Goto(to)) => self.goto(*to),", "        match state.get(name) {\n            Some(Action::Goto(to) | Action::Shift(to)) => self.goto(*to),")]
C["c05_conflict_goto"] = [(D, "        match state.get(name) {\n            Some(Action::Goto(to)) => self.goto(*to),\n", "        match state.get(name) {\n            Some(Action::Goto(to)) => self.goto(*to),\n            None if self.states.len() == 1 => self.accept(),\n")]
# C06
C["c06_expected_dedup"] = [(D, "                .map(|(s, _)| s.clone())\n                .collect();", "                .map(|(s, _)| s.clone())\n                .filter(|s| s != &self.eof)\n                .collect();")]
C["c06_default_reduce"] = [(D, "        let action = state.get(symbol).filter(|a| !matches!(a, Action::Goto(_)));\n", """        let action = state.get(symbol).filter(|a| !matches!(a, Action::Goto(_)));
        // a state that only reduces one way needs no lookahead
        let action = action.or_else(|| {
            let mut acts = state.values();
            let first = acts.next()?;
            (matches!(first, Action::Reduce(..)) && acts.all(|a| a == first)).then_some(first)
        });
""")]
C["c06_eof_symbol"] = [(D, "                .map_or_else(|| &self.eof, |t| &t.ty)\n", "                .filter(|t| !self.states.is_empty() && self.table[0].len() < 64 || t.ty != self.eof)\n                .map_or_else(|| &self.eof, |t| &t.ty)\n")]
# C07
C["c07_reset_states"] = [(D, "        self.states.clear();\n        self.states.push(0);\n", "        self.states.truncate(1);\n        if self.states.is_empty() {\n            self.states.push(self.top);\n        }\n")]
C["c07_reset_skip"] = [(D, "        self.finished = false;\n        self.states.clear();", "        if !self.finished && self.items.is_empty() {\n            return;\n        }\n        self.finished = false;\n        self.states.clear();")]
C["c07_items_keep"] = [(D, "        let res = self.items.pop().ok_or(Error::MissingPreviousState)?;\n", "        let res = self.items.swap_remove(0);\n")]
# C08
C["c08_first_step_get"] = [(T, """            if table[name].contains(name) {
                table.get_mut(name).unwrap().remove(name);
            }
        }
        table
    }

    /// # Panics
    /// Never.
    #[must_use]
    pub fn follow_step""", """            if table[name].contains(name) && table[name].len() > 2 {
                table.get_mut(name).unwrap().retain(|t| t != name && self.grammar.symbols.contains(t) && t != &self.grammar.basis.rule);
            }
        }
        table
    }

    /// # Panics
    /// Never.
    #[must_use]
    pub fn follow_step""")]
C["c08_gen_first_two"] = [(T, "                    if rc.0[0] == rule.name {\n                        None", "                    if rc.0[0] == rule.name {\n                        // left recursion: the next symbol may start what is left\n                        rc.0.get(1).filter(|t| self.grammar.is_terminal(t) && rule.prods.len() == 1).cloned()")]
C["c08_retain_start"] = [(T, "        for firsts in first.values_mut() {\n            firsts.retain(|t| self.grammar.is_terminal(t));", "        for (name, firsts) in &mut first {\n            firsts.retain(|t| self.grammar.is_terminal(t) && (t != &self.grammar.basis.rule || t == name));")]
# C09
C["c09_last_two"] = [(T, "                if !self.grammar.is_terminal(last) && last != &rule.name {", "                if !self.grammar.is_terminal(last) && !prod[..prod.len() - 1].contains(last) && last != &rule.name {")]
C["c09_follow_step_one"] = [(T, "                } else if let Some(set) = input.get(term) {\n                    entry.extend(set.clone());", "                } else if let Some(set) = input.get(term).filter(|s| !s.contains(noterm)) {\n                    entry.extend(set.clone());")]
C["c09_basis"] = [(T, "        let mut table = Table::from([(basis.rule, basis.look)]);", "        let mut table = Table::new();\n        if !self.grammar.rules().any(|r| r.prods.iter().any(|p| p.0.contains(&basis.rule))) {\n            table.insert(basis.rule, basis.look);\n        }")]
# C10
C["c10_seen"] = [(L, "        if new == val {\n            return val;\n        }\n        val = new;", "        if new == val || map(new.clone()) == val {\n            return val;\n        }\n        val = new;")]
C["c10_new"] = [(L, "        if new == val {\n            return val;", "        if new == seed2 {\n            return new;"), (L, "    let mut val = seed;\n", "    let seed2 = seed.clone();\n    let mut val = seed;\n    if map(val.clone()) == val {\n        return val;\n    }\n")]
# C11
C["c11_look_eof"] = [(CL, "                    || pos.look.clone(),\n", "                    || if pos.look.is_empty() { self.table.grammar.basis.look.clone() } else { pos.look.clone() },\n")]
C["c11_skip_same"] = [(CL, "                for prod in self.table.grammar.rules[&top].prods() {", "                for prod in self.table.grammar.rules[&top].prods().filter(|p| p != &pos.seq || pos.point > 0) {")]
# C12
C["c12_follow_entry"] = [(SL, "                self.table.follow[&pos.rule]\n                    .iter()", "                self.table.follow[if self.table.grammar.rules[&pos.rule].prods.len() == 1 { start } else { &pos.rule }]\n                    .iter()")]
# C13
C["c13_chain"] = [(LA, "        let both_closures = self.table.states[state_id]\n            .clone()\n            .into_iter()\n            .chain(closures)\n            .collect();", "        let both_closures = closures\n            .into_iter()\n            .filter(|p| p.point > 0 || !p.look.is_empty() && p.seq.0.len() > 1)\n            .chain(self.table.states[state_id].clone())\n            .collect();")]
C["c13_merged_swap"] = [(PA, "                    state.look.extend(new.get(&key).unwrap().look.clone());", "                    state.look.append(&mut new.get(&key).unwrap().look.iter().skip(usize::from(state.look.len() > 4)).cloned().collect());")]
# C14
C["c14_pending_new"] = [(LA, "                    pending.insert(self.table.kernels[&nk]);", "                    let id = self.table.kernels[&nk];\n                    if id != idx {\n                        pending.insert(id);\n                    }")]
C["c14_row_stale"] = [(LA, "            for s in &syms {\n", "            for s in syms.iter().filter(|s| row.iter().any(|p| p.top().as_ref() == Some(s) && (p.point > 0 || !p.look.is_empty()))) {\n")]
C["c14_pop_last_guard"] = [(LA, "        while let Some(idx) = pending.pop_first() {", "        let mut visits = 0;\n        while let Some(idx) = pending.pop_first() {\n            visits += 1;\n            if visits > 4 * self.table.states.len() + 64 {\n                break;\n            }")]
# C15
C["c15_goto_terminal"] = [(LA, "                if self.table.grammar.is_terminal(&locus) {", "                if self.table.grammar.terminals.contains(&locus) && !pos.finished() && pos.next() != Some(locus.clone()) {")]
C["c15_acc"] = [(CL, "                            if &pos.rule == entry_point {", "                            if &pos.rule == entry_point && pos.seq.1 == 0 && self.table.grammar.basis.look.contains(l) {")]
# C16
C["c16_goto_known"] = [(SL, "        if self.table.kernels.contains_key(&kernels) {\n", "        if self.table.kernels.keys().any(|k| k.len() == kernels.len() && kernels.iter().all(|p| k.iter().any(|q| q.seq == p.seq && q.point == p.point))) {\n")]
C["c16_num"] = [(CL, "                let old_val = self.table.kernels.insert(kernel, self.table.states.len());\n                debug_assert!(old_val.is_none());\n                self.table.states.push(closures);", "                if self.table.states.contains(&closures) {\n                    let at = self.table.states.iter().position(|s| s == &closures).unwrap();\n                    self.table.kernels.insert(kernel, at);\n                    continue;\n                }\n                let old_val = self.table.kernels.insert(kernel, self.table.states.len());\n                debug_assert!(old_val.is_none());\n                self.table.states.push(closures);")]
# C17
C["c17_hash_rows"] = [(T, "            travel_idx.insert(i, actions_map[old_action]);", "            travel_idx.insert(i, actions_map[old_action].min(self.states.len() - 1).min(255));")]
C["c17_deep"] = [(T, "                Self::update_entry(b, travel);\n                return;", "                if !matches!(**a, Action::Conflict(..)) {\n                    Self::update_entry(b, travel);\n                }\n                return;")]
# C18
C["c18_terms_eof"] = [(G, "        terminals.insert(eof.clone());\n", "        if !terminals.is_empty() {\n            terminals.insert(eof.clone());\n        }\n")]
C["c18_entry_last"] = [(G, "        let basis = Position::new(start, prods[0].clone(), 0, Set::from([eof]));", "        let basis = Position::new(start, prods[prods.len() - 1].clone(), 0, Set::from([eof]));")]
C["c18_is_terminal"] = [(G, "        !self.rules.contains_key(term)\n", "        self.rules.get(term).map_or(true, |r| r.prods.is_empty())\n")]
# C19
C["c19_transparent"] = [(D, "                (r.name.clone(), prods.collect::<Vec<_>>())", "                (r.name.clone(), prods.take(32).collect::<Vec<_>>())")]
C["c19_rule_sorted"] = [(G, "            prods: prods\n                .into_iter()\n                .enumerate()", "            prods: prods\n                .into_iter()\n                .filter(|p| !p.is_empty())\n                .enumerate()")]
# C21
C["c21_from_range"] = [(L, "        slice.index(self.start..self.end)", "        slice.index(self.start.min(self.end)..self.end)")]
C["c21_lexer_bytes"] = [(WL, "Span::new(s.start, s.end)", "Span::new(s.start, s.start + s.len().max(1))")]
# C24
C["c24_reduct_skip"] = [(B, "            write!(out, \"lrp_wop_{name}_{i}, \").unwrap();", "            write!(out, \"lrp_wop_{name}_{}, \", prods.iter().position(|p| p.codeblock == prods[i].codeblock && p.production == prods[i].production).unwrap()).unwrap();")]
C["c24_end_span"] = [(B, "toks.last().unwrap().item.span.end", "toks[toks.len().min(64) - 1].item.span.end")]
C["c24_ty"] = [(B, "        let ty = prods[0].ty.from_source(src);\n", "        let ty = prods.last().unwrap().ty.from_source(src);\n")]
# C25
C["c25_final"] = [(B, "            *final_index += self.production.len();", "            *final_index = (*final_index).max(self.production.len());")]
C["c25_sub_find"] = [(B, "                    .find(|a| a.alias.from_source(src) == alias_name.from_source(src))", "                    .rfind(|a| a.alias.from_source(src) == alias_name.from_source(src))")]
C["c25_optional_last"] = [(B, "                if alias.is_some() {\n                    ignored_prod.aliases.last_mut().unwrap().optional = Some(false);\n                }\n                if i < pipe.len() {", "                if let Some(a) = alias {\n                    ignored_prod.aliases.iter_mut().find(|x| x.alias.from_source(src) == a.from_source(src)).unwrap().optional = Some(false);\n                }\n                if i < pipe.len() {")]
C["c25_clone_group"] = [(B, "                                        final_index: None,\n                                        clone,\n", "                                        final_index: alias.final_index,\n                                        clone: alias.clone,\n")]
# C26
C["c26_codeblock_trim"] = [(B, "                prod.1.from_source(src),\n                \"\",\n", "                prod.1.from_source(src).trim_end_matches('%'),\n                \"\",\n")]
C["c26_group_block"] = [(B, "                            assert_eq!(\n                                a,\n                                &SrcRef::new(0, 0),", "                            assert_eq!(\n                                a.start,\n                                0,")]
C["c26_alias_same"] = [(B, """        assert!(
            self.aliases
                .insert(tk.from_source(src).to_string(), alias)
                .is_none(),""", """        assert!(
            self.aliases
                .insert(tk.from_source(src).to_string(), alias)
                .map_or(true, |old| old.from_source(src) == alias.from_source(src)),""")]
# C28
C["c28_reuse"] = [(B, "        builder.process(&dfa.items[0], s);", "        for ast in &dfa.items {\n            builder.process(ast, s);\n        }")]
# C29
C["c29_peek_wrap"] = [(P, "        self.seq.0.get(self.point + qty).cloned()", "        self.seq.0.get(self.point.saturating_add(qty).min(self.seq.0.len())).or_else(|| self.seq.0.get(usize::MAX - self.point)).cloned()")]
C["c29_finished"] = [(P, "        self.point >= self.seq.0.len()", "        self.point == self.seq.0.len()")]
C["c29_clone_next"] = [(P, "        if self.finished() {\n            None", "        if self.top().is_none() || self.look.len() > 128 {\n            None")]
