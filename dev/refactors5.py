"""Behaviour-preserving edits of lrp, third lot: the shapes other people's refactorings take."""
C = {}
P = "src/pos.rs"
D = "src/dfa.rs"
L = "src/lib.rs"
T = "src/tabler.rs"
G = "src/grammar.rs"
PA = "src/parser.rs"
LA = "src/lalr.rs"
CL = "src/clr.rs"
SL = "src/slr.rs"
CASES = C

# --------------------------------------------------------------------------------------- tabler
GF = """        let mut table = Table::new();
        for rule in self.grammar.rules() {
            let firsts = rule
                .prods
                .iter()
                .filter_map(|rc| {
                    assert!(
                        !rc.0.is_empty(),
                        "productions should have at least one symbol"
                    );
                    if rc.0[0] == rule.name {
                        None
                    } else {
                        Some(rc.0[0].clone())
                    }
                })
                .collect();
            table.insert(rule.name.clone(), firsts);
        }
        table
"""
C["gen_first_map_collect"] = [(T, GF, """        self.grammar
            .rules()
            .map(|rule| (rule.name.clone(), Self::leading(rule)))
            .collect()
"""), (T, """    /// Generates the first FOLLOW""", """    fn leading(rule: &crate::grammar::Rule<T>) -> Set<T> {
        let mut out = Set::new();
        for prod in rule.prods() {
            let head = prod.0.first().expect("productions should have at least one symbol");
            if *head != rule.name {
                out.insert(head.clone());
            }
        }
        out
    }

    /// Generates the first FOLLOW""")]
C["gen_first_flat"] = [(T, GF, """        let mut table = Table::new();
        for rule in self.grammar.rules() {
            let firsts = table.entry(rule.name.clone()).or_insert_with(Set::new);
            for prod in &rule.prods {
                assert!(!prod.0.is_empty(), "productions should have at least one symbol");
                let first = &prod.0[0];
                if first == &rule.name {
                    continue;
                }
                firsts.insert(first.clone());
            }
        }
        table
""")]
C["gen_first_filter_map"] = [(T, GF, """        let mut table = Table::new();
        for rule in self.grammar.rules() {
            let firsts: Set<T> = rule
                .prods
                .iter()
                .map(|rc| {
                    assert!(
                        !rc.0.is_empty(),
                        "productions should have at least one symbol"
                    );
                    &rc.0[0]
                })
                .filter(|first| **first != rule.name)
                .cloned()
                .collect();
            table.insert(rule.name.clone(), firsts);
        }
        table
""")]
FB = """        let basis = self.basis_pos();
        let mut table = Table::from([(basis.rule, basis.look)]);
"""
C["gen_follow_basis"] = [(T, FB, """        let mut table = Table::new();
        let Position { rule, look, .. } = self.basis_pos();
        table.insert(rule, look);
""")]
FL = """                for term_idx in 0..prod.len() - 1 {
                    // A = . . . A a -> {A: FIRST(A)} -> {A: A} -> {}
                    if !self.grammar.is_terminal(&prod[term_idx]) {
                        let entry = table.entry(prod[term_idx].clone()).or_default();
                        if self.grammar.is_terminal(&prod[term_idx + 1]) {
                            // A = . . . T a -> {T: a}
                            entry.insert(prod[term_idx + 1].clone());
                        } else {
                            // A = . . . T B -> {T: FIRST(B)}
                            entry.extend(self.first[&prod[term_idx + 1]].clone());
                        }
                    }
                }
"""
C["gen_follow_one_based"] = [(T, FL, """                for next_idx in 1..prod.len() {
                    let (sym, next) = (&prod[next_idx - 1], &prod[next_idx]);
                    if self.grammar.is_terminal(sym) {
                        continue;
                    }
                    let entry = table.entry(sym.clone()).or_default();
                    if self.grammar.is_terminal(next) {
                        entry.insert(next.clone());
                    } else {
                        entry.extend(self.first[next].clone());
                    }
                }
""")]
C["gen_follow_zip"] = [(T, FL, """                for (sym, next) in prod.iter().zip(prod.iter().skip(1)) {
                    if self.grammar.is_terminal(sym) {
                        continue;
                    }
                    let entry = table.entry(sym.clone()).or_default();
                    if self.grammar.is_terminal(next) {
                        entry.insert(next.clone());
                    } else {
                        entry.extend(self.first[next].iter().cloned());
                    }
                }
""")]
C["gen_follow_helper"] = [(T, FL, """                for term_idx in 0..prod.len() - 1 {
                    let sym = &prod[term_idx];
                    if !self.grammar.is_terminal(sym) {
                        let starts = self.starts_with(&prod[term_idx + 1]);
                        table.entry(sym.clone()).or_default().extend(starts);
                    }
                }
"""), (T, """    pub fn proc_first(&mut self)""", """    fn starts_with(&self, sym: &T) -> Set<T> {
        if self.grammar.is_terminal(sym) {
            Set::from([sym.clone()])
        } else {
            self.first[sym].clone()
        }
    }

    pub fn proc_first(&mut self)""")]
LT = """                if !self.grammar.is_terminal(last) && last != &rule.name {
                    table
                        .entry(last.clone())
                        .or_default()
                        .insert(rule.name.clone());
                }
"""
C["gen_follow_last_continue"] = [(T, LT, """                if self.grammar.is_terminal(last) || last == &rule.name {
                    continue;
                }
                let follow = table.entry(last.clone()).or_insert_with(Set::new);
                follow.insert(rule.name.clone());
""")]
C["gen_follow_last_first"] = [(T, FL + """                let last = prod.last().unwrap();
                // A = . . . . T -> {T: FOLLOW(A)}
                // But if A = . . . . A -> {A: FOLLOW(A)} -> {A: A} -> {}
""" + LT, """                let last = prod.last().unwrap();
                if !self.grammar.is_terminal(last) && last != &rule.name {
                    table
                        .entry(last.clone())
                        .or_default()
                        .insert(rule.name.clone());
                }
""" + FL)]
C["gen_follow_peek"] = [(T, FL, """                let mut syms = prod.iter().peekable();
                while let Some(sym) = syms.next() {
                    let Some(next) = syms.peek() else { break };
                    if self.grammar.is_terminal(sym) {
                        continue;
                    }
                    let entry = table.entry(sym.clone()).or_default();
                    if self.grammar.is_terminal(next) {
                        entry.insert((*next).clone());
                    } else {
                        entry.extend(self.first[*next].clone());
                    }
                }
""")]
PF = """        let mut first = transitive(self.first.clone(), |t| self.first_step(&t));
        // rules are kept while iterating: dropping them makes recursive rules swap forever
        for firsts in first.values_mut() {
            firsts.retain(|t| self.grammar.is_terminal(t));
        }
        self.first = first;
"""
C["proc_first_helper"] = [(T, PF, """        let first = transitive(self.first.clone(), |t| self.first_step(&t));
        self.first = self.only_terminals(first);
"""), (T, "    pub fn proc_follow(&mut self)", """    fn only_terminals(&self, mut table: Table<T>) -> Table<T> {
        for set in table.values_mut() {
            set.retain(|t| self.grammar.is_terminal(t));
        }
        table
    }

    pub fn proc_follow(&mut self)""")]
C["proc_first_take"] = [(T, PF, """        let seed = std::mem::take(&mut self.first);
        let closed = transitive(seed, |t| self.first_step(&t));
        self.first = closed
            .into_iter()
            .map(|(rule, firsts)| {
                let terms = firsts.into_iter().filter(|t| self.grammar.is_terminal(t)).collect();
                (rule, terms)
            })
            .collect();
""")]
C["proc_first_loop2"] = [(T, PF, """        let mut first = self.first.clone();
        loop {
            let next = self.first_step(&first);
            if next == first {
                break;
            }
            first = next;
        }
        first.values_mut().for_each(|set| set.retain(|t| self.grammar.is_terminal(t)));
        self.first = first;
""")]
C["proc_first_while"] = [(T, PF, """        let mut first = self.first.clone();
        let mut next = self.first_step(&first);
        while next != first {
            first = next;
            next = self.first_step(&first);
        }
        for firsts in first.values_mut() {
            firsts.retain(|t| self.grammar.is_terminal(t));
        }
        self.first = first;
""")]
FS = """        let mut table = Table::new();
        for (noterm, terms) in input {
            table.insert(noterm.clone(), terms.clone());
            for term in terms {
                let entry = table.get_mut(noterm).unwrap();
                if self.grammar.is_terminal(term) {
                    entry.insert(term.clone());
                } else if let Some(set) = input.get(term) {
                    entry.extend(set.clone());
                }
            }
            if table[noterm].contains(noterm) {
                table.get_mut(noterm).unwrap().remove(noterm);
            }
        }
        table
"""
C["follow_step_local"] = [(T, FS, """        let mut table = Table::new();
        for (noterm, terms) in input {
            let mut grown = terms.clone();
            for term in terms {
                if self.grammar.is_terminal(term) {
                    continue;
                }
                if let Some(set) = input.get(term) {
                    grown.extend(set.iter().cloned());
                }
            }
            grown.remove(noterm);
            table.insert(noterm.clone(), grown);
        }
        table
""")]
C["follow_step_collect"] = [(T, FS, """        input
            .iter()
            .map(|(noterm, terms)| {
                let mut grown: Set<T> = terms
                    .iter()
                    .filter(|t| !self.grammar.is_terminal(t))
                    .filter_map(|t| input.get(t))
                    .flatten()
                    .chain(terms)
                    .cloned()
                    .collect();
                grown.remove(noterm);
                (noterm.clone(), grown)
            })
            .collect()
""")]
C["follow_step_retain"] = [(T, FS, """        let mut table = input.clone();
        for (noterm, terms) in input {
            let entry = table.get_mut(noterm).unwrap();
            for term in terms {
                match input.get(term) {
                    Some(set) if !self.grammar.is_terminal(term) => entry.extend(set.clone()),
                    _ => {}
                }
            }
            entry.retain(|t| t != noterm);
        }
        table
""")]
FO = """        let mut firsts = Set::new();
        for item in items {
            if let Some(first) = self.first.get(item) {
                firsts.extend(first.clone());
            } else {
                firsts.insert(item.clone());
            };
        }
        firsts
"""
C["first_of_fold"] = [(T, FO, """        items.iter().fold(Set::new(), |mut firsts, item| {
            match self.first.get(item) {
                Some(first) => firsts.extend(first.iter().cloned()),
                None => {
                    firsts.insert(item.clone());
                }
            }
            firsts
        })
""")]
C["first_of_contains"] = [(T, FO, """        let mut firsts = Set::new();
        for item in items {
            if self.first.contains_key(item) {
                firsts.extend(self.first[item].clone());
            } else {
                firsts.insert(item.clone());
            }
        }
        firsts
""")]
C["first_of_flat_map"] = [(T, FO, """        items
            .iter()
            .flat_map(|item| {
                self.first
                    .get(item)
                    .cloned()
                    .unwrap_or_else(|| Set::from([item.clone()]))
            })
            .collect()
""")]
SF = """        state
            .iter()
            .filter_map(|p| {
                if p.top().as_ref() == Some(sym) {
                    Position::clone_next(p)
                } else {
                    None
                }
            })
            .collect()
"""
C["sym_filter_then"] = [(T, SF, """        state
            .iter()
            .filter_map(|p| (p.top().as_ref() == Some(sym)).then(|| p.clone_next()).flatten())
            .collect()
""")]
C["sym_filter_match"] = [(T, SF, """        let mut moved = State::new();
        for p in state {
            match p.top() {
                Some(ref top) if top == sym => moved.extend(p.clone_next()),
                _ => continue,
            }
        }
        moved
""")]
C["sym_filter_map_or"] = [(T, SF, """        state
            .iter()
            .filter(|p| p.top().map_or(false, |top| top == *sym))
            .filter_map(Position::clone_next)
            .collect()
""")]
C["sym_filter_adv"] = [(T, SF, """        state
            .iter()
            .filter(|p| p.top().as_ref() == Some(sym))
            .cloned()
            .map(|mut p| {
                p.adv();
                p
            })
            .collect()
""")]
RE = """        let (travel, new_actions) = self.reduced_actions();
        self.actions = new_actions;

        self.actions
            .iter_mut()
            .flat_map(Map::iter_mut)
            .for_each(|(_, e)| Self::update_entry(e, &travel));
"""
C["reduce_equals_values"] = [(T, RE, """        let (travel, mut rows) = self.reduced_actions();
        for row in &mut rows {
            for entry in row.values_mut() {
                Self::update_entry(entry, &travel);
            }
        }
        self.actions = rows;
""")]
UE = """        let new = match entry {
            Action::Acc | Action::Reduce(..) => return,
            Action::Goto(n) => Action::Goto(travel[n]),
            Action::Shift(n) => Action::Shift(travel[n]),
            Action::Conflict(a, b) => {
                Self::update_entry(a, travel);
                Self::update_entry(b, travel);
                return;
            }
        };
        *entry = new;
"""
C["update_entry_deref"] = [(T, UE, """        match entry {
            Action::Goto(n) | Action::Shift(n) => *n = travel[n],
            Action::Conflict(a, b) => {
                Self::update_entry(a, travel);
                Self::update_entry(b, travel);
            }
            Action::Acc | Action::Reduce(..) => (),
        }
""")]
C["update_entry_iflet"] = [(T, UE, """        if let Action::Conflict(a, b) = entry {
            Self::update_entry(a, travel);
            Self::update_entry(b, travel);
        } else if let Action::Goto(n) = entry {
            *entry = Action::Goto(travel[n]);
        } else if let Action::Shift(n) = entry {
            *entry = Action::Shift(travel[n]);
        }
""")]
RA = """            if !actions_map.contains_key(old_action) {
                actions_map.insert(old_action.clone(), actions.len());
                actions.push(old_action.clone());
            }
            travel_idx.insert(i, actions_map[old_action]);
"""
C["reduced_if_let"] = [(T, RA, """            let new_idx = if let Some(idx) = actions_map.get(old_action) {
                *idx
            } else {
                let idx = actions.len();
                actions_map.insert(old_action.clone(), idx);
                actions.push(old_action.clone());
                idx
            };
            travel_idx.insert(i, new_idx);
""")]
C["reduced_match"] = [(T, RA, """            match actions_map.get(old_action).copied() {
                Some(idx) => {
                    travel_idx.insert(i, idx);
                }
                None => {
                    travel_idx.insert(i, actions.len());
                    actions_map.insert(old_action.clone(), actions.len());
                    actions.push(old_action.clone());
                }
            }
""")]
C["reduced_by_ref"] = [(T, RA, """            let next = actions.len();
            let idx = *actions_map.entry(old_action).or_insert(next);
            if idx == next {
                actions.push(old_action.clone());
            }
            travel_idx.insert(i, idx);
""")]
C["conflicts_values"] = [(T, """        self.actions
            .iter()
            .flat_map(Map::values)
            .filter(|a| matches!(a, Action::Conflict(..)))""", """        self.actions
            .iter()
            .flat_map(|row| row.values())
            .filter(|action| match action {
                Action::Conflict(_, _) => true,
                _ => false,
            })""")]
# ------------------------------------------------------------------------------------------- dfa
SH = """        let item = self.buffer.next().ok_or(Error::UnexpectedEof)?;
        self.items.push(item);
        self.top = to;
        self.states.push(self.top);
        Ok(())"""
C["shift_iflet"] = [(D, SH, """        if let Some(item) = self.buffer.next() {
            self.items.push(item);
            self.states.push(to);
            self.top = to;
            return Ok(());
        }
        Err(Error::UnexpectedEof)""")]
C["shift_map"] = [(D, SH, """        self.buffer
            .next()
            .map(|item| {
                self.items.push(item);
                self.states.push(to);
                self.top = to;
            })
            .ok_or(Error::UnexpectedEof)""")]
C["shift_enter"] = [(D, SH, """        match self.buffer.next() {
            None => Err(Error::UnexpectedEof),
            Some(item) => {
                self.items.push(item);
                self.enter(to);
                Ok(())
            }
        }"""), (D, """        self.states.push(to);
        self.top = to;
        Ok(())
    }""", """        self.enter(to);
        Ok(())
    }

    fn enter(&mut self, state: usize) {
        self.top = state;
        self.states.push(state);
    }""")]
TR = """            let symbol = self
                .buffer
                .peek()
                .map_or_else(|| &self.eof, |t| &t.ty)
                .clone();
            self.travel(&symbol)?;
"""
C["trace_symbol_fn"] = [(D, TR, """            let symbol = self.lookahead();
            self.travel(&symbol)?;
"""), (D, """    /// # Errors
    /// None
    pub fn goto""", """    fn lookahead(&mut self) -> M {
        if let Some(token) = self.buffer.peek() {
            token.ty.clone()
        } else {
            self.eof.clone()
        }
    }

    /// # Errors
    /// None
    pub fn goto""")]
C["trace_step_fn"] = [(D, """        while !self.finished {
            f(self);
""" + TR + """        }
        Ok(())
    }
""", """        loop {
            if self.finished {
                return Ok(());
            }
            f(self);
            self.step()?;
        }
    }

    fn step(&mut self) -> BaseResult<(), Error<M>> {
        let symbol = match self.buffer.peek() {
            Some(t) => t.ty.clone(),
            None => self.eof.clone(),
        };
        self.travel(&symbol)
    }
""")]
C["trace_iflet_err"] = [(D, "            self.travel(&symbol)?;\n", "            if let Err(e) = self.travel(&symbol) {\n                return Err(e);\n            }\n")]
C["travel_rows"] = [(D, """        let state = self.table.get(self.top).ok_or(Error::StateNotSpecified)?;
        // rules come""", """        if self.top >= self.table.len() {
            return Err(Error::StateNotSpecified);
        }
        let state = &self.table[self.top];
        // rules come""")]
C["travel_match_lookup"] = [(D, """        let action = state.get(symbol).filter(|a| !matches!(a, Action::Goto(_)));
        let action = action.ok_or_else(|| {
            let expecteds = state
                .iter()
                .filter(|(_, a)| !matches!(a, Action::Goto(_)))
                .map(|(s, _)| s.clone())
                .collect();
            Error::UnexpectedToken(symbol.clone(), expecteds)
        })?;
""", """        let action = match state.get(symbol) {
            Some(action) if !matches!(action, Action::Goto(_)) => action,
            _ => {
                let mut expecteds = Vec::new();
                for (s, a) in state {
                    if let Action::Goto(_) = a {
                        continue;
                    }
                    expecteds.push(s.clone());
                }
                return Err(Error::UnexpectedToken(symbol.clone(), expecteds));
            }
        };
""")]
C["travel_cloned_action"] = [(D, """        match action {
            Action::Shift(to) => self.shift(*to),
            Action::Goto(to) => self.goto(*to),
            Action::Reduce(name, prod) => self.reduce(&name.clone(), &prod.clone()),
            Action::Acc => self.accept(),
            Action::Conflict(a, b) => Err(Error::Conflict(*a.clone(), *b.clone())),
        }""", """        match action.clone() {
            Action::Shift(to) => self.shift(to),
            Action::Goto(to) => self.goto(to),
            Action::Reduce(name, prod) => self.reduce(&name, &prod),
            Action::Acc => self.accept(),
            Action::Conflict(a, b) => Err(Error::Conflict(*a, *b)),
        }""")]
RD = """        let new_item = Token::new(self.reductors[name][prod.1](items), name.clone());
        self.items.truncate(len - prod.0.len());
        self.items.push(new_item);

        let len = self.states.len();
        self.top = self.states[len - prod.0.len() - 1];

        self.states.truncate(len - prod.0.len());
"""
C["reduce_bind"] = [(D, RD, """        let reductor = self.reductors[name][prod.1];
        let new_item = Token::new(reductor(items), name.clone());
        let body = prod.0.len();
        self.items.truncate(len - body);
        self.items.push(new_item);

        let depth = self.states.len() - body;
        self.top = self.states[depth - 1];
        self.states.truncate(depth);
""")]
C["reduce_drain"] = [(D, RD, """        let value = self.reductors[name][prod.1](items);
        self.items.drain(len - prod.0.len()..);
        self.items.push(Token::new(value, name.clone()));

        let depth = self.states.len() - prod.0.len();
        self.states.drain(depth..);
        self.top = self.states[depth - 1];
""")]
C["reduce_goto_match"] = [(D, """        let state = self.table.get(self.top).ok_or(Error::StateNotSpecified)?;
        match state.get(name) {
            Some(Action::Goto(to)) => self.goto(*to),
            _ => Err(Error::MissingPreviousState),
        }""", """        let Some(state) = self.table.get(self.top) else {
            return Err(Error::StateNotSpecified);
        };
        if let Some(&Action::Goto(to)) = state.get(name) {
            return self.goto(to);
        }
        Err(Error::MissingPreviousState)""")]
C["reset_replace"] = [(D, """        self.finished = false;
        self.states.clear();
        self.states.push(0);
        self.items.clear();
        self.top = 0;
""", """        self.states = vec![0];
        self.items = Vec::new();
        self.top = 0;
        self.finished = false;
""")]
C["parse_pop_match"] = [(D, """        let res = self.items.pop().ok_or(Error::MissingPreviousState)?;
        self.reset();
        Ok(res.item)""", """        match self.items.pop() {
            Some(token) => {
                self.reset();
                Ok(token.item)
            }
            None => Err(Error::MissingPreviousState),
        }""")]
C["transparent_for"] = [(D, """        table
            .grammar
            .rules()
            .map(|r| {
                let prods = r.prods().map(|_| func);
                (r.name.clone(), prods.collect::<Vec<_>>())
            })
            .collect()""", """        let mut map = ReductMap::new();
        for rule in table.grammar.rules() {
            map.insert(rule.name.clone(), vec![func; rule.prods.len()]);
        }
        map""")]
C["accept_map"] = [(D, """        if self.buffer.peek().is_none() {
            Ok(())
        } else {
            Err(Error::IncompleteExec)
        }""", """        self.buffer.peek().map_or(Ok(()), |_| Err(Error::IncompleteExec))""")]
# ------------------------------------------------------------------------------------- grammar/pos
GN = """        let mut terminals = Set::new();
        for rule in rules.values() {
            for rc in rule.prods() {
                for term in &rc.0 {
                    if !rules.contains_key(term) {
                        terminals.insert(term.clone());
                    }
                }
            }
        }
        terminals.insert(eof.clone());
"""
C["grammar_terms_flat"] = [(G, GN, """        let mut terminals: Set<T> = rules
            .values()
            .flat_map(|rule| rule.prods.iter())
            .flat_map(|rc| rc.0.iter())
            .filter(|sym| !rules.contains_key(sym))
            .cloned()
            .collect();
        terminals.insert(eof.clone());
""")]
C["grammar_terms_chain"] = [(G, GN, """        let syms = rules.values().flat_map(|r| r.prods.iter().flat_map(|p| p.0.iter()));
        let terminals: Set<T> = syms
            .filter(|s| rules.get(*s).is_none())
            .chain(std::iter::once(&eof))
            .cloned()
            .collect();
""")]
C["grammar_terms_retain"] = [(G, GN, """        let mut terminals = Set::from([eof.clone()]);
        for rule in rules.values() {
            for prod in &rule.prods {
                let body = &prod.0;
                terminals.extend(body.iter().filter(|t| !rules.contains_key(t)).cloned());
            }
        }
""")]
C["grammar_symbols_loop"] = [(G, """        let symbols = rules.keys().chain(terminals.iter()).cloned().collect();
""", """        let mut symbols = terminals.clone();
        symbols.extend(rules.keys().cloned());
""")]
C["grammar_basis_let"] = [(G, """        let prods = &rules[&start].prods;
        debug_assert_eq!(prods.len(), 1, "there's more than one possible entry");
        let basis = Position::new(start, prods[0].clone(), 0, Set::from([eof]));
""", """        let entry = &rules[&start];
        debug_assert_eq!(entry.prods.len(), 1, "there's more than one possible entry");
        let seq = Rc::clone(&entry.prods[0]);
        let mut look = Set::new();
        look.insert(eof);
        let basis = Position::new(start, seq, 0, look);
""")]
C["rule_new_push"] = [(G, """        Self {
            name,
            prods: prods
                .into_iter()
                .enumerate()
                .map(|(i, p)| Rc::new((p, i)))
                .collect(),
        }""", """        let numbered = prods.into_iter().enumerate();
        let prods = numbered.map(|(index, body)| Rc::new((body, index))).collect();
        Self { name, prods }""")]
C["rule_single_vec"] = [(G, "        Self::new(name, std::iter::once(prod))", "        Self::new(name, vec![prod])")]
C["pos_clone_next_filter"] = [(P, """        if self.finished() {
            None
        } else {
            let mut next = self.clone();
            next.adv();
            Some(next)
        }""", """        if self.finished() {
            return None;
        }
        Some(Self {
            point: self.point + 1,
            ..self.clone()
        })""")]
C["pos_peek_abs"] = [(P, "        self.seq.0.get(self.point + qty).cloned()", "        self.abs_idx(self.point + qty)")]
C["pos_finished_get"] = [(P, "        self.point >= self.seq.0.len()", "        self.seq.0.get(self.point).is_none()")]
C["pos_body_eq_tuple"] = [(P, "        self.point == rhs.point && self.seq == rhs.seq && self.rule == rhs.rule", "        (&self.rule, &self.seq, self.point) == (&rhs.rule, &rhs.seq, rhs.point)")]
C["pos_body_eq_nolook"] = [(P, "        self.point == rhs.point && self.seq == rhs.seq && self.rule == rhs.rule", "        self.no_look() == rhs.no_look()")]
C["pos_no_look_with"] = [(P, "        Self::new(self.rule.clone(), self.seq.clone(), self.point, Set::new())", "        self.clone().with_look(Set::new())")]
C["span_tuple"] = [(L, """        Self {
            start: value.0,
            end: value.1,
        }""", """        let (start, end) = value;
        Self::new(start, end)""")]
C["span_range_via"] = [(L, """        Self {
            start: value.start,
            end: value.end,
        }""", """        let Range { start, end } = value;
        (start, end).into()""")]
C["span_slice_helper"] = [(L, "        slice.index(self.start..self.end)", "        let range = Range { start: self.start, end: self.end };\n        &slice[range]")]
C["transitive_while"] = [(L, """    let mut val = seed;
    loop {
        let new = map(val.clone());
        if new == val {
            return val;
        }
        val = new;
    }""", """    let mut val = seed;
    let mut new = map(val.clone());
    while new != val {
        val = new;
        new = map(val.clone());
    }
    val""")]
C["transitive_ret_new"] = [(L, """        if new == val {
            return val;
        }
        val = new;""", """        if val == new {
            return new;
        }
        val = new;""")]
# --------------------------------------------------------------------------------------- parsers
for nm, f in (("k", CL), ("l", LA), ("s", SL)):
    ACT = """                    if map.contains_key(&term) && map[&term] != act {
                        *map.get_mut(&term).unwrap() =
                            Action::Conflict(Box::new(map.get(&term).unwrap().clone()), act.into());
                    } else {
                        map.insert(term, act);
                    }
"""
    C[nm + "_act_match"] = [(f, ACT, """                    match map.get_mut(&term) {
                        Some(old) if *old != act => {
                            *old = Action::Conflict(Box::new(old.clone()), Box::new(act));
                        }
                        Some(_) => {}
                        None => {
                            map.insert(term, act);
                        }
                    }
""")]
    C[nm + "_act_get"] = [(f, ACT, """                    let merged = match map.get(&term) {
                        Some(old) if old != &act => Action::Conflict(Box::new(old.clone()), Box::new(act)),
                        _ => act,
                    };
                    map.insert(term, merged);
""")]
    C[nm + "_act_remove"] = [(f, ACT, """                    let cell = match map.remove(&term) {
                        None => act,
                        Some(old) if old == act => old,
                        Some(old) => Action::Conflict(old.into(), act.into()),
                    };
                    map.insert(term, cell);
""")]
    C[nm + "_act_helper"] = [(f, ACT, """                    Self::put(&mut map, term, act);
"""), (f, "    #[must_use]\n    pub fn prop_closure", """    fn put(map: &mut Map<T, Action<T>>, term: T, act: Action<T>) {
        if let Some(old) = map.get_mut(&term) {
            if *old != act {
                let first = old.clone();
                *old = Action::Conflict(Box::new(first), Box::new(act));
            }
            return;
        }
        map.insert(term, act);
    }

    #[must_use]
    pub fn prop_closure""")]
    C[nm + "_act_entry"] = [(f, ACT, """                    map.entry(term)
                        .and_modify(|old| {
                            if *old != act {
                                *old = Action::Conflict(Box::new(old.clone()), Box::new(act.clone()));
                            }
                        })
                        .or_insert_with(|| act.clone());
""")]
    GO = """        let kernels = Tabler::sym_filter(kernels, sym);
        if self.table.kernels.contains_key(&kernels) {
            None?;
        }
        let new = self.prop_closure(kernels.clone());
        if new.is_empty() {
            None
        } else {
            Some((kernels, new))
        }
"""
    C[nm + "_goto_return"] = [(f, GO, """        let moved = Tabler::sym_filter(kernels, sym);
        if self.table.kernels.contains_key(&moved) {
            return None;
        }
        let closed = self.prop_closure(moved.clone());
        (!closed.is_empty()).then_some((moved, closed))
""")]
    C[nm + "_goto_filter"] = [(f, GO, """        let moved = Tabler::sym_filter(kernels, sym);
        if self.table.kernels.get(&moved).is_none() {
            let closed = self.prop_closure(moved.clone());
            if !closed.is_empty() {
                return Some((moved, closed));
            }
        }
        None
""")]
    C[nm + "_goto_some"] = [(f, GO, """        Some(Tabler::sym_filter(kernels, sym))
            .filter(|moved| !self.table.kernels.contains_key(moved))
            .map(|moved| (self.prop_closure(moved.clone()), moved))
            .filter(|(closed, _)| !closed.is_empty())
            .map(|(closed, moved)| (moved, closed))
""")]
    C[nm + "_closure_chain"] = [(f, "        new_state.extend(state);\n        new_state\n", "        new_state.into_iter().chain(state).collect()\n")]
    C[nm + "_closure_notrule"] = [(f, """                if self.table.grammar.is_terminal(&top) {
                    continue;
                }
""", """                if !self.table.grammar.rules.contains_key(&top) {
                    continue;
                }
""")]
    C[nm + "_closure_prodsfield"] = [(f, "                for prod in self.table.grammar.rules[&top].prods() {\n                    new_state.insert(Position::new(top.clone(), prod.clone(), 0,", "                let rule = &self.table.grammar.rules[&top];\n                for prod in &rule.prods {\n                    new_state.insert(Position::new(top.clone(), prod.clone(), 0,")]
for nm, f in (("k", CL), ("l", LA)):
    LK = """pos.next().map_or_else(
                    || pos.look.clone(),
                    |locus| self.table.first_of(&Set::from([locus])),
                );
"""
    C[nm + "_look_match"] = [(f, LK, """match pos.next() {
                    Some(locus) => self.table.first_of(&Set::from([locus])),
                    None => pos.look.clone(),
                };
""")]
    C[nm + "_look_helper"] = [(f, LK, """self.look_after(pos);
"""), (f, "    #[must_use]\n    pub fn prop_closure", """    fn look_after(&self, pos: &Position<T>) -> Set<T> {
        let Some(locus) = pos.next() else {
            return pos.look.clone();
        };
        let mut locuses = Set::new();
        locuses.insert(locus);
        self.table.first_of(&locuses)
    }

    #[must_use]
    pub fn prop_closure""")]
    C[nm + "_look_direct"] = [(f, LK, """pos.next().map_or_else(
                    || pos.look.clone(),
                    |locus| match self.table.first.get(&locus) {
                        Some(firsts) => firsts.clone(),
                        None => Set::from([locus]),
                    },
                );
""")]
C["k_closures_row"] = [(CL, """            for s in self.table.grammar.symbols() {
                let Some((kernel, closures)) = self.goto(&self.table.states[idx], &s) else {
                    continue;
                };
                let old_val = self.table.kernels.insert(kernel, self.table.states.len());
                debug_assert!(old_val.is_none());
                self.table.states.push(closures);
            }
""", """            let row = self.table.states[idx].clone();
            for s in self.table.grammar.symbols() {
                if let Some((kernel, closures)) = self.goto(&row, &s) {
                    let id = self.table.states.len();
                    self.table.states.push(closures);
                    self.table.kernels.insert(kernel, id);
                }
            }
""")]
C["k_closures_add"] = [(CL, """                let old_val = self.table.kernels.insert(kernel, self.table.states.len());
                debug_assert!(old_val.is_none());
                self.table.states.push(closures);
            }
            idx += 1;
        }
    }
""", """                self.add_state(kernel, closures);
            }
            idx += 1;
        }
    }

    fn add_state(&mut self, kernel: State<T>, closures: State<T>) {
        let id = self.table.states.len();
        let old_val = self.table.kernels.insert(kernel, id);
        debug_assert!(old_val.is_none());
        self.table.states.push(closures);
    }
"""), (CL, "            for s in self.table.grammar.symbols() {\n                let Some((kernel, closures))", "            for s in self.table.grammar.symbols().collect::<Vec<_>>() {\n                let Some((kernel, closures))")]
C["s_closures_while_let"] = [(SL, """        let mut idx = 0;
        while idx < self.table.states.len() {
            let row = self.table.states[idx].clone();
""", """        let mut idx = 0;
        while let Some(row) = self.table.states.get(idx).cloned() {
""")]
C["s_closures_syms"] = [(SL, """        let mut idx = 0;
        while idx < self.table.states.len() {
            let row = self.table.states[idx].clone();
            for s in self.table.grammar.symbols() {
                let Some((kernel, closures)) = self.goto(&row, &s) else {
                    continue;
                };

                let old_val = self.table.kernels.insert(kernel, self.table.states.len());
                debug_assert!(old_val.is_none());
                self.table.states.push(closures);
            }
            idx += 1;
        }
""", """        let syms: Vec<T> = self.table.grammar.symbols().collect();
        for idx in 0.. {
            if idx >= self.table.states.len() {
                break;
            }
            let row = self.table.states[idx].clone();
            for s in &syms {
                if let Some((kernel, closures)) = self.goto(&row, s) {
                    let old_val = self.table.kernels.insert(kernel, self.table.states.len());
                    debug_assert!(old_val.is_none());
                    self.table.states.push(closures);
                }
            }
        }
""")]
C["l_closures_split"] = [(LA, """                let raw_kernel = Self::without_look(&kernel);
                if let Some(main_kernel) = self.raws.get(&raw_kernel).cloned() {
                    let Some(nk) = self.update_state(&main_kernel, kernel, closures) else {
                        continue;
                    };
                    pending.insert(self.table.kernels[&nk]);
                } else {
                    self.raws.insert(raw_kernel, kernel.clone());
                    self.table.states.push(closures);
                    let old = self
                        .table
                        .kernels
                        .insert(kernel, self.table.states.len() - 1);
                    debug_assert!(old.is_none());
                    pending.insert(self.table.states.len() - 1);
                };
""", """                if let Some(id) = self.add_or_merge(kernel, closures) {
                    pending.insert(id);
                }
"""), (LA, """    #[must_use]
    pub fn update_state(""", """    fn add_or_merge(&mut self, kernel: State<T>, closures: State<T>) -> Option<usize> {
        let raw_kernel = Self::without_look(&kernel);
        match self.raws.get(&raw_kernel).cloned() {
            Some(main_kernel) => {
                let nk = self.update_state(&main_kernel, kernel, closures)?;
                Some(self.table.kernels[&nk])
            }
            None => {
                let id = self.table.states.len();
                self.raws.insert(raw_kernel, kernel.clone());
                self.table.states.push(closures);
                self.table.kernels.insert(kernel, id);
                Some(id)
            }
        }
    }

    #[must_use]
    pub fn update_state(""")]
C["l_update_early"] = [(LA, """        if &new_kernel == main {
            None?;
        }
""", """        if new_kernel == *main {
            return None;
        }
""")]
C["l_update_mut"] = [(LA, """        let both_closures = self.table.states[state_id]
            .clone()
            .into_iter()
            .chain(closures)
            .collect();

        self.table.kernels.remove(main);
        self.table.states[state_id] = Self::merged(both_closures);
""", """        let mut both_closures = self.table.states[state_id].clone();
        both_closures.extend(closures);
        self.table.states[state_id] = Self::merged(both_closures);
        self.table.kernels.remove(main);
""")]
C["l_update_kernel_set"] = [(LA, """        let both_kernels = inc.into_iter().chain(main.clone()).collect();
        let new_kernel = Self::merged(both_kernels);
""", """        let mut both_kernels = main.clone();
        both_kernels.extend(inc);
        let new_kernel = Self::merged(both_kernels);
""")]
C["l_update_let_else"] = [(LA, "        let state_id = *self.table.kernels.get(main)?;\n", "        let Some(&state_id) = self.table.kernels.get(main) else {\n            return None;\n        };\n")]
C["l_first_row_kernel"] = [(LA, """        let start = self.prop_closure(State::from([self.table.basis_pos()]));
        self.table.kernels.insert(State::new(), 0);
        self.raws.insert(State::new(), start.clone());
        self.table.states.push(start);
""", """        let mut seed = State::new();
        seed.insert(self.table.basis_pos());
        let start = self.prop_closure(seed);
        self.raws.insert(State::default(), start.clone());
        self.table.kernels.insert(State::default(), self.table.states.len() * 0);
        self.table.states.push(start);
""")]
DE = """            |locus| {
                let filter = Tabler::sym_filter(row, &locus);
                let state = self
                    .state_from_kernel(&filter)
                    .expect("`kernels` is incomplete");
                if self.table.grammar.is_terminal(&locus) {
                    Map::from([(locus, Action::Shift(state))])
                } else {
                    Map::from([(locus, Action::Goto(state))])
                }
            },
"""
C["l_decision_action"] = [(LA, DE, """            |locus| {
                let target = self.target(row, &locus);
                let action = if self.table.grammar.is_terminal(&locus) {
                    Action::Shift(target)
                } else {
                    Action::Goto(target)
                };
                Map::from([(locus, action)])
            },
"""), (LA, "    #[must_use]\n    fn decision", """    fn target(&self, row: &State<T>, sym: &T) -> usize {
        self.state_from_kernel(&Tabler::sym_filter(row, sym))
            .expect("`kernels` is incomplete")
    }

    #[must_use]
    fn decision""")]
C["s_decision_ctor"] = [(SL, DE, """            |locus| {
                let filter = Tabler::sym_filter(row, &locus);
                let Some(state) = self.state_from_kernel(&filter) else {
                    panic!("`kernels` is incomplete");
                };
                let make = if self.table.grammar.is_terminal(&locus) { Action::Shift } else { Action::Goto };
                let mut map = Map::new();
                map.insert(locus, make(state));
                map
            },
""")]
C["s_decision_reduce_once"] = [(SL, """                self.table.follow[&pos.rule]
                    .iter()
                    .map(|l| {
                        (
                            l.clone(),
                            if &pos.rule == start {
                                Action::Acc
                            } else {
                                Action::Reduce(pos.rule.clone(), pos.seq.clone())
                            },
                        )
                    })
                    .collect()""", """                let act = if &pos.rule == start {
                    Action::Acc
                } else {
                    Action::Reduce(pos.rule.clone(), pos.seq.clone())
                };
                let mut map = Map::new();
                for look in &self.table.follow[&pos.rule] {
                    map.insert(look.clone(), act.clone());
                }
                map""")]
C["p_merged_position"] = [(PA, """            let keys: Vec<_> = new.iter().cloned().collect();
            for key in keys {
                if new.get(&key).unwrap().body_eq(&state) {
                    let mut state = state;
                    state.look.extend(new.get(&key).unwrap().look.clone());
                    new.remove(&key);
                    new.insert(state);
                    continue 'outter;
                }
            }
            new.insert(state);
""", """            let keys: Vec<Position<T>> = new.iter().cloned().collect();
            for key in keys {
                if key.body_eq(&state) {
                    new.remove(&key);
                    let mut grown = state;
                    grown.look.extend(key.look);
                    new.insert(grown);
                    continue 'outter;
                }
            }
            new.insert(state);
"""), (PA, "use crate::{BaseResult, Error, Grammar, State, Tabler, Token};", "use crate::{BaseResult, Error, Grammar, Position, State, Tabler, Token};")]
C["p_eof_helper"] = [(PA, """            self.tables()
                .grammar
                .basis()
                .look
                .iter()
                .take(1)
                .collect::<Vec<_>>()[0]
                .clone(),
""", """            self.tables().basis_pos().look.into_iter().next().unwrap(),
""")]
C["p_parse_map"] = [(PA, """        dfa.start()?;
        let item = dfa
            .items
            .pop()
            .ok_or(crate::dfa::Error::MissingPreviousState)?;
        Ok(item.item)""", """        dfa.start()?;
        dfa.items
            .pop()
            .map(|token| token.item)
            .ok_or(Error::MissingPreviousState)""")]
C["p_validate_iflet"] = [(PA, "        self.parse(buffer, self.empty::<I::IntoIter>()).is_ok()", "        let reductors = self.empty::<I::IntoIter>();\n        if let Ok(()) = self.parse(buffer, reductors) {\n            true\n        } else {\n            false\n        }")]
