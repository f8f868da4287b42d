"""Edits of /repo that keep its behaviour."""
T = "src/tabler.rs"
CASES = {}

CASES["gen_first_loop"] = [(T, '''            let firsts = rule
                .prods
                .iter()
                .filter_map(|rc| {
                    assert!(
                        !rc.0.is_empty(),
                        "productions should have at least one symbol"
                    );
                    if rc.0[0] == rule.name {
                        None
                    } else {
                        Some(rc.0[0].clone())
                    }
                })
                .collect();
            table.insert(rule.name.clone(), firsts);''', '''            let mut firsts = Set::new();
            for rc in &rule.prods {
                assert!(
                    !rc.0.is_empty(),
                    "productions should have at least one symbol"
                );
                let head = &rc.0[0];
                if head != &rule.name {
                    firsts.insert(head.clone());
                }
            }
            table.insert(rule.name.clone(), firsts);''')]

CASES["gen_first_helper"] = [(T, '''            let firsts = rule
                .prods
                .iter()
                .filter_map(|rc| {
                    assert!(
                        !rc.0.is_empty(),
                        "productions should have at least one symbol"
                    );
                    if rc.0[0] == rule.name {
                        None
                    } else {
                        Some(rc.0[0].clone())
                    }
                })
                .collect();
            table.insert(rule.name.clone(), firsts);''', '''            table.insert(rule.name.clone(), Self::heads(rule));'''),
 (T, '''    /// Generates the first FOLLOW set iteration for''', '''    fn heads(rule: &crate::Rule_<T>) -> Set<T> {
        let mut out = Set::new();
        for p in rule.prods() {
            assert!(!p.0.is_empty(), "productions should have at least one symbol");
            let h = p.0.first().unwrap();
            if *h == rule.name {
                continue;
            }
            out.insert(h.clone());
        }
        out
    }

    /// Generates the first FOLLOW set iteration for'''.replace("crate::Rule_", "crate::grammar::Rule"))]

CASES["gen_follow_windows"] = [(T, '''                for term_idx in 0..prod.len() - 1 {
                    // A = . . . A a -> {A: FIRST(A)} -> {A: A} -> {}
                    if !self.grammar.is_terminal(&prod[term_idx]) {
                        let entry = table.entry(prod[term_idx].clone()).or_default();
                        if self.grammar.is_terminal(&prod[term_idx + 1]) {
                            // A = . . . T a -> {T: a}
                            entry.insert(prod[term_idx + 1].clone());
                        } else {
                            // A = . . . T B -> {T: FIRST(B)}
                            entry.extend(self.first[&prod[term_idx + 1]].clone());
                        }
                    }
                }''', '''                for pair in prod.windows(2) {
                    let (sym, next) = (&pair[0], &pair[1]);
                    if self.grammar.is_terminal(sym) {
                        continue;
                    }
                    let entry = table.entry(sym.clone()).or_default();
                    if self.grammar.is_terminal(next) {
                        entry.insert(next.clone());
                    } else {
                        entry.extend(self.first[next].iter().cloned());
                    }
                }''')]

CASES["gen_follow_enum"] = [(T, '''                for term_idx in 0..prod.len() - 1 {
                    // A = . . . A a -> {A: FIRST(A)} -> {A: A} -> {}
                    if !self.grammar.is_terminal(&prod[term_idx]) {
                        let entry = table.entry(prod[term_idx].clone()).or_default();
                        if self.grammar.is_terminal(&prod[term_idx + 1]) {
                            // A = . . . T a -> {T: a}
                            entry.insert(prod[term_idx + 1].clone());
                        } else {
                            // A = . . . T B -> {T: FIRST(B)}
                            entry.extend(self.first[&prod[term_idx + 1]].clone());
                        }
                    }
                }''', '''                for (sym, next) in prod.iter().zip(prod.iter().skip(1)) {
                    if !self.grammar.is_terminal(sym) {
                        let entry = table.entry(sym.clone()).or_insert_with(Set::new);
                        if self.grammar.is_terminal(next) {
                            entry.insert(next.clone());
                        } else {
                            for f in &self.first[next] {
                                entry.insert(f.clone());
                            }
                        }
                    }
                }''')]

CASES["first_step_rewrite"] = [(T, '''        for (name, firsts) in input {
            table.insert(name.clone(), firsts.clone());
            for first in firsts {
                if self.grammar.is_terminal(first) {
                    table.get_mut(name).unwrap().insert(first.clone());
                } else {
                    table.get_mut(name).unwrap().extend(
                        input
                            .get(first)
                            .unwrap_or_else(|| {
                                panic!("{name:?} was not listed as terminal or non-terminal")
                            })
                            .clone(),
                    );
                }
            }
            if table[name].contains(name) {
                table.get_mut(name).unwrap().remove(name);
            }
        }''', '''        for (name, firsts) in input {
            let mut new = firsts.clone();
            for first in firsts.iter().filter(|f| !self.grammar.is_terminal(f)) {
                let other = input.get(first).unwrap_or_else(|| {
                    panic!("{name:?} was not listed as terminal or non-terminal")
                });
                new.extend(other.iter().cloned());
            }
            new.remove(name);
            table.insert(name.clone(), new);
        }''')]

CASES["follow_step_iter"] = [(T, '''        let mut table = Table::new();
        for (noterm, terms) in input {
            table.insert(noterm.clone(), terms.clone());
            for term in terms {
                let entry = table.get_mut(noterm).unwrap();
                if self.grammar.is_terminal(term) {
                    entry.insert(term.clone());
                } else if let Some(set) = input.get(term) {
                    entry.extend(set.clone());
                }
            }
            if table[noterm].contains(noterm) {
                table.get_mut(noterm).unwrap().remove(noterm);
            }
        }
        table''', '''        input
            .iter()
            .map(|(noterm, terms)| {
                let mut set: Set<T> = terms.clone();
                for term in terms {
                    if self.grammar.is_terminal(term) {
                        continue;
                    }
                    if let Some(other) = input.get(term) {
                        set.extend(other.iter().cloned());
                    }
                }
                set.remove(noterm);
                (noterm.clone(), set)
            })
            .collect()''')]

CASES["proc_first_inplace"] = [(T, '''        let mut first = transitive(self.first.clone(), |t| self.first_step(&t));
        // rules are kept while iterating: dropping them makes recursive rules swap forever
        for firsts in first.values_mut() {
            firsts.retain(|t| self.grammar.is_terminal(t));
        }
        self.first = first;''', '''        let closed = transitive(self.first.clone(), |t| self.first_step(&t));
        self.first = closed
            .into_iter()
            .map(|(k, v)| (k, v.into_iter().filter(|t| self.grammar.is_terminal(t)).collect()))
            .collect();''')]

CASES["proc_first_loop"] = [(T, '''        let mut first = transitive(self.first.clone(), |t| self.first_step(&t));
''', '''        let mut first = self.first.clone();
        loop {
            let next = self.first_step(&first);
            if next == first {
                break;
            }
            first = next;
        }
''')]

CASES["first_of_match"] = [(T, '''            if let Some(first) = self.first.get(item) {
                firsts.extend(first.clone());
            } else {
                firsts.insert(item.clone());
            };''', '''            match self.first.get(item) {
                None => {
                    firsts.insert(item.clone());
                }
                Some(first) => {
                    for f in first {
                        firsts.insert(f.clone());
                    }
                }
            }''')]

CASES["first_of_flat"] = [(T, '''        let mut firsts = Set::new();
        for item in items {
            if let Some(first) = self.first.get(item) {
                firsts.extend(first.clone());
            } else {
                firsts.insert(item.clone());
            };
        }
        firsts''', '''        items
            .iter()
            .flat_map(|item| {
                self.first
                    .get(item)
                    .cloned()
                    .unwrap_or_else(|| Set::from([item.clone()]))
            })
            .collect()''')]

CASES["sym_filter_loop"] = [(T, '''        state
            .iter()
            .filter_map(|p| {
                if p.top().as_ref() == Some(sym) {
                    Position::clone_next(p)
                } else {
                    None
                }
            })
            .collect()''', '''        let mut out = State::new();
        for p in state {
            let Some(top) = p.top() else { continue };
            if &top == sym {
                let mut next = p.clone();
                next.adv();
                out.insert(next);
            }
        }
        out''')]

CASES["sym_filter_filter"] = [(T, '''            .filter_map(|p| {
                if p.top().as_ref() == Some(sym) {
                    Position::clone_next(p)
                } else {
                    None
                }
            })''', '''            .filter(|p| p.top().as_ref() == Some(sym))
            .filter_map(Position::clone_next)''')]

CASES["conflicts_loop"] = [(T, '''            .flat_map(Map::values)
            .filter(|a| matches!(a, Action::Conflict(..)))''', '''            .flat_map(|row| row.values().filter(|a| matches!(a, Action::Conflict(_, _))))''')]

CASES["reduce_equals_loops"] = [(T, '''        self.actions
            .iter_mut()
            .flat_map(Map::iter_mut)
            .for_each(|(_, e)| Self::update_entry(e, &travel));''', '''        for row in &mut self.actions {
            for entry in row.values_mut() {
                Self::update_entry(entry, &travel);
            }
        }''')]

CASES["update_entry_match"] = [(T, '''        let new = match entry {
            Action::Acc | Action::Reduce(..) => return,
            Action::Goto(n) => Action::Goto(travel[n]),
            Action::Shift(n) => Action::Shift(travel[n]),
            Action::Conflict(a, b) => {
                Self::update_entry(a, travel);
                Self::update_entry(b, travel);
                return;
            }
        };
        *entry = new;''', '''        match entry {
            Action::Acc | Action::Reduce(..) => {}
            Action::Goto(n) | Action::Shift(n) => *n = travel[&*n],
            Action::Conflict(a, b) => {
                Self::update_entry(a, travel);
                Self::update_entry(b, travel);
            }
        }''')]

CASES["reduced_actions_entry"] = [(T, '''            if !actions_map.contains_key(old_action) {
                actions_map.insert(old_action.clone(), actions.len());
                actions.push(old_action.clone());
            }
            travel_idx.insert(i, actions_map[old_action]);''', '''            let idx = match actions_map.get(old_action) {
                Some(idx) => *idx,
                None => {
                    let idx = actions.len();
                    actions.push(old_action.clone());
                    actions_map.insert(old_action.clone(), idx);
                    idx
                }
            };
            travel_idx.insert(i, idx);''')]

CASES["reduced_actions_entry_api"] = [(T, '''            if !actions_map.contains_key(old_action) {
                actions_map.insert(old_action.clone(), actions.len());
                actions.push(old_action.clone());
            }
            travel_idx.insert(i, actions_map[old_action]);''', '''            let idx = *actions_map.entry(old_action.clone()).or_insert_with(|| {
                actions.push(old_action.clone());
                actions.len() - 1
            });
            travel_idx.insert(i, idx);''')]

CASES["tabler_new_order"] = [(T, '''        let mut buf = Self {
            grammar,
            first: Table::default(),
            follow: Table::default(),
            actions: ActTable::default(),
            states: Vec::default(),
            kernels: Map::default(),
        };
        buf.first = buf.gen_first();
        buf.proc_first();
        buf.follow = buf.gen_follow();
        buf.proc_follow();
        buf''', '''        let mut tabler = Self {
            kernels: Map::new(),
            states: Vec::new(),
            actions: Vec::new(),
            first: Map::new(),
            follow: Map::new(),
            grammar,
        };
        let first = tabler.gen_first();
        tabler.first = first;
        tabler.proc_first();
        let follow = tabler.gen_follow();
        tabler.follow = follow;
        tabler.proc_follow();
        tabler''')]

L = "src/lib.rs"
CASES["transitive_loop"] = [(L, '''    let mut val = seed;
    loop {
        let new = map(val.clone());
        if new == val {
            return val;
        }
        val = new;
    }''', '''    let mut current = seed;
    let mut next = map(current.clone());
    while next != current {
        current = next;
        next = map(current.clone());
    }
    current''')]
CASES["transitive_flag"] = [(L, '''    let mut val = seed;
    loop {
        let new = map(val.clone());
        if new == val {
            return val;
        }
        val = new;
    }''', '''    let mut val = seed;
    let mut changed = true;
    while changed {
        let new = map(val.clone());
        changed = new != val;
        val = new;
    }
    val''')]
CASES["span_from"] = [(L, '''        slice.index(self.start..self.end)''', '''        let range = Range { start: self.start, end: self.end };
        &slice[range]'''), (L, '''        Self {
            start: value.0,
            end: value.1,
        }''', '''        let (start, end) = value;
        Self::new(start, end)''')]
CASES["to_tokens"] = [(L, '''    it.into_iter().map(|i| Token::new((), i))''', '''    it.into_iter().map(Token::empty)''')]

G = "src/grammar.rs"
CASES["grammar_new_iter"] = [(G, '''        let mut terminals = Set::new();
        for rule in rules.values() {
            for rc in rule.prods() {
                for term in &rc.0 {
                    if !rules.contains_key(term) {
                        terminals.insert(term.clone());
                    }
                }
            }
        }
        terminals.insert(eof.clone());
        let symbols = rules.keys().chain(terminals.iter()).cloned().collect();
''', '''        let mut terminals: Set<T> = rules
            .values()
            .flat_map(Rule::prods)
            .flat_map(|p| p.0.clone())
            .filter(|sym| !rules.contains_key(sym))
            .collect();
        terminals.insert(eof.clone());
        let mut symbols = terminals.clone();
        symbols.extend(rules.keys().cloned());
''')]
CASES["grammar_basis_first"] = [(G, '''        let basis = Position::new(start, prods[0].clone(), 0, Set::from([eof]));''', '''        let seq = Rc::clone(&prods[0]);
        let mut look = Set::new();
        look.insert(eof);
        let basis = Position {
            rule: start,
            seq,
            point: 0,
            look,
        };''')]
CASES["rule_new_loop"] = [(G, '''        Self {
            name,
            prods: prods
                .into_iter()
                .enumerate()
                .map(|(i, p)| Rc::new((p, i)))
                .collect(),
        }''', '''        let mut numbered = Vec::new();
        for prod in prods {
            let idx = numbered.len();
            numbered.push(Rc::new((prod, idx)));
        }
        Self {
            name,
            prods: numbered,
        }''')]
CASES["rule_new_zip"] = [(G, '''                .into_iter()
                .enumerate()
                .map(|(i, p)| Rc::new((p, i)))''', '''                .into_iter()
                .zip(0..)
                .map(Rc::new)''')]
CASES["is_terminal_get"] = [(G, '''        !self.rules.contains_key(term)''', '''        self.rules.get(term).is_none()''')]

P = "src/pos.rs"
CASES["pos_peek_bounds"] = [(P, '''        self.seq.0.get(self.point + qty).cloned()''', '''        let idx = self.point + qty;
        if idx < self.seq.0.len() {
            Some(self.seq.0[idx].clone())
        } else {
            None
        }''')]
CASES["pos_clone_next"] = [(P, '''        if self.finished() {
            None
        } else {
            let mut next = self.clone();
            next.adv();
            Some(next)
        }''', '''        if self.point < self.seq.0.len() {
            return Some(Self {
                point: self.point + 1,
                ..self.clone()
            });
        }
        None''')]
CASES["pos_clone_next_then"] = [(P, '''        if self.finished() {
            None
        } else {
            let mut next = self.clone();
            next.adv();
            Some(next)
        }''', '''        (!self.finished()).then(|| {
            let mut next = self.clone();
            next.adv();
            next
        })''')]
CASES["pos_finished_top"] = [(P, '''        self.point >= self.seq.0.len()''', '''        self.top().is_none()''')]
CASES["pos_body_eq"] = [(P, '''        self.point == rhs.point && self.seq == rhs.seq && self.rule == rhs.rule''', '''        if self.rule != rhs.rule {
            return false;
        }
        self.seq.1 == rhs.seq.1 && self.seq.0 == rhs.seq.0 && self.point == rhs.point''')]
CASES["pos_no_look"] = [(P, '''        Self::new(self.rule.clone(), self.seq.clone(), self.point, Set::new())''', '''        self.clone().with_look(Set::new())''')]
CASES["pos_with_look"] = [(P, '''    pub fn with_look(self, look: Set<T>) -> Self {
        Self { look, ..self }''', '''    pub fn with_look(mut self, look: Set<T>) -> Self {
        self.look = look;
        self''')]
