"""Behaviour-preserving edits of dfa.rs, parser.rs, clr.rs, slr.rs, lalr.rs."""
C = {}
D = "src/dfa.rs"
P = "src/parser.rs"
L = "src/lalr.rs"
K = "src/clr.rs"
S = "src/slr.rs"

# ---- dfa
C["shift_match"] = [(D, """        let item = self.buffer.next().ok_or(Error::UnexpectedEof)?;
        self.items.push(item);
        self.top = to;
        self.states.push(self.top);
        Ok(())""", """        match self.buffer.next() {
            Some(item) => {
                self.states.push(to);
                self.top = to;
                self.items.push(item);
                Ok(())
            }
            None => Err(Error::UnexpectedEof),
        }""")]
C["shift_via_goto"] = [(D, """        self.items.push(item);
        self.top = to;
        self.states.push(self.top);
        Ok(())""", """        self.items.push(item);
        self.goto(to)""")]
C["shift_letelse"] = [(D, """        let item = self.buffer.next().ok_or(Error::UnexpectedEof)?;
""", """        let Some(item) = self.buffer.next() else {
            return Err(Error::UnexpectedEof);
        };
""")]
C["accept_match"] = [(D, """        if self.buffer.peek().is_none() {
            Ok(())
        } else {
            Err(Error::IncompleteExec)
        }""", """        match self.buffer.peek() {
            Some(_) => Err(Error::IncompleteExec),
            None => Ok(()),
        }""")]
C["accept_early"] = [(D, """        if self.buffer.peek().is_none() {
            Ok(())
        } else {
            Err(Error::IncompleteExec)
        }""", """        if self.buffer.peek().is_some() {
            return Err(Error::IncompleteExec);
        }
        Ok(())""")]
C["trace_match"] = [(D, """            let symbol = self
                .buffer
                .peek()
                .map_or_else(|| &self.eof, |t| &t.ty)
                .clone();
            self.travel(&symbol)?;""", """            let symbol = match self.buffer.peek() {
                Some(t) => t.ty.clone(),
                None => self.eof.clone(),
            };
            self.travel(&symbol)?;""")]
C["trace_loop"] = [(D, """        while !self.finished {
            f(self);""", """        loop {
            if self.finished {
                break;
            }
            f(self);""")]
C["trace_helper"] = [(D, """            let symbol = self
                .buffer
                .peek()
                .map_or_else(|| &self.eof, |t| &t.ty)
                .clone();
            self.travel(&symbol)?;
        }
        Ok(())
    }
""", """            let symbol = self.lookahead();
            self.travel(&symbol)?;
        }
        Ok(())
    }

    fn lookahead(&mut self) -> M {
        if let Some(tok) = self.buffer.peek() {
            tok.ty.clone()
        } else {
            self.eof.clone()
        }
    }
""")]
C["trace_result"] = [(D, """            self.travel(&symbol)?;
        }
        Ok(())""", """            if let Err(e) = self.travel(&symbol) {
                return Err(e);
            }
        }
        Ok(())""")]
C["goto_order"] = [(D, """        self.states.push(to);
        self.top = to;
        Ok(())""", """        self.top = to;
        self.states.push(to);
        Ok(())""")]
C["travel_match"] = [(D, """        let action = action.ok_or_else(|| {
            let expecteds = state
                .iter()
                .filter(|(_, a)| !matches!(a, Action::Goto(_)))
                .map(|(s, _)| s.clone())
                .collect();
            Error::UnexpectedToken(symbol.clone(), expecteds)
        })?;
        match action {""", """        let Some(action) = action else {
            let mut expecteds = Vec::new();
            for (s, a) in state {
                if matches!(a, Action::Goto(_)) {
                    continue;
                }
                expecteds.push(s.clone());
            }
            return Err(Error::UnexpectedToken(symbol.clone(), expecteds));
        };
        match action {""")]
C["travel_order"] = [(D, """            Action::Shift(to) => self.shift(*to),
            Action::Goto(to) => self.goto(*to),
            Action::Reduce(name, prod) => self.reduce(&name.clone(), &prod.clone()),
            Action::Acc => self.accept(),""", """            Action::Acc => self.accept(),
            Action::Goto(to) => self.goto(*to),
            Action::Shift(to) => {
                let to = *to;
                self.shift(to)
            }
            Action::Reduce(name, prod) => {
                let (name, prod) = (name.clone(), Rc::clone(prod));
                self.reduce(&name, &prod)
            }""")]
C["travel_clone"] = [(D, """        match action {
            Action::Shift(to) => self.shift(*to),
            Action::Goto(to) => self.goto(*to),
            Action::Reduce(name, prod) => self.reduce(&name.clone(), &prod.clone()),
            Action::Acc => self.accept(),
            Action::Conflict(a, b) => Err(Error::Conflict(*a.clone(), *b.clone())),
        }""", """        match action.clone() {
            Action::Shift(to) => self.shift(to),
            Action::Goto(to) => self.goto(to),
            Action::Reduce(name, prod) => self.reduce(&name, &prod),
            Action::Acc => self.accept(),
            Action::Conflict(a, b) => Err(Error::Conflict(*a, *b)),
        }""")]
C["travel_expected_helper"] = [(D, """        let action = action.ok_or_else(|| {
            let expecteds = state
                .iter()
                .filter(|(_, a)| !matches!(a, Action::Goto(_)))
                .map(|(s, _)| s.clone())
                .collect();
            Error::UnexpectedToken(symbol.clone(), expecteds)
        })?;""", """        let action =
            action.ok_or_else(|| Error::UnexpectedToken(symbol.clone(), Self::expected(state)))?;"""),
 (D, """    pub fn reset(&mut self) {""", """    fn expected(row: &crate::Map<M, Action<M>>) -> Vec<M> {
        row.iter()
            .filter_map(|(s, a)| match a {
                Action::Goto(_) => None,
                _ => Some(s.clone()),
            })
            .collect()
    }

    pub fn reset(&mut self) {""")]
C["travel_guarded_match"] = [(D, """        let action = state.get(symbol).filter(|a| !matches!(a, Action::Goto(_)));
        let action = action.ok_or_else(|| {
            let expecteds = state
                .iter()
                .filter(|(_, a)| !matches!(a, Action::Goto(_)))
                .map(|(s, _)| s.clone())
                .collect();
            Error::UnexpectedToken(symbol.clone(), expecteds)
        })?;
        match action {
            Action::Shift(to) => self.shift(*to),
            Action::Goto(to) => self.goto(*to),
            Action::Reduce(name, prod) => self.reduce(&name.clone(), &prod.clone()),
            Action::Acc => self.accept(),
            Action::Conflict(a, b) => Err(Error::Conflict(*a.clone(), *b.clone())),
        }""", """        match state.get(symbol) {
            Some(Action::Shift(to)) => {
                let to = *to;
                self.shift(to)
            }
            Some(Action::Reduce(name, prod)) => {
                let name = name.clone();
                let prod = prod.clone();
                self.reduce(&name, &prod)
            }
            Some(Action::Acc) => self.accept(),
            Some(Action::Conflict(a, b)) => {
                Err(Error::Conflict(a.as_ref().clone(), b.as_ref().clone()))
            }
            None | Some(Action::Goto(_)) => {
                let expecteds = state
                    .iter()
                    .filter(|(_, a)| !matches!(a, Action::Goto(_)))
                    .map(|(s, _)| s.clone())
                    .collect();
                Err(Error::UnexpectedToken(symbol.clone(), expecteds))
            }
        }""")]
C["reduce_split"] = [(D, """        let len = self.items.len();
        let items = &self.items[len - prod.0.len()..];
""", """        let arity = prod.0.len();
        let base = self.items.len() - arity;
        let items = &self.items[base..];
"""), (D, """        self.items.truncate(len - prod.0.len());
        self.items.push(new_item);
""", """        self.items.truncate(base);
        self.items.push(new_item);
""")]
C["reduce_states_first"] = [(D, """        let len = self.states.len();
        self.top = self.states[len - prod.0.len() - 1];

        self.states.truncate(len - prod.0.len());
""", """        let keep = self.states.len() - prod.0.len();
        self.states.truncate(keep);
        self.top = self.states[keep - 1];
""")]
C["reduce_last"] = [(D, """        let len = self.states.len();
        self.top = self.states[len - prod.0.len() - 1];

        self.states.truncate(len - prod.0.len());
""", """        let len = self.states.len();
        self.states.truncate(len - prod.0.len());
        self.top = *self.states.last().unwrap();
""")]
C["reduce_iflet"] = [(D, """        match state.get(name) {
            Some(Action::Goto(to)) => self.goto(*to),
            _ => Err(Error::MissingPreviousState),
        }""", """        if let Some(Action::Goto(to)) = state.get(name) {
            let to = *to;
            self.goto(to)
        } else {
            Err(Error::MissingPreviousState)
        }""")]
C["reduce_pop_loop"] = [(D, """        self.items.truncate(len - prod.0.len());
        self.items.push(new_item);
""", """        for _ in 0..prod.0.len() {
            self.items.pop();
        }
        self.items.push(new_item);
""")]
C["reduce_helper"] = [(D, """        debug_assert!(
            self.reductors.get(name).is_some(),
            "missing reductor table for {name:?}"
        );
        debug_assert!(
            self.reductors[name].get(prod.1).is_some(),
            "missing production {} reductor for {name:?}",
            prod.1
        );
        let new_item = Token::new(self.reductors[name][prod.1](items), name.clone());
""", """        let new_item = self.apply(name, prod, items);
"""), (D, """    pub fn reset(&mut self) {""", """    fn apply(&self, name: &M, prod: &Production<M>, items: &[Token<T, M>]) -> Token<T, M> {
        debug_assert!(
            self.reductors.get(name).is_some(),
            "missing reductor table for {name:?}"
        );
        debug_assert!(
            self.reductors[name].get(prod.1).is_some(),
            "missing production {} reductor for {name:?}",
            prod.1
        );
        let reductor = self.reductors[name][prod.1];
        Token::new(reductor(items), name.clone())
    }

    pub fn reset(&mut self) {""")]
C["reset_vec"] = [(D, """        self.finished = false;
        self.states.clear();
        self.states.push(0);
        self.items.clear();
        self.top = 0;""", """        self.top = 0;
        self.states = vec![0];
        self.items = Vec::new();
        self.finished = false;""")]
C["reset_truncate"] = [(D, """        self.states.clear();
        self.states.push(0);
        self.items.clear();""", """        self.items.truncate(0);
        self.states.clear();
        self.states.extend([0]);""")]
C["parse_match"] = [(D, """        let res = self.items.pop().ok_or(Error::MissingPreviousState)?;
        self.reset();
        Ok(res.item)""", """        match self.items.pop() {
            Some(tok) => {
                self.reset();
                Ok(tok.item)
            }
            None => Err(Error::MissingPreviousState),
        }""")]
C["parse_order"] = [(D, """        self.reset();
        self.buffer = input.peekable();
        self.start()?;""", """        self.buffer = input.peekable();
        self.reset();
        self.start()?;""")]
C["dfa_new_order"] = [(D, """        Self {
            states: vec![0],
            items: Vec::new(),
            buffer: buffer.peekable(),
            top: 0,""", """        let buffer = buffer.peekable();
        let top = 0;
        Self {
            states: Vec::from([top]),
            items: vec![],
            buffer,
            top,""")]
C["transparent_loop"] = [(D, """        table
            .grammar
            .rules()
            .map(|r| {
                let prods = r.prods().map(|_| func);
                (r.name.clone(), prods.collect::<Vec<_>>())
            })
            .collect()""", """        let mut map = ReductMap::new();
        for r in table.grammar.rules() {
            map.insert(r.name.clone(), vec![func; r.prods().count()]);
        }
        map""")]
C["stack_fmt_while"] = [(D, """        for i in 0.. {
            if i >= self.states.len() && i >= self.items.len() {
                break;
            }
            if let Some(s) = self.states.get(i) {
                fmts.push(format!("{s}"));
            }

            if let Some(it) = self.items.get(i) {
                fmts.push(format!("{:?}", it.ty));
            }
        }""", """        for i in 0..self.states.len().max(self.items.len()) {
            if let Some(s) = self.states.get(i) {
                fmts.push(s.to_string());
            }

            if let Some(it) = self.items.get(i) {
                fmts.push(format!("{:?}", it.ty));
            }
        }""")]
C["error_display_write"] = [(D, """            Self::UnexpectedToken(found, expected) => f.write_fmt(format_args!(
                "unexpected token {found:?}. expected {expected:?}"
            )),
            Self::UnexpectedEof => f.write_str("unexpected eof"),""", """            Self::UnexpectedEof => write!(f, "unexpected eof"),
            Self::UnexpectedToken(found, expected) => {
                write!(f, "unexpected token {found:?}. expected {expected:?}")
            }""")]
# ---- parser
C["p_dfa_eof"] = [(P, """        Dfa::new(
            buffer,
            self.tables().actions.clone(),
            maps,
            self.tables()
                .grammar
                .basis()
                .look
                .iter()
                .take(1)
                .collect::<Vec<_>>()[0]
                .clone(),
        )""", """        let table = self.tables();
        let eof = table.grammar.basis().look.iter().next().unwrap().clone();
        Dfa::new(buffer, table.actions.clone(), maps, eof)""")]
C["p_dfa_eof_first"] = [(P, """                .look
                .iter()
                .take(1)
                .collect::<Vec<_>>()[0]
                .clone(),""", """                .look
                .first()
                .unwrap()
                .clone(),""")]
C["p_dfa_eof_into"] = [(P, """                .look
                .iter()
                .take(1)
                .collect::<Vec<_>>()[0]
                .clone(),""", """                .look
                .into_iter()
                .next()
                .expect("eof"),""")]
C["p_parse_match"] = [(P, """        let item = dfa
            .items
            .pop()
            .ok_or(crate::dfa::Error::MissingPreviousState)?;
        Ok(item.item)""", """        dfa.items
            .pop()
            .map(|tok| tok.item)
            .ok_or(crate::dfa::Error::MissingPreviousState)""")]
C["p_parse_letelse"] = [(P, """        let item = dfa
            .items
            .pop()
            .ok_or(crate::dfa::Error::MissingPreviousState)?;
        Ok(item.item)""", """        let Some(item) = dfa.items.pop() else {
            return Err(crate::dfa::Error::MissingPreviousState);
        };
        Ok(item.item)""")]
C["p_validate_match"] = [(P, """        self.parse(buffer, self.empty::<I::IntoIter>()).is_ok()""", """        matches!(self.parse(buffer, self.empty::<I::IntoIter>()), Ok(()))""")]
C["p_validate_let"] = [(P, """        self.parse(buffer, self.empty::<I::IntoIter>()).is_ok()""", """        let map = self.empty::<I::IntoIter>();
        let res = self.parse(buffer, map);
        !res.is_err()""")]
C["p_state_from_kernel_match"] = [(P, """        let final_kernel = self.final_kernel(kernel)?;
        self.tables().kernels.get(final_kernel).copied()""", """        match self.final_kernel(kernel) {
            None => None,
            Some(k) => self.tables().kernels.get(k).cloned(),
        }""")]
C["p_state_from_kernel_andthen"] = [(P, """        let final_kernel = self.final_kernel(kernel)?;
        self.tables().kernels.get(final_kernel).copied()""", """        self.final_kernel(kernel)
            .and_then(|k| self.tables().kernels.get(k))
            .copied()""")]
C["p_merged_find"] = [(P, """        'outter: for state in states {
            let keys: Vec<_> = new.iter().cloned().collect();
            for key in keys {
                if new.get(&key).unwrap().body_eq(&state) {
                    let mut state = state;
                    state.look.extend(new.get(&key).unwrap().look.clone());
                    new.remove(&key);
                    new.insert(state);
                    continue 'outter;
                }
            }
            new.insert(state);
        }
        new""", """        for mut state in states {
            let same = new.iter().find(|old| old.body_eq(&state)).cloned();
            if let Some(old) = same {
                new.remove(&old);
                state.look.extend(old.look);
            }
            new.insert(state);
        }
        new""")]
C["p_merged_simple"] = [(P, """                if new.get(&key).unwrap().body_eq(&state) {
                    let mut state = state;
                    state.look.extend(new.get(&key).unwrap().look.clone());
                    new.remove(&key);
                    new.insert(state);
                    continue 'outter;
                }""", """                if key.body_eq(&state) {
                    let mut state = state;
                    state.look.extend(key.look.iter().cloned());
                    new.remove(&key);
                    new.insert(state);
                    continue 'outter;
                }""")]
# ---- lalr
C["l_first_row_order"] = [(L, """        self.table.kernels.insert(State::new(), 0);
        self.raws.insert(State::new(), start.clone());
        self.table.states.push(start);""", """        self.raws.insert(State::new(), start.clone());
        self.table.states.push(start);
        self.table.kernels.insert(State::new(), 0);""")]
C["l_without_look_loop"] = [(L, """        state.iter().map(Position::no_look).collect()""", """        let mut raw = State::new();
        for pos in state {
            raw.insert(pos.no_look());
        }
        raw""")]
C["l_closure_match"] = [(L, """                let look = pos.next().map_or_else(
                    || pos.look.clone(),
                    |locus| self.table.first_of(&Set::from([locus])),
                );""", """                let look = match pos.next() {
                    Some(locus) => self.table.first_of(&Set::from([locus])),
                    None => pos.look.clone(),
                };""")]
C["l_closure_letelse"] = [(L, """            if let Some(top) = pos.top() {
                if self.table.grammar.is_terminal(&top) {
                    continue;
                }
                let look = pos.next().map_or_else(
                    || pos.look.clone(),
                    |locus| self.table.first_of(&Set::from([locus])),
                );
                for prod in self.table.grammar.rules[&top].prods() {
                    new_state.insert(Position::new(top.clone(), prod.clone(), 0, look.clone()));
                }
            }""", """            let Some(top) = pos.top() else { continue };
            if !self.table.grammar.is_terminal(&top) {
                let look = self.lookahead(pos);
                for prod in self.table.grammar.rules[&top].prods() {
                    new_state.insert(Position::new(top.clone(), prod, 0, look.clone()));
                }
            }"""), (L, """    fn proc_closures(&mut self) {""", """    fn lookahead(&self, pos: &Position<T>) -> Set<T> {
        if let Some(locus) = pos.next() {
            self.table.first_of(&Set::from([locus]))
        } else {
            pos.look.clone()
        }
    }

    fn proc_closures(&mut self) {""")]
C["l_closure_start"] = [(L, """        let mut new_state = State::new();
        for pos in &state {
            if let Some(top)""", """        let mut new_state = state.clone();
        for pos in &state {
            if let Some(top)"""), (L, """        new_state.extend(state);
        new_state
    }

    fn proc""", """        new_state
    }

    fn proc""")]
C["l_closure_extend"] = [(L, """                for prod in self.table.grammar.rules[&top].prods() {
                    new_state.insert(Position::new(top.clone(), prod.clone(), 0, look.clone()));
                }""", """                new_state.extend(
                    self.table.grammar.rules[&top]
                        .prods()
                        .map(|prod| Position::new(top.clone(), prod, 0, look.clone())),
                );""")]
for nm, f in (("l", L), ("k", K), ("s", S)):
    sp = "start"
    C[nm + "_actions_iflet"] = [(f, """                    if map.contains_key(&term) && map[&term] != act {
                        *map.get_mut(&term).unwrap() =
                            Action::Conflict(Box::new(map.get(&term).unwrap().clone()), act.into());
                    } else {
                        map.insert(term, act);
                    }""", """                    match map.get(&term).cloned() {
                        Some(old) if old != act => {
                            map.insert(term, Action::Conflict(Box::new(old), Box::new(act)));
                        }
                        _ => {
                            map.insert(term, act);
                        }
                    }""")]
    C[nm + "_actions_remove"] = [(f, """                    if map.contains_key(&term) && map[&term] != act {
                        *map.get_mut(&term).unwrap() =
                            Action::Conflict(Box::new(map.get(&term).unwrap().clone()), act.into());
                    } else {
                        map.insert(term, act);
                    }""", """                    let cell = match map.remove(&term) {
                        Some(old) if old != act => Action::Conflict(Box::new(old), Box::new(act)),
                        _ => act,
                    };
                    map.insert(term, cell);""")]
    C[nm + "_actions_row_helper"] = [(f, """        for row in &self.table.states {
            let mut map: Map<T, Action<T>> = Map::new();
            for item in row {
                for (term, act) in self.decision(&start, item, row) {
                    if map.contains_key(&term) && map[&term] != act {
                        *map.get_mut(&term).unwrap() =
                            Action::Conflict(Box::new(map.get(&term).unwrap().clone()), act.into());
                    } else {
                        map.insert(term, act);
                    }
                }
            }
            self.table.actions.push(map);
        }
    }
""", """        for idx in 0..self.table.states.len() {
            let map = self.row_actions(&start, &self.table.states[idx]);
            self.table.actions.push(map);
        }
    }

    fn row_actions(&self, start: &T, row: &State<T>) -> Map<T, Action<T>> {
        let mut map: Map<T, Action<T>> = Map::new();
        for item in row {
            for (term, act) in self.decision(start, item, row) {
                if map.contains_key(&term) && map[&term] != act {
                    *map.get_mut(&term).unwrap() =
                        Action::Conflict(Box::new(map.get(&term).unwrap().clone()), act.into());
                } else {
                    map.insert(term, act);
                }
            }
        }
        map
    }
""")]
    C[nm + "_actions_map"] = [(f, """        for row in &self.table.states {
            let mut map: Map<T, Action<T>> = Map::new();
            for item in row {""", """        let rows = self.table.states.clone();
        for row in rows.iter() {
            let mut map: Map<T, Action<T>> = Map::new();
            for item in row.iter() {""")]
    C[nm + "_actions_flat"] = [(f, """            for item in row {
                for (term, act) in self.decision(&start, item, row) {""", """            {
                for (term, act) in row.iter().flat_map(|item| self.decision(&start, item, row)) {""")]
    C[nm + "_goto_match"] = [(f, """        if self.table.kernels.contains_key(&kernels) {
            None?;
        }
        let new = self.prop_closure(kernels.clone());
        if new.is_empty() {
            None
        } else {
            Some((kernels, new))
        }""", """        if self.table.kernels.contains_key(&kernels) {
            return None;
        }
        let new = self.prop_closure(kernels.clone());
        (!new.is_empty()).then_some((kernels, new))""")]
    C[nm + "_goto_nested"] = [(f, """        if self.table.kernels.contains_key(&kernels) {
            None?;
        }
        let new = self.prop_closure(kernels.clone());
        if new.is_empty() {
            None
        } else {
            Some((kernels, new))
        }""", """        if !self.table.kernels.contains_key(&kernels) {
            let new = self.prop_closure(kernels.clone());
            if !new.is_empty() {
                return Some((kernels, new));
            }
        }
        None""")]
    C[nm + "_goto_then"] = [(f, """        if new.is_empty() {
            None
        } else {
            Some((kernels, new))
        }""", """        (!new.is_empty()).then(|| (kernels, new))""")]
for nm, f, ep, v, look in (("l", L, "start", "locus", "pos.look"), ("k", K, "entry_point", "top", "pos.look"), ("s", S, "start", "locus", "self.table.follow[&pos.rule]")):
    old = """        pos.top().map_or_else(
            || {
                %s
                    .iter()
                    .map(|l| {
                        (
                            l.clone(),
                            if &pos.rule == %s {
                                Action::Acc
                            } else {
                                Action::Reduce(pos.rule.clone(), pos.seq.clone())
                            },
                        )
                    })
                    .collect()
            },
            |%s| {
                let filter = Tabler::sym_filter(row, &%s);
                let state = self
                    .state_from_kernel(&filter)
                    .expect("`kernels` is incomplete");
                if self.table.grammar.is_terminal(&%s) {
                    Map::from([(%s, Action::Shift(state))])
                } else {
                    Map::from([(%s, Action::Goto(state))])
                }
            },
        )""" % (look, ep, v, v, v, v, v)
    C[nm + "_decision_match"] = [(f, old, """        match pos.top() {
            None => {
                let action = if &pos.rule == %s {
                    Action::Acc
                } else {
                    Action::Reduce(pos.rule.clone(), pos.seq.clone())
                };
                %s.iter().map(|l| (l.clone(), action.clone())).collect()
            }
            Some(sym) => {
                let state = self
                    .state_from_kernel(&Tabler::sym_filter(row, &sym))
                    .expect("`kernels` is incomplete");
                let action = if self.table.grammar.is_terminal(&sym) {
                    Action::Shift(state)
                } else {
                    Action::Goto(state)
                };
                Map::from([(sym, action)])
            }
        }""" % (ep, look))]
    C[nm + "_decision_loop"] = [(f, old, """        let mut out = Map::new();
        let Some(sym) = pos.top() else {
            for l in &%s {
                if pos.rule == *%s {
                    out.insert(l.clone(), Action::Acc);
                } else {
                    out.insert(l.clone(), Action::Reduce(pos.rule.clone(), pos.seq.clone()));
                }
            }
            return out;
        };
        let kernel = Tabler::sym_filter(row, &sym);
        let state = self.state_from_kernel(&kernel).unwrap();
        let terminal = self.table.grammar.is_terminal(&sym);
        out.insert(sym, if terminal { Action::Shift(state) } else { Action::Goto(state) });
        out""" % (look, ep))]
C["k_closures_for"] = [(K, """            for s in self.table.grammar.symbols() {
                let Some((kernel, closures)) = self.goto(&self.table.states[idx], &s) else {
                    continue;
                };
                let old_val = self.table.kernels.insert(kernel, self.table.states.len());
                debug_assert!(old_val.is_none());
                self.table.states.push(closures);
            }""", """            for s in self.table.grammar.symbols() {
                if let Some((kernel, closures)) = self.goto(&self.table.states[idx], &s) {
                    let next = self.table.states.len();
                    self.table.states.push(closures);
                    let old_val = self.table.kernels.insert(kernel, next);
                    debug_assert!(old_val.is_none());
                }
            }""")]
C["k_closures_syms"] = [(K, """        let mut idx = 0;
        while idx < self.table.states.len() {
            for s in self.table.grammar.symbols() {""", """        let symbols: Vec<_> = self.table.grammar.symbols().collect();
        let mut idx = 0;
        while idx < self.table.states.len() {
            for s in symbols.iter().cloned() {""")]
C["s_closures_loop"] = [(S, """        while idx < self.table.states.len() {
            let row""", """        loop {
            if idx >= self.table.states.len() {
                break;
            }
            let row""")]
C["s_closures_expand"] = [(S, """            let row = self.table.states[idx].clone();
            for s in""", """            self.expand_row(idx);
            idx += 1;
        }
    }

    fn expand_row(&mut self, idx: usize) {
        {
            let row = self.table.states[idx].clone();
            for s in"""), (S, """            idx += 1;
        }
    }

    #[must_use]
    pub fn decision""", """        }
    }

    #[must_use]
    pub fn decision""")]
C["l_closures_match"] = [(L, """                if let Some(main_kernel) = self.raws.get(&raw_kernel).cloned() {
                    let Some(nk) = self.update_state(&main_kernel, kernel, closures) else {
                        continue;
                    };
                    pending.insert(self.table.kernels[&nk]);
                } else {""", """                if let Some(main_kernel) = self.raws.get(&raw_kernel).cloned() {
                    if let Some(nk) = self.update_state(&main_kernel, kernel, closures) {
                        pending.insert(self.table.kernels[&nk]);
                    }
                } else {""")]
C["l_closures_id"] = [(L, """                    self.table.states.push(closures);
                    let old = self
                        .table
                        .kernels
                        .insert(kernel, self.table.states.len() - 1);
                    debug_assert!(old.is_none());
                    pending.insert(self.table.states.len() - 1);""", """                    let id = self.table.states.len();
                    self.table.states.push(closures);
                    let old = self.table.kernels.insert(kernel, id);
                    debug_assert!(old.is_none());
                    pending.insert(id);""")]
C["l_update_order"] = [(L, """        if &new_kernel == main {
            None?;
        }
""", """        if new_kernel == *main {
            return None;
        }
"""), (L, """        self.table.kernels.remove(main);
        self.table.states[state_id] = Self::merged(both_closures);

        self.raws
            .insert(Self::without_look(&new_kernel), new_kernel.clone());
""", """        self.raws
            .insert(Self::without_look(&new_kernel), new_kernel.clone());
        self.table.states[state_id] = Self::merged(both_closures);
        self.table.kernels.remove(main);
""")]
C["l_update_sets"] = [(L, """        let both_kernels = inc.into_iter().chain(main.clone()).collect();
        let new_kernel = Self::merged(both_kernels);
""", """        let mut both_kernels = inc;
        both_kernels.extend(main.iter().cloned());
        let new_kernel = Self::merged(both_kernels);
"""), (L, """        let both_closures = self.table.states[state_id]
            .clone()
            .into_iter()
            .chain(closures)
            .collect();
""", """        let both_closures = &self.table.states[state_id] | &closures;
""")]
C["l_final_kernel_inline"] = [(L, """        let raw = Self::without_look(kernel);
        self.raws.get(&raw)""", """        self.raws.get(&Self::without_look(kernel))""")]
C["l_with_table"] = [(L, """        let mut parser = Self::uninit(table);
        parser.proc_actions();
        parser""", """        let mut parser = Self {
            table,
            raws: Map::new(),
        };
        parser.proc_actions();
        parser""")]

CASES = C
