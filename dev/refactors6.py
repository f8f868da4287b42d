"""Behaviour-preserving edits, fourth lot: whole functions written anew, and some larger reshapings."""
import re
C = {}
CASES = C
P = "src/pos.rs"
D = "src/dfa.rs"
L = "src/lib.rs"
T = "src/tabler.rs"
G = "src/grammar.rs"
PA = "src/parser.rs"
LA = "src/lalr.rs"
CL = "src/clr.rs"
SL = "src/slr.rs"
B = "wop/src/builder.rs"
M = "wop/src/main.rs"


def FN(f, head):
    """The text of the function whose signature starts with `head`."""
    s = open("/repo/" + f).read()
    i = s.index(head)
    j = s.index("{\n", i)
    ind = s[s.rfind("\n", 0, i) + 1:i]
    ind = re.match(r"\s*", ind).group()
    k = s.index("\n" + ind + "}\n", j) + len(ind) + 3
    return s[i:k]


def R(f, head, new):
    return (f, FN(f, head), new.strip("\n").lstrip() + "\n")


# ----------------------------------------------------------------------------------- tabler
C["tabler_new_init"] = [R(T, "pub fn new(grammar: Grammar<T>) -> Self", """
    pub fn new(grammar: Grammar<T>) -> Self {
        let mut tabler = Self {
            grammar,
            first: Map::new(),
            follow: Map::new(),
            actions: Vec::new(),
            states: Vec::new(),
            kernels: Map::new(),
        };
        tabler.compute_first();
        tabler.compute_follow();
        tabler
    }

    fn compute_first(&mut self) {
        self.first = self.gen_first();
        self.proc_first();
    }

    fn compute_follow(&mut self) {
        self.follow = self.gen_follow();
        self.proc_follow();
    }
""")]
C["gen_first_expect"] = [R(T, "pub fn gen_first(&self)", """
    pub fn gen_first(&self) -> Table<T> {
        let mut table = Table::new();
        for rule in self.grammar.rules() {
            let mut firsts = Set::new();
            for prod in &rule.prods {
                let head = prod.0.first().expect("productions should have at least one symbol");
                if *head != rule.name {
                    firsts.insert(head.clone());
                }
            }
            table.insert(rule.name.clone(), firsts);
        }
        table
    }
""")]
C["gen_first_head"] = [R(T, "pub fn gen_first(&self)", """
    pub fn gen_first(&self) -> Table<T> {
        self.grammar
            .rules()
            .map(|rule| {
                let firsts = rule
                    .prods()
                    .map(|prod| {
                        assert!(!prod.0.is_empty(), "productions should have at least one symbol");
                        prod.0[0].clone()
                    })
                    .filter(|head| head != &rule.name)
                    .collect::<Set<T>>();
                (rule.name.clone(), firsts)
            })
            .collect()
    }
""")]
C["gen_follow_windows"] = [R(T, "pub fn gen_follow(&self)", """
    pub fn gen_follow(&self) -> Table<T> {
        let basis = self.basis_pos();
        let mut table = Table::from([(basis.rule, basis.look)]);

        for rule in self.grammar.rules() {
            for prod in rule.prods() {
                for pair in prod.0.windows(2) {
                    let (current, following) = (&pair[0], &pair[1]);
                    if self.grammar.is_terminal(current) {
                        continue;
                    }
                    let entry = table.entry(current.clone()).or_default();
                    if self.grammar.is_terminal(following) {
                        entry.insert(following.clone());
                    } else {
                        entry.extend(self.first[following].iter().cloned());
                    }
                }
                let last = prod.0.last().unwrap();
                if !self.grammar.is_terminal(last) && last != &rule.name {
                    table.entry(last.clone()).or_default().insert(rule.name.clone());
                }
            }
        }
        table
    }
""")]
C["gen_follow_zip_skip"] = [R(T, "pub fn gen_follow(&self)", """
    pub fn gen_follow(&self) -> Table<T> {
        let basis = self.basis_pos();
        let mut table = Table::from([(basis.rule, basis.look)]);

        for rule in self.grammar.rules() {
            for prod in rule.prods() {
                let symbols = &prod.0;
                for (current, following) in symbols.iter().zip(symbols.iter().skip(1)) {
                    if !self.grammar.is_terminal(current) {
                        let start = self.start_of(following);
                        table.entry(current.clone()).or_default().extend(start);
                    }
                }
                let last = symbols.last().unwrap();
                if self.grammar.is_terminal(last) || last == &rule.name {
                    continue;
                }
                table.entry(last.clone()).or_default().insert(rule.name.clone());
            }
        }
        table
    }

    fn start_of(&self, symbol: &T) -> Set<T> {
        if self.grammar.is_terminal(symbol) {
            Set::from([symbol.clone()])
        } else {
            self.first[symbol].clone()
        }
    }
""")]
C["gen_follow_enumerate"] = [R(T, "pub fn gen_follow(&self)", """
    pub fn gen_follow(&self) -> Table<T> {
        let basis = self.basis_pos();
        let mut table = Table::new();
        table.insert(basis.rule, basis.look);

        for rule in self.grammar.rules() {
            for prod in &rule.prods {
                let symbols = &prod.0;
                let last_idx = symbols.len() - 1;
                for (idx, symbol) in symbols.iter().enumerate() {
                    if self.grammar.is_terminal(symbol) {
                        continue;
                    }
                    if idx < last_idx {
                        let following = &symbols[idx + 1];
                        let entry = table.entry(symbol.clone()).or_default();
                        if self.grammar.is_terminal(following) {
                            entry.insert(following.clone());
                        } else {
                            entry.extend(self.first[following].clone());
                        }
                    } else if symbol != &rule.name {
                        table.entry(symbol.clone()).or_default().insert(rule.name.clone());
                    }
                }
            }
        }
        table
    }
""")]
PF = """
    pub fn proc_first(&mut self) {
        let first = transitive(self.first.clone(), |t| self.first_step(&t));
        self.first = self.only_terminals(first);
        debug_assert!(self.first.values().flatten().all(|t| self.grammar.is_terminal(t)));
    }

    fn only_terminals(&self, table: Table<T>) -> Table<T> {
        table
            .into_iter()
            .map(|(name, terms)| {
                let kept = terms.into_iter().filter(|t| self.grammar.is_terminal(t)).collect();
                (name, kept)
            })
            .collect()
    }
"""
PFO = """
    pub fn proc_follow(&mut self) {
        let follow = transitive(self.follow.clone(), |t| self.follow_step(&t));
        self.follow = self.only_terminals(follow);
        debug_assert!(self.follow.values().flatten().all(|t| self.grammar.is_terminal(t)));
    }
"""
C["proc_only_terminals"] = [R(T, "pub fn proc_first(&mut self)", PF), R(T, "pub fn proc_follow(&mut self)", PFO)]
C["proc_nonterm_assert"] = [R(T, "pub fn proc_first(&mut self)", """
    pub fn proc_first(&mut self) {
        let mut closed = transitive(self.first.clone(), |table| self.first_step(&table));
        let grammar = &self.grammar;
        closed.values_mut().for_each(|set| set.retain(|sym| grammar.is_terminal(sym)));
        debug_assert!(!closed.values().any(|set| set.iter().any(|sym| !grammar.is_terminal(sym))));
        self.first = closed;
    }
""")]
C["first_step_acc"] = [R(T, "pub fn first_step(&self", """
    pub fn first_step(&self, input: &Table<T>) -> Table<T> {
        let mut table = Table::new();
        for (name, firsts) in input {
            let mut acc = firsts.clone();
            for first in firsts {
                if !self.grammar.is_terminal(first) {
                    let nested = input.get(first).unwrap_or_else(|| {
                        panic!("{name:?} was not listed as terminal or non-terminal")
                    });
                    acc.extend(nested.iter().cloned());
                }
            }
            acc.remove(name);
            table.insert(name.clone(), acc);
        }
        table
    }
""")]
C["first_step_map"] = [R(T, "pub fn first_step(&self", """
    pub fn first_step(&self, input: &Table<T>) -> Table<T> {
        input
            .iter()
            .map(|(name, firsts)| {
                let mut expanded: Set<T> = firsts
                    .iter()
                    .filter(|first| !self.grammar.is_terminal(first))
                    .flat_map(|first| {
                        input
                            .get(first)
                            .unwrap_or_else(|| {
                                panic!("{name:?} was not listed as terminal or non-terminal")
                            })
                            .iter()
                            .cloned()
                    })
                    .collect();
                expanded.extend(firsts.iter().cloned());
                expanded.remove(name);
                (name.clone(), expanded)
            })
            .collect()
    }
""")]
C["first_step_match"] = [R(T, "pub fn first_step(&self", """
    pub fn first_step(&self, input: &Table<T>) -> Table<T> {
        let mut table = input.clone();
        for (name, firsts) in input {
            let entry = table.get_mut(name).unwrap();
            for first in firsts {
                match input.get(first) {
                    Some(nested) if !self.grammar.is_terminal(first) => entry.extend(nested.clone()),
                    None if !self.grammar.is_terminal(first) => {
                        panic!("{name:?} was not listed as terminal or non-terminal")
                    }
                    _ => {}
                }
            }
            entry.remove(name);
        }
        table
    }
""")]
C["follow_step_acc"] = [R(T, "pub fn follow_step(&self", """
    pub fn follow_step(&self, input: &Table<T>) -> Table<T> {
        let mut table = Table::new();
        for (noterm, terms) in input {
            let mut expanded = Set::new();
            for term in terms {
                expanded.insert(term.clone());
                if self.grammar.is_terminal(term) {
                    continue;
                }
                if let Some(set) = input.get(term) {
                    expanded.extend(set.iter().cloned());
                }
            }
            expanded.remove(noterm);
            table.insert(noterm.clone(), expanded);
        }
        table
    }
""")]
C["follow_step_filter"] = [R(T, "pub fn follow_step(&self", """
    pub fn follow_step(&self, input: &Table<T>) -> Table<T> {
        input
            .iter()
            .map(|(noterm, terms)| {
                let inherited = terms
                    .iter()
                    .filter(|term| !self.grammar.is_terminal(term))
                    .filter_map(|term| input.get(term))
                    .flatten();
                let expanded = terms
                    .iter()
                    .chain(inherited)
                    .filter(|term| *term != noterm)
                    .cloned()
                    .collect();
                (noterm.clone(), expanded)
            })
            .collect()
    }
""")]
C["first_of_match"] = [R(T, "pub fn first_of(&self", """
    pub fn first_of(&self, items: &Set<T>) -> Set<T> {
        items
            .iter()
            .map(|item| {
                self.first
                    .get(item)
                    .cloned()
                    .unwrap_or_else(|| Set::from([item.clone()]))
            })
            .flatten()
            .collect()
    }
""")]
C["first_of_mut_fold"] = [R(T, "pub fn first_of(&self", """
    pub fn first_of(&self, items: &Set<T>) -> Set<T> {
        items.iter().fold(Set::new(), |mut firsts, item| {
            match self.first.get(item) {
                Some(first) => firsts.extend(first.iter().cloned()),
                None => {
                    firsts.insert(item.clone());
                }
            }
            firsts
        })
    }
""")]
C["sym_filter_two"] = [R(T, "pub fn sym_filter(state", """
    pub fn sym_filter(state: &State<T>, sym: &T) -> State<T> {
        state
            .iter()
            .filter(|pos| pos.top().map_or(false, |top| &top == sym))
            .filter_map(Position::clone_next)
            .collect()
    }
""")]
C["sym_filter_loop"] = [R(T, "pub fn sym_filter(state", """
    pub fn sym_filter(state: &State<T>, sym: &T) -> State<T> {
        let mut advanced = State::new();
        for pos in state {
            match pos.top() {
                Some(top) if top == *sym => advanced.extend(pos.clone_next()),
                _ => continue,
            }
        }
        advanced
    }
""")]
C["conflicts_nested"] = [R(T, "pub fn conflicts(&self)", """
    pub fn conflicts(&self) -> impl Iterator<Item = &Action<T>> + '_ {
        self.actions.iter().flat_map(|row| {
            row.values().filter(|action| matches!(action, Action::Conflict(_, _)))
        })
    }
""")]
C["conflicts_filter_map"] = [R(T, "pub fn conflicts(&self)", """
    pub fn conflicts(&self) -> impl Iterator<Item = &Action<T>> + '_ {
        self.actions.iter().flatten().filter_map(|(_, action)| match action {
            Action::Conflict(..) => Some(action),
            _ => None,
        })
    }
""")]
C["update_entry_inplace"] = [R(T, "pub fn update_entry(", """
    pub fn update_entry(entry: &mut Action<T>, travel: &Map<usize, usize>) {
        match entry {
            Action::Goto(n) | Action::Shift(n) => *n = travel[n],
            Action::Conflict(a, b) => {
                for side in [a, b] {
                    Self::update_entry(side, travel);
                }
            }
            Action::Acc | Action::Reduce(..) => {}
        }
    }
""")]
C["update_entry_inplace2"] = [R(T, "pub fn update_entry(", """
    pub fn update_entry(entry: &mut Action<T>, travel: &Map<usize, usize>) {
        if let Action::Conflict(first, second) = entry {
            Self::update_entry(first, travel);
            Self::update_entry(second, travel);
        } else if let Action::Goto(target) | Action::Shift(target) = entry {
            let moved = travel[&*target];
            *target = moved;
        }
    }
""")]
C["reduce_equals_for"] = [R(T, "pub fn reduce_equals(&mut self)", """
    pub fn reduce_equals(&mut self) {
        let (travel, mut rows) = self.reduced_actions();
        for row in &mut rows {
            for action in row.values_mut() {
                Self::update_entry(action, &travel);
            }
        }
        self.actions = rows;
    }
""")]
C["reduced_entry"] = [R(T, "pub fn reduced_actions(&self)", """
    pub fn reduced_actions(&self) -> (Map<usize, usize>, ActTable<T>) {
        let mut seen: Map<Map<T, Action<T>>, usize> = Map::new();
        let mut travel = Map::new();
        let mut rows = Vec::new();
        for (old, row) in self.actions.iter().enumerate() {
            let new = *seen.entry(row.clone()).or_insert_with(|| {
                rows.push(row.clone());
                rows.len() - 1
            });
            travel.insert(old, new);
        }
        debug_assert!(rows.len() <= self.states.len());
        (travel, rows)
    }
""")]
C["reduced_get"] = [R(T, "pub fn reduced_actions(&self)", """
    pub fn reduced_actions(&self) -> (Map<usize, usize>, ActTable<T>) {
        let mut known: Map<&Map<T, Action<T>>, usize> = Map::new();
        let mut travel = Map::new();
        let mut rows: ActTable<T> = Vec::with_capacity(self.actions.len());
        for (old, row) in self.actions.iter().enumerate() {
            let target = if let Some(idx) = known.get(row) {
                *idx
            } else {
                let idx = rows.len();
                known.insert(row, idx);
                rows.push(row.clone());
                idx
            };
            travel.insert(old, target);
        }
        debug_assert!(rows.len() <= self.states.len());
        (travel, rows)
    }
""")]
C["reduced_position"] = [R(T, "pub fn reduced_actions(&self)", """
    pub fn reduced_actions(&self) -> (Map<usize, usize>, ActTable<T>) {
        let mut rows: ActTable<T> = Vec::new();
        let mut travel = Map::new();
        for (old, row) in self.actions.iter().enumerate() {
            let target = rows.iter().position(|r| r == row).unwrap_or_else(|| {
                rows.push(row.clone());
                rows.len() - 1
            });
            travel.insert(old, target);
        }
        debug_assert!(rows.len() <= self.states.len());
        (travel, rows)
    }
""")]
# -------------------------------------------------------------------------------------- dfa
C["shift_enter2"] = [R(D, "pub fn shift(&mut self", """
    pub fn shift(&mut self, to: usize) -> BaseResult<(), Error<M>> {
        match self.buffer.next() {
            None => Err(Error::UnexpectedEof),
            Some(token) => {
                self.items.push(token);
                self.enter(to);
                Ok(())
            }
        }
    }

    fn enter(&mut self, state: usize) {
        self.top = state;
        self.states.push(state);
    }
"""), R(D, "pub fn goto(&mut self", """
    pub fn goto(&mut self, to: usize) -> BaseResult<(), Error<M>> {
        self.enter(to);
        Ok(())
    }
""")]
C["accept_if_err"] = [R(D, "pub fn accept(&mut self", """
    pub fn accept(&mut self) -> BaseResult<(), Error<M>> {
        self.finished = true;
        if self.buffer.peek().is_some() {
            return Err(Error::IncompleteExec);
        }
        Ok(())
    }
""")]
C["accept_ok_or"] = [R(D, "pub fn accept(&mut self", """
    pub fn accept(&mut self) -> BaseResult<(), Error<M>> {
        let exhausted = self.buffer.peek().is_none();
        self.finished = true;
        exhausted.then_some(()).ok_or(Error::IncompleteExec)
    }
""")]
C["trace_lookahead"] = [R(D, "pub fn trace(&mut self", """
    pub fn trace(&mut self, mut f: impl FnMut(&mut Self)) -> BaseResult<(), Error<M>> {
        loop {
            if self.finished {
                return Ok(());
            }
            f(self);
            let symbol = self.lookahead();
            self.travel(&symbol)?;
        }
    }

    fn lookahead(&mut self) -> M {
        match self.buffer.peek() {
            Some(token) => token.ty.clone(),
            None => self.eof.clone(),
        }
    }
""")]
C["trace_unwrap_or"] = [R(D, "pub fn trace(&mut self", """
    pub fn trace(&mut self, mut f: impl FnMut(&mut Self)) -> BaseResult<(), Error<M>> {
        while !self.finished {
            f(self);
            let next = self.buffer.peek().map(|t| t.ty.clone());
            let symbol = next.unwrap_or_else(|| self.eof.clone());
            if let Err(e) = self.travel(&symbol) {
                return Err(e);
            }
        }
        Ok(())
    }
""")]
C["travel_flat"] = [R(D, "pub fn travel(&mut self", """
    pub fn travel(&mut self, symbol: &M) -> BaseResult<(), Error<M>> {
        let Some(state) = self.table.get(self.top) else {
            return Err(Error::StateNotSpecified);
        };
        match state.get(symbol) {
            None | Some(Action::Goto(_)) => {
                let expected = state
                    .iter()
                    .filter_map(|(sym, act)| match act {
                        Action::Goto(_) => None,
                        _ => Some(sym.clone()),
                    })
                    .collect();
                Err(Error::UnexpectedToken(symbol.clone(), expected))
            }
            Some(Action::Shift(to)) => {
                let to = *to;
                self.shift(to)
            }
            Some(Action::Reduce(name, prod)) => {
                let (name, prod) = (name.clone(), Rc::clone(prod));
                self.reduce(&name, &prod)
            }
            Some(Action::Acc) => self.accept(),
            Some(Action::Conflict(a, b)) => {
                Err(Error::Conflict(a.as_ref().clone(), b.as_ref().clone()))
            }
        }
    }
""")]
C["travel_expected"] = [R(D, "pub fn travel(&mut self", """
    pub fn travel(&mut self, symbol: &M) -> BaseResult<(), Error<M>> {
        let action = self.lookup(symbol)?;
        match action {
            Action::Shift(to) => self.shift(to),
            Action::Reduce(name, prod) => self.reduce(&name, &prod),
            Action::Acc => self.accept(),
            Action::Conflict(a, b) => Err(Error::Conflict(*a, *b)),
            Action::Goto(_) => unreachable!("gotos are never read from the buffer"),
        }
    }

    fn lookup(&self, symbol: &M) -> BaseResult<Action<M>, Error<M>> {
        let state = self.table.get(self.top).ok_or(Error::StateNotSpecified)?;
        match state.get(symbol) {
            Some(action) if !matches!(action, Action::Goto(_)) => Ok(action.clone()),
            _ => Err(Error::UnexpectedToken(symbol.clone(), Self::expected(state))),
        }
    }

    fn expected(state: &Map<M, Action<M>>) -> Vec<M> {
        let mut symbols = Vec::new();
        for (symbol, action) in state {
            if !matches!(action, Action::Goto(_)) {
                symbols.push(symbol.clone());
            }
        }
        symbols
    }
""")]
C["reduce_split_off"] = [R(D, "pub fn reduce(&mut self", """
    pub fn reduce(&mut self, name: &M, prod: &Production<M>) -> BaseResult<(), Error<M>> {
        let (symbols, index) = prod;
        let reductor = self.reductors[name][*index];
        let args = self.items.split_off(self.items.len() - symbols.len());
        let value = reductor(&args);
        self.items.push(Token::new(value, name.clone()));

        let remaining = self.states.len() - symbols.len();
        self.states.truncate(remaining);
        self.top = self.states[remaining - 1];

        let state = self.table.get(self.top).ok_or(Error::StateNotSpecified)?;
        if let Some(Action::Goto(to)) = state.get(name) {
            let to = *to;
            self.goto(to)
        } else {
            Err(Error::MissingPreviousState)
        }
    }
""")]
C["reduce_base"] = [R(D, "pub fn reduce(&mut self", """
    pub fn reduce(&mut self, name: &M, prod: &Production<M>) -> BaseResult<(), Error<M>> {
        let size = prod.0.len();
        let base = self.items.len() - size;
        debug_assert!(self.reductors.contains_key(name), "missing reductor table for {name:?}");
        let reductor = &self.reductors[name][prod.1];
        let item = reductor(&self.items[base..]);
        self.items.drain(base..);
        self.items.push(Token::new(item, name.clone()));

        let keep = self.states.len() - size;
        self.top = self.states[keep - 1];
        self.states.truncate(keep);
        self.goto_from_top(name)
    }

    fn goto_from_top(&mut self, name: &M) -> BaseResult<(), Error<M>> {
        let target = self
            .table
            .get(self.top)
            .ok_or(Error::StateNotSpecified)?
            .get(name)
            .and_then(|action| match action {
                Action::Goto(to) => Some(*to),
                _ => None,
            })
            .ok_or(Error::MissingPreviousState)?;
        self.goto(target)
    }
""")]
C["reset_assign"] = [R(D, "pub fn reset(&mut self)", """
    pub fn reset(&mut self) {
        self.states = vec![0];
        self.items = Vec::new();
        self.top = 0;
        self.finished = false;
    }
""")]
C["parse_and"] = [R(D, "pub fn parse(&mut self", """
    pub fn parse(&mut self, input: I) -> BaseResult<T, Error<M>> {
        self.reset();
        self.buffer = input.peekable();
        self.start()?;
        match self.items.pop() {
            Some(token) => {
                self.reset();
                Ok(token.item)
            }
            None => Err(Error::MissingPreviousState),
        }
    }
""")]
C["transparent_vec"] = [R(D, "pub fn transparent(", """
    pub fn transparent(table: &Tabler<M>, func: ReductFn<T, M>) -> ReductMap<T, M> {
        let mut reductors = ReductMap::new();
        for rule in table.grammar.rules() {
            reductors.insert(rule.name.clone(), vec![func; rule.prods.len()]);
        }
        reductors
    }
""")]
C["transparent_repeat"] = [R(D, "pub fn transparent(", """
    pub fn transparent(table: &Tabler<M>, func: ReductFn<T, M>) -> ReductMap<T, M> {
        table
            .grammar
            .rules
            .iter()
            .map(|(_, rule)| {
                let count = rule.prods().count();
                (rule.name.clone(), std::iter::repeat(func).take(count).collect())
            })
            .collect()
    }
""")]
# ----------------------------------------------------------------------------------- parser
C["dfa_eof_next"] = [R(PA, "fn dfa<M, I: Iterator", """
    fn dfa<M, I: Iterator<Item = Token<M, T>>>(
        &self,
        buffer: I,
        maps: ReductMap<M, T>,
    ) -> Dfa<M, T, I>
    where
        M: Clone,
    {
        let tables = self.tables();
        let eof = tables
            .grammar
            .basis
            .look
            .iter()
            .next()
            .cloned()
            .expect("the basis always has a lookahead");
        Dfa::new(buffer, tables.actions.clone(), maps, eof)
    }
""")]
C["parse_map_ok"] = [R(PA, "fn parse<M, I: IntoIterator", """
    fn parse<M, I: IntoIterator<Item = Token<M, T>>>(
        &self,
        buffer: I,
        maps: ReductMap<M, T>,
    ) -> BaseResult<M, Error<T>>
    where
        M: Clone,
    {
        let mut dfa = self.dfa(buffer.into_iter(), maps);
        dfa.start().and_then(|()| {
            dfa.items
                .pop()
                .map(|token| token.item)
                .ok_or(Error::MissingPreviousState)
        })
    }
""")]
C["state_from_kernel_q"] = [R(PA, "fn state_from_kernel(", """
    fn state_from_kernel(&self, kernel: &State<T>) -> Option<usize> {
        match self.final_kernel(kernel) {
            Some(known) => self.tables().kernels.get(known).map(|id| *id),
            None => None,
        }
    }
""")]
C["merged_take"] = [R(PA, "fn merged(states: State<T>)", """
    fn merged(states: State<T>) -> State<T> {
        let mut new = State::new();
        for mut state in states {
            let same = new.iter().find(|other: &&crate::Position<T>| other.body_eq(&state)).cloned();
            if let Some(other) = same {
                new.remove(&other);
                state.look.extend(other.look);
            }
            new.insert(state);
        }
        new
    }
""")]
C["merged_take2"] = [R(PA, "fn merged(states: State<T>)", """
    fn merged(states: State<T>) -> State<T> {
        states.into_iter().fold(State::new(), |mut new, mut state| {
            let same = new.iter().find(|other: &&crate::Position<T>| other.body_eq(&state)).cloned();
            if let Some(other) = same.and_then(|other| new.take(&other)) {
                state.look.extend(other.look);
            }
            new.insert(state);
            new
        })
    }
""")]
C["merged_map"] = [R(PA, "fn merged(states: State<T>)", """
    fn merged(states: State<T>) -> State<T> {
        let mut looks = crate::Map::new();
        for state in states {
            let crate::Position { rule, seq, point, look } = state;
            looks.entry((rule, seq, point)).or_insert_with(crate::Set::new).extend(look);
        }
        looks
            .into_iter()
            .map(|((rule, seq, point), look)| crate::Position::new(rule, seq, point, look))
            .collect()
    }
""")]
C["merged_nolook"] = [R(PA, "fn merged(states: State<T>)", """
    fn merged(states: State<T>) -> State<T> {
        let mut looks: crate::Map<crate::Position<T>, crate::Set<T>> = crate::Map::new();
        for state in states {
            looks.entry(state.no_look()).or_default().extend(state.look);
        }
        looks.into_iter().map(|(pos, look)| pos.with_look(look)).collect()
    }
""")]
# ----------------------------------------------------------------------------- the three tables
ROW = """
    fn action_row(&self, start: &T, row: &State<T>) -> Map<T, Action<T>> {
        let mut map: Map<T, Action<T>> = Map::new();
        for item in row {
            for (term, act) in self.decision(start, item, row) {
                Self::add_action(&mut map, term, act);
            }
        }
        map
    }

    fn add_action(map: &mut Map<T, Action<T>>, term: T, act: Action<T>) {
        let merged = match map.remove(&term) {
            Some(old) if old != act => Action::Conflict(Box::new(old), Box::new(act)),
            _ => act,
        };
        map.insert(term, merged);
    }
"""
ROW2 = """
    fn add_action(map: &mut Map<T, Action<T>>, term: T, act: Action<T>) {
        match map.get_mut(&term) {
            Some(old) if *old != act => {
                *old = Action::Conflict(Box::new(old.clone()), Box::new(act));
            }
            Some(_) => {}
            None => {
                map.insert(term, act);
            }
        }
    }
"""
ROW3 = """
    fn add_action(map: &mut Map<T, Action<T>>, term: T, act: Action<T>) {
        use std::collections::btree_map::Entry;
        match map.entry(term) {
            Entry::Vacant(slot) => {
                slot.insert(act);
            }
            Entry::Occupied(mut slot) => {
                if slot.get() != &act {
                    let old = slot.get().clone();
                    slot.insert(Action::Conflict(Box::new(old), Box::new(act)));
                }
            }
        }
    }
"""
for nm, f, vis in (("clr", CL, "pub "), ("slr", SL, "pub "), ("lalr", LA, "")):
    C[nm + "_actions_row"] = [R(f, vis + "fn proc_actions(&mut self)", """
    %sfn proc_actions(&mut self) {
        self.proc_closures();
        let start = self.table.basis_pos().rule;
        let rows: Vec<_> = self
            .table
            .states
            .iter()
            .map(|row| self.action_row(&start, row))
            .collect();
        self.table.actions.extend(rows);
    }
""" % vis + ROW)]
    C[nm + "_actions_getmut"] = [R(f, vis + "fn proc_actions(&mut self)", """
    %sfn proc_actions(&mut self) {
        self.proc_closures();
        let start = self.table.basis_pos().rule;
        for idx in 0..self.table.states.len() {
            let row = &self.table.states[idx];
            let mut map = Map::new();
            row.iter()
                .flat_map(|item| self.decision(&start, item, row))
                .for_each(|(term, act)| Self::add_action(&mut map, term, act));
            self.table.actions.push(map);
        }
    }
""" % vis + ROW2)]
    C[nm + "_actions_entry"] = [R(f, vis + "fn proc_actions(&mut self)", """
    %sfn proc_actions(&mut self) {
        self.proc_closures();
        let entry_point = self.table.grammar.basis.rule.clone();
        for row in &self.table.states {
            let mut map = Map::new();
            for item in row {
                let decision = self.decision(&entry_point, item, row);
                for (term, act) in decision {
                    Self::add_action(&mut map, term, act);
                }
            }
            self.table.actions.push(map);
        }
    }
""" % vis + ROW3)]
    C[nm + "_goto_then"] = [R(f, vis + "fn goto(&self", """
    %sfn goto(&self, kernels: &State<T>, sym: &T) -> Option<(State<T>, State<T>)> {
        let kernel = Tabler::sym_filter(kernels, sym);
        if self.table.kernels.contains_key(&kernel) {
            return None;
        }
        let closure = self.prop_closure(kernel.clone());
        (!closure.is_empty()).then_some((kernel, closure))
    }
""" % vis)]
    C[nm + "_goto_early"] = [R(f, vis + "fn goto(&self", """
    %sfn goto(&self, kernels: &State<T>, sym: &T) -> Option<(State<T>, State<T>)> {
        let kernel = Tabler::sym_filter(kernels, sym);
        match self.table.kernels.get(&kernel) {
            Some(_) => None,
            None => Some(self.prop_closure(kernel.clone()))
                .filter(|closure| !closure.is_empty())
                .map(|closure| (kernel, closure)),
        }
    }
""" % vis)]
    look = """pos.look""" if nm != "slr" else "self.table.follow[&pos.rule]"
    arg = "entry_point" if nm == "clr" else "start"
    C[nm + "_decision_match"] = [R(f, vis + "fn decision(", """
    %sfn decision(&self, %s: &T, pos: &Position<T>, row: &State<T>) -> Map<T, Action<T>> {
        match pos.top() {
            Some(symbol) => self.advance(symbol, row),
            None => self.complete(%s, pos),
        }
    }

    fn complete(&self, start: &T, pos: &Position<T>) -> Map<T, Action<T>> {
        let action = if &pos.rule == start {
            Action::Acc
        } else {
            Action::Reduce(pos.rule.clone(), pos.seq.clone())
        };
        %s.iter().map(|l| (l.clone(), action.clone())).collect()
    }

    fn advance(&self, symbol: T, row: &State<T>) -> Map<T, Action<T>> {
        let kernel = Tabler::sym_filter(row, &symbol);
        let state = self.state_from_kernel(&kernel).expect("`kernels` is incomplete");
        let action = if self.table.grammar.is_terminal(&symbol) {
            Action::Shift(state)
        } else {
            Action::Goto(state)
        };
        Map::from([(symbol, action)])
    }
""" % (vis, arg, arg, look))]
    C[nm + "_decision_loop"] = [R(f, vis + "fn decision(", """
    %sfn decision(&self, %s: &T, pos: &Position<T>, row: &State<T>) -> Map<T, Action<T>> {
        let mut decided = Map::new();
        if let Some(symbol) = pos.top() {
            let kernel = Tabler::sym_filter(row, &symbol);
            let target = match self.state_from_kernel(&kernel) {
                Some(target) => target,
                None => panic!("`kernels` is incomplete"),
            };
            let terminal = self.table.grammar.is_terminal(&symbol);
            let action = if terminal { Action::Shift(target) } else { Action::Goto(target) };
            decided.insert(symbol, action);
            return decided;
        }
        for look in &%s {
            let action = if pos.rule == *%s {
                Action::Acc
            } else {
                Action::Reduce(pos.rule.clone(), Rc::clone(&pos.seq))
            };
            decided.insert(look.clone(), action);
        }
        decided
    }
""" % (vis, arg, look, arg)), (f, "use std::fmt::Debug;", "use std::{fmt::Debug, rc::Rc};")]
    lk = "pos.next().map_or_else(|| pos.look.clone(), |sym| self.table.first_of(&Set::from([sym])))" if nm != "slr" else "Set::new()"
    C[nm + "_closure_iter"] = [R(f, vis + "fn closure(&self", """
    %sfn closure(&self, state: State<T>) -> State<T> {
        let expanded: State<T> = state
            .iter()
            .filter_map(|pos| pos.top().map(|top| (pos, top)))
            .filter(|(_, top)| !self.table.grammar.is_terminal(top))
            .flat_map(|(pos, top)| self.expand(pos, top))
            .collect();
        expanded.into_iter().chain(state).collect()
    }

    fn expand(&self, pos: &Position<T>, top: T) -> State<T> {
        let _ = pos;
        let look = %s;
        self.table.grammar.rules[&top]
            .prods()
            .map(|prod| Position::new(top.clone(), prod, 0, look.clone()))
            .collect()
    }
""" % (vis, lk))]
    C[nm + "_closure_clone"] = [R(f, vis + "fn closure(&self", """
    %sfn closure(&self, state: State<T>) -> State<T> {
        let mut result = state.clone();
        for pos in state {
            let Some(top) = pos.top() else { continue };
            let Some(rule) = self.table.grammar.rules.get(&top) else { continue };
            let look = %s;
            result.extend(
                rule.prods
                    .iter()
                    .map(|prod| Position::new(top.clone(), prod.clone(), 0, look.clone())),
            );
        }
        result
    }
""" % (vis, lk))]
    C[nm + "_closure_while"] = [R(f, vis + "fn prop_closure(&self", """
    %sfn prop_closure(&self, seed: State<T>) -> State<T> {
        let mut current = seed;
        loop {
            let expanded = self.closure(current.clone());
            if expanded == current {
                break expanded;
            }
            current = expanded;
        }
    }
""" % "pub ")]
for nm, f in (("clr", CL), ("slr", SL)):
    C[nm + "_closures_iflet"] = [R(f, "pub fn proc_closures(&mut self)", """
    pub fn proc_closures(&mut self) {
        self.proc_closures_first_row();
        let symbols: Vec<T> = self.table.grammar.symbols().collect();
        let mut current = 0;
        while current < self.table.states.len() {
            for symbol in &symbols {
                if let Some((kernel, closure)) = self.goto(&self.table.states[current], symbol) {
                    self.add_state(kernel, closure);
                }
            }
            current += 1;
        }
    }

    fn add_state(&mut self, kernel: State<T>, closure: State<T>) {
        let id = self.table.states.len();
        let old = self.table.kernels.insert(kernel, id);
        debug_assert!(old.is_none());
        self.table.states.push(closure);
    }
""")]
    C[nm + "_closures_loop"] = [R(f, "pub fn proc_closures(&mut self)", """
    pub fn proc_closures(&mut self) {
        self.proc_closures_first_row();
        let mut idx = 0;
        loop {
            let Some(row) = self.table.states.get(idx).cloned() else {
                break;
            };
            for s in self.table.grammar.symbols.iter() {
                match self.goto(&row, s) {
                    Some((kernel, closures)) => {
                        self.table.states.push(closures);
                        self.table.kernels.insert(kernel, self.table.states.len() - 1);
                    }
                    None => (),
                }
            }
            idx += 1;
        }
    }
""")]
C["lalr_closures_visit"] = [R(LA, "fn proc_closures(&mut self)", """
    fn proc_closures(&mut self) {
        self.proc_closures_first_row();
        let syms: Vec<_> = self.table.grammar.symbols().collect();
        let mut pending = Set::from([0]);
        while let Some(idx) = pending.pop_first() {
            let row = self.table.states[idx].clone();
            for s in &syms {
                if let Some(changed) = self.visit(&row, s) {
                    pending.insert(changed);
                }
            }
        }
    }

    fn visit(&mut self, row: &State<T>, sym: &T) -> Option<usize> {
        let (kernel, closures) = self.goto(row, sym)?;
        let raw_kernel = Self::without_look(&kernel);
        match self.raws.get(&raw_kernel).cloned() {
            Some(main_kernel) => {
                let updated = self.update_state(&main_kernel, kernel, closures)?;
                Some(self.table.kernels[&updated])
            }
            None => {
                let id = self.table.states.len();
                self.raws.insert(raw_kernel, kernel.clone());
                self.table.states.push(closures);
                let old = self.table.kernels.insert(kernel, id);
                debug_assert!(old.is_none());
                Some(id)
            }
        }
    }
""")]
C["lalr_closures_while"] = [R(LA, "fn proc_closures(&mut self)", """
    fn proc_closures(&mut self) {
        self.proc_closures_first_row();
        let syms: Vec<_> = self.table.grammar.symbols().collect();
        let mut pending = Set::new();
        pending.insert(0);
        while !pending.is_empty() {
            let idx = pending.pop_first().unwrap();
            let row = self.table.states[idx].clone();
            for s in &syms {
                let goto = self.goto(&row, s);
                if goto.is_none() {
                    continue;
                }
                let (kernel, closures) = goto.unwrap();
                let raw_kernel = Self::without_look(&kernel);
                if !self.raws.contains_key(&raw_kernel) {
                    let id = self.table.states.len();
                    self.table.kernels.insert(kernel.clone(), id);
                    self.raws.insert(raw_kernel, kernel);
                    self.table.states.push(closures);
                    pending.insert(id);
                    continue;
                }
                let main_kernel = self.raws[&raw_kernel].clone();
                if let Some(nk) = self.update_state(&main_kernel, kernel, closures) {
                    pending.insert(self.table.kernels[&nk]);
                }
            }
        }
    }
""")]
C["lalr_update_union"] = [R(LA, "pub fn update_state(", """
    pub fn update_state(
        &mut self,
        main: &State<T>,
        inc: State<T>,
        closures: State<T>,
    ) -> Option<State<T>> {
        let state_id = self.table.kernels.get(main).copied()?;
        let new_kernel = Self::union(main, inc);
        if new_kernel == *main {
            return None;
        }
        let new_closure = Self::union(&self.table.states[state_id], closures);
        self.table.states[state_id] = new_closure;

        self.table.kernels.remove(main);
        let old = self.table.kernels.insert(new_kernel.clone(), state_id);
        debug_assert!(old.is_none());

        let raw = Self::without_look(&new_kernel);
        self.raws.insert(raw, new_kernel.clone());
        Some(new_kernel)
    }

    fn union(old: &State<T>, mut new: State<T>) -> State<T> {
        new.extend(old.iter().cloned());
        Self::merged(new)
    }
""")]
C["lalr_update_ne"] = [R(LA, "pub fn update_state(", """
    pub fn update_state(
        &mut self,
        main: &State<T>,
        inc: State<T>,
        closures: State<T>,
    ) -> Option<State<T>> {
        let state_id = match self.table.kernels.get(main) {
            Some(id) => *id,
            None => return None,
        };
        let mut kernels = main.clone();
        kernels.extend(inc);
        let new_kernel = Self::merged(kernels);
        if &new_kernel != main {
            let mut items = self.table.states[state_id].clone();
            items.extend(closures);
            self.table.states[state_id] = Self::merged(items);
            self.table.kernels.remove(main);
            self.table.kernels.insert(new_kernel.clone(), state_id);
            self.raws.insert(Self::without_look(&new_kernel), new_kernel.clone());
            Some(new_kernel)
        } else {
            None
        }
    }
""")]
C["lalr_without_look_ext"] = [R(LA, "pub fn without_look(", """
    pub fn without_look(state: &State<T>) -> State<T> {
        let mut raw = State::new();
        raw.extend(state.iter().map(|pos| pos.clone().with_look(Set::new())));
        raw
    }
""")]
C["lalr_final_kernel_map"] = [R(LA, "fn final_kernel<'a>", """
    fn final_kernel<'a>(&'a self, kernel: &'a State<T>) -> Option<&'a State<T>> {
        self.raws.get(&Self::without_look(kernel))
    }
""")]
# --------------------------------------------------------------------------- grammar, lib, pos
C["grammar_new_flat"] = [R(G, "pub fn new(start: T, rules", """
    pub fn new(start: T, rules: RuleMap<T>, eof: T) -> Self {
        let mut terminals: Set<T> = rules
            .values()
            .flat_map(|rule| &rule.prods)
            .flat_map(|prod| &prod.0)
            .filter(|sym| !rules.contains_key(sym))
            .cloned()
            .collect();
        terminals.insert(eof.clone());
        let mut symbols: Set<T> = rules.keys().cloned().collect();
        symbols.extend(terminals.iter().cloned());

        let start_rule = &rules[&start];
        debug_assert!(start_rule.prods.len() == 1, "there's more than one possible entry");
        let basis = Position::new(start, Rc::clone(&start_rule.prods[0]), 0, Set::from([eof]));
        Self { rules, terminals, symbols, basis }
    }
""")]
C["grammar_new_union"] = [R(G, "pub fn new(start: T, rules", """
    pub fn new(start: T, rules: RuleMap<T>, eof: T) -> Self {
        let basis = Self::starting_position(start, &rules, &eof);
        let nonterminals: Set<T> = rules.keys().cloned().collect();
        let mut symbols = nonterminals.clone();
        symbols.insert(eof);
        for rule in rules.values() {
            for prod in &rule.prods {
                symbols.extend(prod.0.iter().cloned());
            }
        }
        let mut terminals = symbols.clone();
        terminals.retain(|sym| !nonterminals.contains(sym));
        terminals.extend(basis.look.iter().cloned());
        Self {
            rules,
            terminals,
            symbols,
            basis,
        }
    }

    fn starting_position(start: T, rules: &RuleMap<T>, eof: &T) -> Position<T> {
        let prods = &rules[&start].prods;
        debug_assert_eq!(prods.len(), 1, "there's more than one possible entry");
        Position::new(start, prods[0].clone(), 0, Set::from([eof.clone()]))
    }
""")]
C["rule_new_zip"] = [R(G, "pub fn new<I>(name: T, prods: I)", """
    pub fn new<I>(name: T, prods: I) -> Self
    where
        I: IntoIterator<Item = Vec<T>>,
    {
        let prods = prods.into_iter().zip(0..).map(Rc::new).collect();
        Self { name, prods }
    }
""")]
C["transitive_helper"] = [R(L, "pub fn transitive<T>(", """
    pub fn transitive<T>(seed: T, map: impl Fn(T) -> T) -> T
where
    T: Clone + PartialEq,
{
    let mut previous = seed;
    let mut current = map(previous.clone());
    while current != previous {
        previous = current;
        current = map(previous.clone());
    }
    current
}
""")]
C["transitive_replace"] = [R(L, "pub fn transitive<T>(", """
    pub fn transitive<T>(seed: T, map: impl Fn(T) -> T) -> T
where
    T: Clone + PartialEq,
{
    let mut val = seed;
    loop {
        let new = map(val.clone());
        let old = std::mem::replace(&mut val, new);
        if old == val {
            break val;
        }
    }
}
""")]
C["transitive_rec"] = [R(L, "pub fn transitive<T>(", """
    pub fn transitive<T>(seed: T, map: impl Fn(T) -> T) -> T
where
    T: Clone + PartialEq,
{
    std::iter::successors(Some(seed), |val| {
        let new = map(val.clone());
        (&new != val).then_some(new)
    })
    .last()
    .unwrap()
}
""")]
C["pos_clone_next_match"] = [R(P, "pub fn clone_next(&self)", """
    pub fn clone_next(&self) -> Option<Self> {
        (!self.finished()).then(|| Self {
            point: self.point + 1,
            ..self.clone()
        })
    }
""")]
C["pos_clone_next_q"] = [R(P, "pub fn clone_next(&self)", """
    pub fn clone_next(&self) -> Option<Self> {
        self.top()?;
        let mut advanced = self.clone();
        advanced.adv();
        Some(advanced)
    }
""")]
C["pos_peek_match"] = [R(P, "pub fn peek(&self", """
    pub fn peek(&self, qty: usize) -> Option<T> {
        self.seq.0.iter().nth(self.point + qty).cloned()
    }
""")]
C["pos_peek_skip"] = [R(P, "pub fn peek(&self", """
    pub fn peek(&self, qty: usize) -> Option<T> {
        let idx = self.point + qty;
        if idx < self.seq.0.len() {
            Some(self.seq.0[idx].clone())
        } else {
            None
        }
    }
""")]
C["pos_finished_top"] = [R(P, "pub fn finished(&self)", """
    pub fn finished(&self) -> bool {
        self.top().is_none()
    }
""")]
# ------------------------------------------------------------------------------------ builder
C["dump_imports"] = [R(B, "pub fn dump_grammar(&self", """
    pub fn dump_grammar(&self, src: &str) -> String {
        let mut out = self.preamble(src);
        out.push_str("\\tlet mut map = lrp::RuleMap::new();\\n");
        for (name, prods) in &self.rules {
            Self::write_rule(&mut out, name, prods, src);
        }
        out + "\\n\\tmap\\n}"
    }

    fn preamble(&self, src: &str) -> String {
        let mut out = String::from("{\\n");
        for import in &self.imports {
            out.push_str(&format!("\\tuse {};\\n", import.from_source(src)));
        }
        out
    }
"""), R(B, "pub fn dump_reductor(&self", """
    pub fn dump_reductor(&self, src: &str) -> String {
        assert!(!self.entry_type.is_empty(), "`entry_type` undefined");
        let mut out = self.preamble(src);
        out.push_str("\\tlet mut map = lrp::ReductMap::new();\\n\\n");
        for (name, prods) in &self.rules {
            Self::write_rule_reduction(&mut out, &self.entry_type, name, prods, src);
        }
        out.push_str("\\tmap\\n}");
        out
    }
""")]
C["write_rule_fmt"] = [R(B, "pub fn write_rule(out", """
    pub fn write_rule(out: &mut String, name: &str, prods: &RuleBuild, src: &str) {
        *out += &format!("\\tmap.insert({name}, lrp::grammar::Rule::new({name}, vec![\\n");
        for prod in prods {
            let symbols: String = prod
                .production
                .iter()
                .map(|sym| format!("{}, ", sym.from_source(src)))
                .collect();
            *out += &format!("\\t\\tvec![{symbols}],\\n");
        }
        *out += "\\n\\t]));\\n";
    }
""")]
C["alias_write_pair"] = [R(B, "pub fn write(&self, out", """
    pub fn write(&self, out: &mut impl Write, src: &str) -> Result<(), std::fmt::Error> {
        let alias = self.alias.from_source(src);
        let index = match self.final_index {
            Some(end) => format!("{}..{}", self.index, end),
            None => format!("{}", self.index),
        };
        let (prefix, suffix) = match (self.clone, self.final_index.is_some()) {
            (true, true) => ("toks[", "].to_vec()"),
            (true, false) => ("toks[", "].clone()"),
            (false, _) => ("&toks[", "]"),
        };
        let value = |idx: &str| format!("{prefix}{idx}{suffix}");
        match self.optional {
            Some(true) => writeln!(out, "let {alias} = Some({});", value(&index)),
            Some(false) => writeln!(
                out,
                "let mut {alias} = Some({}); {alias} = None; let {alias} = {alias};",
                value("0")
            ),
            None => writeln!(out, "let {alias} = {};", value(&index)),
        }
    }
""")]
C["push_alias_offset"] = [R(B, "pub fn push_alias(&mut self", """
    pub fn push_alias(&mut self, alias: ItemAlias) {
        let offset = self.production.len();
        let shifted = ItemAlias {
            index: alias.index + offset,
            final_index: alias.final_index.map(|end| end + offset),
            ..alias
        };
        self.aliases.push(shifted);
    }
""")]
C["get_production_fold"] = [R(B, "fn get_production(&self", """
    fn get_production(&self, origin: &[ProductionBuild], pipe: &[Gramem], src: &str) -> RuleBuild {
        if pipe.is_empty() {
            return origin.to_vec();
        }
        origin
            .iter()
            .map(|base| self.get_from_single_production(base, pipe, src))
            .collect::<Vec<_>>()
            .concat()
    }
""")]
C["rule_decl_base"] = [R(B, "fn rule_decl(&mut self", """
    fn rule_decl(&mut self, rule_ident: SrcRef, rule_ty: SrcRef, rule: &[RulePipe], src: &str) {
        let name = rule_ident.from_source(src);
        let mut rules = Vec::new();
        for (pipe, codeblock) in rule {
            assert!(
                !codeblock.from_source(src).is_empty(),
                "missing code block for {name:?}"
            );
            let base = ProductionBuild {
                production: vec![],
                codeblock: *codeblock,
                ty: rule_ty,
                aliases: vec![],
            };
            rules.append(&mut self.get_production(&[base], pipe, src));
        }
        let previous = self.rules.insert(name.to_string(), rules);
        assert!(previous.is_none(), "rule {name} was already defined");
    }
""")]
C["sub_aliases_missing"] = [R(B, "pub fn set_sub_aliases(&self", """
    pub fn set_sub_aliases(&self, base: &ProductionBuild, productions: &mut RuleBuild, src: &str) {
        let known: BTreeSet<SrcRef> = base.aliases.iter().map(|a| a.alias).collect();
        let mut added: BTreeSet<SrcRef> = BTreeSet::new();
        for prod in productions.iter() {
            for alias in &prod.aliases {
                if !known.contains(&alias.alias) {
                    added.insert(alias.alias);
                }
            }
        }
        for prod in productions {
            for name in &added {
                let found = prod
                    .aliases
                    .iter_mut()
                    .find(|a| a.alias.from_source(src) == name.from_source(src));
                match found {
                    Some(alias) => {
                        if alias.optional.is_none() {
                            alias.optional = Some(true);
                        }
                    }
                    None => prod.aliases.push(Self::missing(*name)),
                }
            }
        }
    }

    fn missing(alias: SrcRef) -> ItemAlias {
        ItemAlias {
            alias,
            optional: Some(false),
            index: 0,
            final_index: None,
            clone: false,
        }
    }
""")]
C["reduction_body"] = [R(B, "pub fn write_rule_reduction(", """
    pub fn write_rule_reduction(
        out: &mut String,
        entry_type: &str,
        name: &str,
        prods: &RuleBuild,
        src: &str,
    ) {
        let ty = prods[0].ty.from_source(src);
        for (i, prod) in prods.iter().enumerate() {
            let bindings: String = prod.aliases.iter().map(|alias| alias.dump(src)).collect();
            let code = prod.codeblock.from_source(src);
            let body = code.strip_prefix("->").unwrap().strip_suffix('%').unwrap();
            let span = "lrp::Span::new(toks[0].item.span.start, toks.last().unwrap().item.span.end)";
            out.push_str(&format!("\\tfn lrp_wop_{name}_{i}(toks: &[{entry_type}]) -> lrp::Meta<{ty}> {{\\n"));
            out.push_str(&format!("\\t\\tlrp::Meta::new({{ {bindings} {body}}}, {span})\\n\\t}}\\n"));
        }
        let names: Vec<String> = (0..prods.len()).map(|i| format!("lrp_wop_{name}_{i}, ")).collect();
        out.push_str(&format!("\\tmap.insert({name}, vec![{}\\t]);\\n\\n", names.concat()));
    }
""")]
C["process_split"] = [R(B, "pub fn process(&mut self", """
    pub fn process(&mut self, ast: &Gramem, src: &str) {
        Self::get_program_instructions(ast)
            .iter()
            .for_each(|decl| self.process_decl(&decl.item.item, src));
    }

    fn process_decl(&mut self, decl: &Ast, src: &str) {
        match decl {
            Ast::Import(path) => self.use_decl(*path),
            Ast::Alias(token, alias) => self.token_decl(*token, *alias, src),
            Ast::RuleDecl((ident, ty, pipes)) => self.rule_decl(*ident, *ty, pipes, src),
            other => unreachable!("unexpected {other:?} in code builder"),
        }
    }
""")]
C["token_decl_if"] = [R(B, "fn token_decl(&mut self", """
    fn token_decl(&mut self, tk: SrcRef, alias: SrcRef, src: &str) {
        let name = tk.from_source(src);
        if self.aliases.insert(name.to_owned(), alias).is_some() {
            panic!("overriding an already defined alias: {} to {} ", name, alias.from_source(src));
        }
    }
""")]
C["from_str_and_then"] = [R(B, "fn from_str(s: &str)", """
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        let mut dfa = crate::build_parser(crate::lexer(s));
        dfa.start().map(|()| {
            let mut builder = Self::new(String::new());
            builder.process(&dfa.items[0], s);
            builder
        })
    }
""")]
SINGLE_OPT = """            if is_optional {
                let mut ignored_prod = prod.clone();
                ignored_prod.production.pop();
                if alias.is_some() {
                    ignored_prod.aliases.last_mut().unwrap().optional = Some(false);
                }
                if i < pipe.len() {
                    return self.get_production(&[prod, ignored_prod], &pipe[i + 1..], src);
                }
                return vec![prod, ignored_prod];
            }
"""
C["single_opt_helper"] = [(B, SINGLE_OPT, """            if is_optional {
                let ignored_prod = Self::without_last(&prod, alias.is_some());
                return self.get_production(&[prod, ignored_prod], &pipe[i + 1..], src);
            }
"""), (B, "    pub fn set_sub_aliases(&self", """    fn without_last(prod: &ProductionBuild, aliased: bool) -> ProductionBuild {
        let mut shorter = prod.clone();
        shorter.production.pop();
        if aliased {
            if let Some(alias) = shorter.aliases.last_mut() {
                alias.optional = Some(false);
            }
        }
        shorter
    }

    pub fn set_sub_aliases(&self""")]
C["single_get_def"] = [(B, """            match item.ty {
                Sym::StrLit => prod.production.push(*get_definition(true)),
                Sym::IdentPath => prod.production.push(*get_definition(false)),
                Sym::Rule""", """            match item.ty {
                Sym::StrLit | Sym::IdentPath => {
                    prod.production.push(*get_definition(item.ty == Sym::StrLit));
                }
                Sym::Rule""")]
C["single_option_then"] = [(B, "optional: if is_optional { Some(true) } else { None },", "optional: is_optional.then_some(true),")]
C["single_ignored_loop"] = [(B, """                            for alias in &prods[0].aliases {
                                if !ignored_prod.aliases.iter().any(|a| a.alias == alias.alias) {
                                    let item_alias = ItemAlias {
                                        alias: alias.alias,
                                        optional: Some(false),
                                        index: 0,
                                        final_index: None,
                                        clone,
                                    };
                                    ignored_prod.aliases.push(item_alias);
                                }
                            }
""", """                            for name in prods[0].aliases.iter().map(|a| a.alias) {
                                let bound = ignored_prod.aliases.iter().any(|a| a.alias == name);
                                if bound {
                                    continue;
                                }
                                ignored_prod.aliases.push(ItemAlias {
                                    alias: name,
                                    optional: Some(false),
                                    index: 0,
                                    final_index: None,
                                    clone,
                                });
                            }
""")]
C["single_variants"] = [(B, """                            if alias.is_some() {
                                for new in &mut news {
                                    new.aliases[prod.aliases.len() - 1].final_index =
                                        Some(new.production.len());
                                }
                            }
                            prods.extend(news);
""", """                            if alias.is_some() {
                                let own = prod.aliases.len() - 1;
                                news.iter_mut().for_each(|new| {
                                    let end = new.production.len();
                                    new.aliases[own].final_index = Some(end);
                                });
                            }
                            prods.append(&mut news);
""")]
C["main_finish"] = [(M, """    res?;

    println!("BUILDING OUTPUT");""", """    if let Err(e) = res {
        return Err(e);
    }

    println!("BUILDING OUTPUT");""")]
C["main_write_helper"] = [(M, """    println!("WRITING DUMP");
    let start = Instant::now();
    let out = File::create("out.rs")?;
    let mut writer = BufWriter::new(out);
""", """    println!("WRITING DUMP");
    let start = Instant::now();
    let mut writer = open_output()?;
"""), (M, "const TAB_C", """fn open_output() -> std::io::Result<BufWriter<File>> {
    File::create("out.rs").map(BufWriter::new)
}

const TAB_C""")]
