"""Rewrites that keep the behaviour: printed forms, the demonstration program, the grammar macro."""
POS, DFA, MAIN, LIB = "src/pos.rs", "src/dfa.rs", "src/main.rs", "src/lib.rs"
CASES = {}


def case(name, *edits):
    CASES[name] = list(edits)


DISP = """        f.write_fmt(format_args!("{:?} =", self.rule))?;
        for i in 0..=self.point.max(self.seq.0.len()) {
            f.write_char(' ')?;
            if i == self.point {
                f.write_str(". ")?;
            }
            if let Some(term) = self.abs_idx(i) {
                f.write_fmt(format_args!("{term:?}"))?;
            }
        }
        f.write_fmt(format_args!(" {:?}", self.look))"""
case("disp_write_macro", (POS, DISP, DISP.replace('f.write_fmt(format_args!("{:?} =", self.rule))?', 'write!(f, "{:?} =", self.rule)?')
     .replace('f.write_fmt(format_args!(" {:?}", self.look))', 'write!(f, " {:?}", self.look)')))
case("disp_get", (POS, DISP, DISP.replace("self.abs_idx(i)", "self.seq.0.get(i)")))
case("disp_end_let", (POS, DISP, "        let end = self.point.max(self.seq.0.len()) + 1;\n" + DISP.replace("0..=self.point.max(self.seq.0.len())", "0..end")))
case("disp_end_if", (POS, DISP, "        let len = self.seq.0.len();\n        let end = if self.point > len { self.point } else { len };\n" + DISP.replace("0..=self.point.max(self.seq.0.len())", "0..=end")))
case("disp_dot_let", (POS, DISP, DISP.replace("""            f.write_char(' ')?;
            if i == self.point {
                f.write_str(". ")?;
            }
""", """            let lead = if i == self.point { " . " } else { " " };
            f.write_str(lead)?;
""")))
case("disp_while", (POS, DISP, "        let end = self.point.max(self.seq.0.len());\n        let mut i = 0;\n" + DISP.replace("for i in 0..=self.point.max(self.seq.0.len()) {", "while i <= end {")
     .replace("""{term:?}"))?;
            }
""", """{term:?}"))?;
            }
            i += 1;
""")))
case("disp_string", (POS, DISP, """        let mut out = format!("{:?} =", self.rule);
        for i in 0..=self.point.max(self.seq.0.len()) {
            out.push(' ');
            if i == self.point {
                out.push_str(". ");
            }
            if let Some(term) = self.abs_idx(i) {
                out.push_str(&format!("{term:?}"));
            }
        }
        out.push_str(&format!(" {:?}", self.look));
        f.write_str(&out)"""))
case("disp_split", (POS, DISP, """        write!(f, "{:?} =", self.rule)?;
        let len = self.seq.0.len();
        if self.point <= len {
            for term in &self.seq.0[..self.point] {
                write!(f, " {term:?}")?;
            }
            f.write_str(" . ")?;
            if let Some(term) = self.seq.0.get(self.point) {
                write!(f, "{term:?}")?;
                for term in &self.seq.0[self.point + 1..] {
                    write!(f, " {term:?}")?;
                }
                f.write_str(" ")?;
            }
        } else {
            for term in &self.seq.0 {
                write!(f, " {term:?}")?;
            }
            for _ in len..self.point {
                f.write_str(" ")?;
            }
            f.write_str(" . ")?;
        }
        write!(f, " {:?}", self.look)"""))
case("debug_delegate", (POS, '        f.write_fmt(format_args!("{self}"))', "        Display::fmt(self, f)"))
case("debug_write", (POS, '        f.write_fmt(format_args!("{self}"))', '        write!(f, "{self}")'))
ERR = """            Self::UnexpectedToken(found, expected) => f.write_fmt(format_args!(
                "unexpected token {found:?}. expected {expected:?}"
            )),"""
case("err_write", (DFA, ERR, '            Self::UnexpectedToken(found, expected) => {\n                write!(f, "unexpected token {:?}. expected {:?}", found, expected)\n            }'))
case("err_parts", (DFA, ERR, '            Self::UnexpectedToken(found, expected) => {\n                write!(f, "unexpected token {found:?}")?;\n                write!(f, ". expected {expected:?}")\n            }'))
case("err_iflet", (DFA, """        match self {
            Self::UnexpectedToken(found, expected) => f.write_fmt(format_args!(
                "unexpected token {found:?}. expected {expected:?}"
            )),""", """        if let Self::UnexpectedToken(found, expected) = self {
            return f.write_fmt(format_args!("unexpected token {found:?}. expected {expected:?}"));
        }
        match self {
            Self::UnexpectedToken(..) => unreachable!(),"""))
case("err_text", (DFA, """            Self::UnexpectedEof => f.write_str("unexpected eof"),""", """            Self::UnexpectedEof => write!(f, "unexpected eof"),"""))
case("err_msg_let", (DFA, """            Self::UnexpectedEof => f.write_str("unexpected eof"),""", """            Self::UnexpectedEof => {
                let text = "unexpected eof";
                f.write_str(text)
            }"""))
ST = """        let mut fmts = Vec::new();
        for i in 0.. {
            if i >= self.states.len() && i >= self.items.len() {
                break;
            }
            if let Some(s) = self.states.get(i) {
                fmts.push(format!("{s}"));
            }

            if let Some(it) = self.items.get(i) {
                fmts.push(format!("{:?}", it.ty));
            }
        }
        fmts.join(" ")"""
case("stack_max", (DFA, ST, ST.replace("for i in 0.. {", "for i in 0..self.states.len().max(self.items.len()) {").replace("""            if i >= self.states.len() && i >= self.items.len() {
                break;
            }
""", "")))
case("stack_tostring", (DFA, ST, ST.replace('format!("{s}")', "s.to_string()")))
case("stack_while", (DFA, ST, ST.replace("for i in 0.. {", "let mut i = 0;\n        while i < self.states.len() || i < self.items.len() {").replace("""            if i >= self.states.len() && i >= self.items.len() {
                break;
            }
""", "").replace("""it.ty));
            }
""", """it.ty));
            }
            i += 1;
""")))
case("stack_len_let", (DFA, ST, ST.replace("        let mut fmts", "        let (ns, ni) = (self.states.len(), self.items.len());\n        let mut fmts").replace("i >= self.states.len() && i >= self.items.len()", "i >= ns && i >= ni")))
case("stack_helper", (DFA, ST, """        self.interleave(|it| format!("{:?}", it.ty))"""), (DFA, """    #[must_use]
    pub fn stack_debug(""", """    fn interleave(&self, show: impl Fn(&Token<T, M>) -> String) -> String {
        let mut fmts = Vec::new();
        for i in 0.. {
            if i >= self.states.len() && i >= self.items.len() {
                break;
            }
            if let Some(s) = self.states.get(i) {
                fmts.push(format!("{s}"));
            }
            if let Some(it) = self.items.get(i) {
                fmts.push(show(it));
            }
        }
        fmts.join(" ")
    }

    #[must_use]
    pub fn stack_debug("""), (DFA, """        let mut fmts = Vec::new();
        for i in 0.. {
            if i >= self.states.len() && i >= self.items.len() {
                break;
            }
            if let Some(s) = self.states.get(i) {
                fmts.push(format!("{s}"));
            }

            if let Some(it) = self.items.get(i) {
                fmts.push(format!("{it:?}"));
            }
        }
        fmts.join(" ")""", """        self.interleave(|it| format!("{it:?}"))"""))
case("stack_string", (DFA, ST, """        let mut out = String::new();
        let mut i = 0;
        while i < self.states.len() || i < self.items.len() {
            if let Some(s) = self.states.get(i) {
                if !out.is_empty() {
                    out.push(' ');
                }
                out.push_str(&s.to_string());
            }
            if let Some(it) = self.items.get(i) {
                if !out.is_empty() {
                    out.push(' ');
                }
                out.push_str(&format!("{:?}", it.ty));
            }
            i += 1;
        }
        out"""))

# the demonstration
TOK = """    let iter = table.first.iter().zip(table.follow.values());

    for ((k, first), follow) in iter {
        out.add_row(row![k, format!("{first:?}"), format!("{follow:?}")]);
    }
"""
case("m_tokens_inline", (MAIN, TOK, """    for ((k, first), follow) in table.first.iter().zip(table.follow.values()) {
        out.add_row(row![k, format!("{first:?}"), format!("{follow:?}")]);
    }
"""))
case("m_tokens_texts", (MAIN, TOK, """    for ((k, first), follow) in table.first.iter().zip(table.follow.values()) {
        let first = format!("{:?}", first);
        let follow = format!("{:?}", follow);
        out.add_row(row![k, first, follow]);
    }
"""))
case("m_tokens_zip_iter", (MAIN, TOK, """    for ((k, first), (_, follow)) in table.first.iter().zip(&table.follow) {
        out.add_row(row![k, format!("{first:?}"), format!("{follow:?}")]);
    }
"""))
case("m_tokens_helper", (MAIN, TOK, """    for ((k, first), follow) in table.first.iter().zip(table.follow.values()) {
        out.add_row(tokens_row(k, first, follow));
    }
"""), (MAIN, "fn print_tokens_table<T>", """fn tokens_row<T: fmt::Display + fmt::Debug>(k: &T, first: &Set<T>, follow: &Set<T>) -> Row {
    row![k, format!("{first:?}"), format!("{follow:?}")]
}

fn print_tokens_table<T>"""))
SYMS = """            let kernel = Tabler::sym_filter(state, sym);
            if kernel.is_empty() {
                continue;
            }
            let kernel = parser.final_kernel(&kernel).unwrap();
            let state_id = parser.state_from_kernel(kernel).unwrap();
            out.add_row(row![
                format!("goto({i}, {sym})"),
                format!("{kernel:?}"),
                format!("{state_id}"),
                format!("{:?}", table.states[state_id])
            ]);
"""
case("m_states_nested", (MAIN, SYMS, """            let kernel = Tabler::sym_filter(state, sym);
            if !kernel.is_empty() {
                let kernel = parser.final_kernel(&kernel).unwrap();
                let state_id = parser.state_from_kernel(kernel).unwrap();
                out.add_row(row![
                    format!("goto({i}, {sym})"),
                    format!("{kernel:?}"),
                    format!("{state_id}"),
                    format!("{:?}", table.states[state_id])
                ]);
            }
"""))
case("m_states_expect", (MAIN, SYMS, SYMS.replace("parser.final_kernel(&kernel).unwrap()", 'parser.final_kernel(&kernel).expect("a kernel")')))
case("m_states_target", (MAIN, SYMS, SYMS.replace("            out.add_row", "            let target = &table.states[state_id];\n            out.add_row").replace('format!("{:?}", table.states[state_id])', 'format!("{target:?}")')))
case("m_states_index", (MAIN, "    for (i, state) in table.states.iter().enumerate() {\n        for sym", "    for i in 0..table.states.len() {\n        let state = &table.states[i];\n        for sym"))
case("m_states_tostring", (MAIN, SYMS, SYMS.replace('format!("{state_id}")', "state_id.to_string()")))
CELLS = """        for t in &terminals {
            let item = state
                .get(t)
                .map_or_else(String::new, |act| format!("{act:?}"));
            row_buf.push(Cell::new(&item));
        }
"""
case("m_actions_match", (MAIN, CELLS, """        for t in &terminals {
            let item = match state.get(t) {
                Some(act) => format!("{act:?}"),
                None => String::new(),
            };
            row_buf.push(Cell::new(&item));
        }
"""))
case("m_actions_extend", (MAIN, CELLS, """        row_buf.extend(terminals.iter().map(|t| {
            let item = state.get(t).map(|act| format!("{act:?}")).unwrap_or_default();
            Cell::new(&item)
        }));
"""))
case("m_actions_fresh", (MAIN, "    let mut row_buf = Vec::new();\n", ""), (MAIN, "        row_buf.clear();\n", "        let mut row_buf = Vec::new();\n"), (MAIN, "Row::new(row_buf.clone())", "Row::new(row_buf)"))
case("m_actions_parts", (MAIN, """    let (terminals, nonterminals) =
        table
            .grammar
            .symbols()
            .fold((Set::new(), Set::new()), |(mut ts, mut nts), s| {
                if table.grammar.is_terminal(&s) {
                    ts.insert(s);
                } else {
                    nts.insert(s);
                }
                (ts, nts)
            });
""", """    let (terminals, nonterminals): (Set<_>, Set<_>) = table
        .grammar
        .symbols()
        .partition(|s| table.grammar.is_terminal(s));
"""))
case("m_actions_loop", (MAIN, """    let (terminals, nonterminals) =
        table
            .grammar
            .symbols()
            .fold((Set::new(), Set::new()), |(mut ts, mut nts), s| {
                if table.grammar.is_terminal(&s) {
                    ts.insert(s);
                } else {
                    nts.insert(s);
                }
                (ts, nts)
            });
""", """    let mut terminals = Set::new();
    let mut nonterminals = Set::new();
    for s in table.grammar.symbols() {
        if table.grammar.is_terminal(&s) {
            terminals.insert(s);
        } else {
            nonterminals.insert(s);
        }
    }
"""))
case("m_dfa_symbol_match", (MAIN, """        let symbol = state
            .buffer
            .peek()
            .map_or_else(|| eof.clone(), |t| t.ty.clone());
""", """        let symbol = match state.buffer.peek() {
            Some(t) => t.ty.clone(),
            None => eof.clone(),
        };
"""))
case("m_dfa_action_match", (MAIN, """            .and_then(|t| t.get(&symbol))
            .map_or_else(|| "n/a".to_string(), |a| format!("{a:?}"));""", """            .and_then(|t| t.get(&symbol))
            .map(|a| format!("{a:?}"))
            .unwrap_or_else(|| String::from("n/a"));"""))
case("m_dfa_res_match", (MAIN, """    out.add_row(row![
        "state",
        res.map_or_else(|e| format!("{e}"), |()| "ok".to_string())
    ]);
""", """    let outcome = match res {
        Ok(()) => "ok".to_string(),
        Err(e) => e.to_string(),
    };
    out.add_row(row!["state", outcome]);
"""))
case("m_main_chars", (MAIN, """        let input: Vec<_> = input.trim().chars().map(|c| c.to_string()).collect();""", """        let input: Vec<String> = input.trim().chars().map(String::from).collect();"""))
case("m_main_order", (MAIN, """    let tables = parser.tables();

    print_tokens_table(tables);

    print_states_table(tables, &parser);
    print_actions_table(tables);
""", """    print_tokens_table(parser.tables());
    print_states_table(parser.tables(), &parser);
    print_actions_table(parser.tables());
"""))

# the macro
M1 = """    ($($rule:literal -> $($($terms:literal)*)|*),*) => {{
        let mut hmp = $crate::Map::new();
        $($crate::grammar_map!(hmp, $rule -> $($($terms)*)|*);)*
        hmp
    }};"""
case("mac_direct", (LIB, M1, """    ($($rule:literal -> $($($terms:literal)*)|*),*) => {{
        let mut hmp = $crate::Map::new();
        $(hmp.insert($rule, $crate::grammar::Rule::new($rule, vec![$(vec![$($terms),*]),*]));)*
        hmp
    }};"""))
case("mac_from", (LIB, M1, """    ($($rule:literal -> $($($terms:literal)*)|*),*) => {
        $crate::Map::from([$(($rule, $crate::grammar::Rule::new($rule, vec![$(vec![$($terms),*]),*]))),*])
    };"""))
case("mac_collect", (LIB, M1, """    ($($rule:literal -> $($($terms:literal)*)|*),*) => {
        [$(($rule, vec![$(vec![$($terms),*]),*])),*]
            .into_iter()
            .map(|(name, prods)| (name, $crate::grammar::Rule::new(name, prods)))
            .collect::<$crate::Map<_, _>>()
    };"""))
case("mac_push", (LIB, """    ($grammar:tt, $rule:literal -> $($($terms:literal)*)|*) => {{
        let rule = $crate::grammar::Rule::new($rule, vec![$(vec![$($terms),*]),*]);""", """    ($grammar:tt, $rule:literal -> $($($terms:literal)*)|*) => {{
        let mut prods = Vec::new();
        $(prods.push(vec![$($terms),*]);)*
        let rule = $crate::grammar::Rule::new($rule, prods);"""))
case("mac_ident_direct", (LIB, """        $($crate::grammar_map!(hmp, $rule -> $($($terms)*)|*);)*
        hmp
    }};
    ($grammar:tt, $rule:ident""", """        $({
            let name = $rule;
            hmp.insert(name, $crate::grammar::Rule::new(name, vec![$(vec![$($terms),*]),*]));
        })*
        hmp
    }};
    ($grammar:tt, $rule:ident"""))
