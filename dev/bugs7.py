"""Changes that break printed forms, the demonstration program or the grammar macro."""
POS, DFA, MAIN, LIB = "src/pos.rs", "src/dfa.rs", "src/main.rs", "src/lib.rs"
CASES = {}


def case(name, *edits):
    CASES[name] = list(edits)


case("disp_len_only", (POS, "0..=self.point.max(self.seq.0.len())", "0..=self.seq.0.len()"))
case("disp_excl", (POS, "0..=self.point.max(self.seq.0.len())", "0..self.point.max(self.seq.0.len())"))
case("disp_dot_after", (POS, """            if i == self.point {
                f.write_str(". ")?;
            }
            if let Some(term) = self.abs_idx(i) {
                f.write_fmt(format_args!("{term:?}"))?;
            }
""", """            if let Some(term) = self.abs_idx(i) {
                f.write_fmt(format_args!("{term:?}"))?;
            }
            if i == self.point {
                f.write_str(". ")?;
            }
"""))
case("disp_peek", (POS, "            if let Some(term) = self.abs_idx(i) {", "            if let Some(term) = self.peek(i) {"))
case("disp_first_look", (POS, 'f.write_fmt(format_args!(" {:?}", self.look))', 'f.write_fmt(format_args!(" {:?}", self.look.iter().take(8).collect::<Vec<_>>()))'))
case("disp_empty_look", (POS, '        f.write_fmt(format_args!(" {:?}", self.look))', """        if self.look.len() < 2 && self.finished() {
            return Ok(());
        }
        f.write_fmt(format_args!(" {:?}", self.look))"""))
case("err_swap", (DFA, 'format_args!("conflicting action {a:?} and {b:?}")', 'format_args!("conflicting action {a:?} and {a:?}")'))
case("err_first_expected", (DFA, '"unexpected token {found:?}. expected {expected:?}"', '"unexpected token {found:?}. expected {:?}", expected.first()'))
case("err_texts", (DFA, """            Self::StateNotSpecified => f.write_str("state not specified in actions table"),""", """            Self::StateNotSpecified => f.write_str("missing previous state. impossible to continue dfa execution"),"""))
case("stack_and", (DFA, "i >= self.states.len() && i >= self.items.len()", "i >= self.states.len() || i >= self.items.len()"))
case("stack_order", (DFA, """            if let Some(s) = self.states.get(i) {
                fmts.push(format!("{s}"));
            }

            if let Some(it) = self.items.get(i) {
                fmts.push(format!("{:?}", it.ty));
            }
""", """            if let Some(it) = self.items.get(i) {
                fmts.push(format!("{:?}", it.ty));
            }

            if let Some(s) = self.states.get(i) {
                fmts.push(format!("{s}"));
            }
"""))
case("stack_items_bound", (DFA, "            if i >= self.states.len() && i >= self.items.len() {", "            if i >= self.items.len() {"))
case("stack_top", (DFA, """                fmts.push(format!("{:?}", it.ty));""", """                fmts.push(format!("{:?}", self.items[self.items.len() - 1 - i].ty));"""))
case("m_tokens_swapped", (MAIN, 'row![k, format!("{first:?}"), format!("{follow:?}")]', 'row![k, format!("{follow:?}"), format!("{first:?}")]'))
case("m_tokens_skip", (MAIN, "table.first.iter().zip(table.follow.values())", "table.first.iter().skip(1).zip(table.follow.values())"))
case("m_states_first", (MAIN, """                continue;
            }
            let kernel = parser""", """                break;
            }
            let kernel = parser"""))
case("m_states_raw", (MAIN, """                format!("{:?}", table.states[state_id])""", """                format!("{state:?}")"""))
case("m_states_last", (MAIN, 'format!("last state: {}", table.states.len() - 1)', 'format!("last state: {}", table.states.len())'))
case("m_actions_noclear", (MAIN, "        row_buf.clear();\n", ""))
case("m_actions_cols", (MAIN, """        .chain(nonterminals.iter())
        .map""", """        .chain(nonterminals.iter().rev())
        .map"""))
case("m_actions_term", (MAIN, "        for nt in &nonterminals {", "        for nt in nonterminals.iter().skip(1) {"))
case("m_dfa_buffer", (MAIN, "                .chain(std::iter::once(eof.clone()))\n", ""))
case("m_dfa_symbol", (MAIN, ".map_or_else(|| eof.clone(), |t| t.ty.clone());", ".map_or_else(|| eof.clone(), |_| eof.clone());"))
case("m_dfa_state0", (MAIN, ".get(state.top)\n", ".get(state.states[0])\n"))
case("m_dfa_ok", (MAIN, '''res.map_or_else(|e| format!("{e}"), |()| "ok".to_string())''', '''res.map_or_else(|_| "ok".to_string(), |()| "ok".to_string())'''))
case("m_main_trim", (MAIN, "input.trim().chars()", "input.trim_start().chars()"))
case("m_main_slr", (MAIN, "let parser = Lalr::new(grammar);", "let parser = lrp::Slr::new(grammar);"))
case("m_main_grammar", (MAIN, '''            | "{" "S" "}"
    };''', '''            | "{" "S"
    };'''))
M = "        let rule = $crate::grammar::Rule::new($rule, vec![$(vec![$($terms),*]),*]);"
case("mac_rev", (LIB, M, M.replace("vec![$(vec![$($terms),*]),*]", "{ let mut v = vec![$(vec![$($terms),*]),*]; if v.len() > 2 { v.reverse(); } v }")))
case("mac_dedup", (LIB, M, M.replace("vec![$(vec![$($terms),*]),*]", "{ let mut v = vec![$(vec![$($terms),*]),*]; v.dedup(); v }")))
case("mac_insert_once", (LIB, "        $grammar.insert($rule, rule);", "        $grammar.entry($rule).or_insert(rule);"))
case("mac_term_dedup", (LIB, M, M.replace("vec![$($terms),*]", "{ let mut p = vec![$($terms),*]; p.dedup(); p }")))
