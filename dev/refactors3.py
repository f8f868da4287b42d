"""Behaviour-preserving edits of wop."""
C = {}
B = "wop/src/builder.rs"
L = "wop/src/lib.rs"
M = "wop/src/main.rs"

C["push_alias_iflet"] = [(B, """        alias.index += self.production.len();
        if let Some(final_index) = alias.final_index.as_mut() {
            *final_index += self.production.len();
        }
        self.aliases.push(alias);""", """        let offset = self.production.len();
        alias.index += offset;
        alias.final_index = alias.final_index.map(|end| end + offset);
        self.aliases.push(alias);""")]
C["push_alias_mut"] = [(B, """        if let Some(final_index) = alias.final_index.as_mut() {
            *final_index += self.production.len();
        }
        self.aliases.push(alias);""", """        if let Some(end) = &mut alias.final_index {
            *end = *end + self.production.len();
        }
        self.aliases.push(alias);""")]
C["write_match"] = [(B, """        let index = self.final_index.map_or_else(
            || self.index.to_string(),
            |findex| format!("{:?}", self.index..findex),
        );
        let suffix = if self.clone {
            self.final_index
                .map_or_else(|| "].clone()", |_| "].to_vec()")
        } else {
            "]"
        };
        let prefix = if self.clone { "toks[" } else { "&toks[" };""", """        let index = match self.final_index {
            Some(end) => format!("{:?}", self.index..end),
            None => self.index.to_string(),
        };
        let (prefix, suffix) = match (self.clone, self.final_index.is_some()) {
            (true, true) => ("toks[", "].to_vec()"),
            (true, false) => ("toks[", "].clone()"),
            (false, _) => ("&toks[", "]"),
        };""")]
C["write_index_fmt"] = [(B, """            || self.index.to_string(),
            |findex| format!("{:?}", self.index..findex),""", """            || format!("{}", self.index),
            |findex| format!("{}..{}", self.index, findex),""")]
C["write_order"] = [(B, """            Some(true) => writeln!(out, "let {alias} = Some({prefix}{index}{suffix});"),""", """            None => writeln!(out, "let {alias} = {prefix}{index}{suffix};"),
            Some(true) => writeln!(out, "let {alias} = Some({prefix}{index}{suffix});"),"""),
 (B, """            None => writeln!(out, "let {alias} = {prefix}{index}{suffix};"),
        }""", """        }""")]
C["write_expr"] = [(B, """            Some(true) => writeln!(out, "let {alias} = Some({prefix}{index}{suffix});"),""", """            Some(true) => {
                let expr = format!("{prefix}{index}{suffix}");
                writeln!(out, "let {alias} = Some({expr});")
            }""")]
C["dump_new"] = [(B, """        let mut s = String::new();
        self.write(&mut s, src).unwrap();
        s""", """        let mut out = String::with_capacity(64);
        self.write(&mut out, src).expect("writing to a string");
        out""")]
C["instructions_match"] = [(B, """        if let Ast::Program(p) = &ast.item.item {
            p
        } else {
            unreachable!();
        }""", """        match &ast.item.item {
            Ast::Program(p) => p,
            _ => unreachable!(),
        }""")]
C["process_foreach"] = [(B, """        let program = Self::get_program_instructions(ast);
        for decl in program {
            match &decl.item.item {
                Ast::RuleDecl((rule_ident, rule_ty, rule)) => {
                    self.rule_decl(*rule_ident, *rule_ty, rule, src);
                }
                Ast::Import(decl) => self.use_decl(*decl),""", """        for instruction in Self::get_program_instructions(ast).iter() {
            match &instruction.item.item {
                Ast::Import(path) => self.use_decl(*path),
                Ast::RuleDecl((name, ty, rule)) => self.rule_decl(*name, *ty, rule.as_slice(), src),""")]
C["process_helper"] = [(B, """        for decl in program {
            match &decl.item.item {
                Ast::RuleDecl((rule_ident, rule_ty, rule)) => {
                    self.rule_decl(*rule_ident, *rule_ty, rule, src);
                }
                Ast::Import(decl) => self.use_decl(*decl),
                Ast::Alias(tk, alias) => self.token_decl(*tk, *alias, src),
                c => unreachable!("unexpected {c:?} in code builder"),
            }
        }
    }
""", """        for decl in program {
            self.process_decl(&decl.item.item, src);
        }
    }

    fn process_decl(&mut self, decl: &Ast, src: &str) {
        match decl {
            Ast::RuleDecl((rule_ident, rule_ty, rule)) => {
                self.rule_decl(*rule_ident, *rule_ty, rule, src);
            }
            Ast::Import(decl) => self.use_decl(*decl),
            Ast::Alias(tk, alias) => self.token_decl(*tk, *alias, src),
            c => unreachable!("unexpected {c:?} in code builder"),
        }
    }
""")]
C["rule_decl_name"] = [(B, """        let mut rules = Vec::new();
        for prod in rule {
            assert_ne!(
                prod.1.from_source(src),
                "",
                "missing code block for {:?}",
                rule_ident.from_source(src)
            );
            let base = ProductionBuild {
                production: Vec::new(),
                codeblock: prod.1,
                ty: rule_ty,
                aliases: Vec::new(),
            };
            rules.extend(self.get_production(&[base], &prod.0, src));
        }

        assert!(
            self.rules
                .insert(rule_ident.from_source(src).to_string(), rules)
                .is_none(),
            "rule {} was already defined",
            rule_ident.from_source(src)
        );""", """        let name = rule_ident.from_source(src);
        let mut rules = RuleBuild::new();
        for (pipe, codeblock) in rule {
            assert!(
                !codeblock.from_source(src).is_empty(),
                "missing code block for {name:?}"
            );
            let base = ProductionBuild {
                production: vec![],
                codeblock: *codeblock,
                ty: rule_ty,
                aliases: vec![],
            };
            let mut prods = self.get_production(&[base], pipe, src);
            rules.append(&mut prods);
        }

        let previous = self.rules.insert(name.to_string(), rules);
        assert!(previous.is_none(), "rule {name} was already defined");""")]
C["rule_decl_flat"] = [(B, """            let base = ProductionBuild {
                production: Vec::new(),
                codeblock: prod.1,
                ty: rule_ty,
                aliases: Vec::new(),
            };
            rules.extend(self.get_production(&[base], &prod.0, src));""", """            let base = Self::empty_production(rule_ty, prod.1);
            for p in self.get_production(&[base], &prod.0, src) {
                rules.push(p);
            }"""), (B, """    fn get_production(&self""", """    fn empty_production(ty: SrcRef, codeblock: SrcRef) -> ProductionBuild {
        ProductionBuild {
            aliases: Vec::new(),
            production: Vec::new(),
            codeblock,
            ty,
        }
    }

    fn get_production(&self""")]
C["get_production_flat_map"] = [(B, """            let mut out = Vec::new();
            for origin in origin {
                out.extend(self.get_from_single_production(origin, pipe, src));
            }
            out""", """            origin
                .iter()
                .flat_map(|base| self.get_from_single_production(base, pipe, src))
                .collect()""")]
C["get_production_early"] = [(B, """        if pipe.is_empty() {
            origin.to_vec()
        } else {
            let mut out = Vec::new();
            for origin in origin {
                out.extend(self.get_from_single_production(origin, pipe, src));
            }
            out
        }""", """        if pipe.is_empty() {
            return origin.to_vec();
        }
        let mut out = Vec::with_capacity(origin.len());
        for base in origin {
            out.append(&mut self.get_from_single_production(base, pipe, src));
        }
        out""")]
C["single_item_match"] = [(B, """            let (item, is_optional, alias, clone) =
                if let Ast::RuleItem(ref i, o, a, c) = g.item.item {
                    (i.as_ref(), o, a, c)
                } else {
                    unreachable!()
                };""", """            let Ast::RuleItem(ref item, is_optional, alias, clone) = g.item.item else {
                unreachable!()
            };
            let item = item.as_ref();""")]
C["single_then_some"] = [(B, """                    optional: if is_optional { Some(true) } else { None },""", """                    optional: is_optional.then_some(true),""")]
C["single_alias_helper"] = [(B, """            if let Some(alias) = alias {
                let item_alias = ItemAlias {
                    alias,
                    optional: if is_optional { Some(true) } else { None },
                    index: 0, // automatically configured
                    final_index: None,
                    clone,
                };
                prod.push_alias(item_alias);
            }""", """            if let Some(name) = alias {
                prod.push_alias(Self::item_alias(
                    name,
                    if is_optional { Some(true) } else { None },
                    clone,
                ));
            }"""), (B, """    fn token_decl(""", """    fn item_alias(alias: SrcRef, optional: Option<bool>, clone: bool) -> ItemAlias {
        ItemAlias {
            alias,
            optional,
            clone,
            index: 0,
            final_index: None,
        }
    }

    fn token_decl(""")]
C["single_definition"] = [(B, """            let get_definition = |should_have: bool| {
                self.aliases
                    .get(item.item.span.from_source(src))
                    .unwrap_or_else(|| {
                        if should_have {
                            eprintln!(
                                "using literal string for {} (maybe is missing an alias?)",
                                item.item.span.from_source(src)
                            );
                        }
                        &item.item.span
                    })
            };
            match item.ty {
                Sym::StrLit => prod.production.push(*get_definition(true)),
                Sym::IdentPath => prod.production.push(*get_definition(false)),""", """            match item.ty {
                Sym::StrLit | Sym::IdentPath => {
                    let text = item.item.span.from_source(src);
                    let definition = match self.aliases.get(text) {
                        Some(def) => *def,
                        None => {
                            if item.ty == Sym::StrLit {
                                eprintln!(
                                    "using literal string for {} (maybe is missing an alias?)",
                                    text
                                );
                            }
                            item.item.span
                        }
                    };
                    prod.production.push(definition);
                }""")]
C["single_split_first"] = [(B, """                        if i < pipe.len() {
                            prods = self.get_production(&prods, &pipe[i + 1..], src);
                        }
                        return prods;""", """                        return self.get_production(&prods, &pipe[i + 1..], src);""")]
C["single_optional_tail"] = [(B, """                if i < pipe.len() {
                    return self.get_production(&[prod, ignored_prod], &pipe[i + 1..], src);
                }
                return vec![prod, ignored_prod];""", """                let rest = &pipe[i + 1..];
                return self.get_production(&[prod, ignored_prod], rest, src);""")]
C["single_ignored_order"] = [(B, """                let mut ignored_prod = prod.clone();
                ignored_prod.production.pop();
                if alias.is_some() {
                    ignored_prod.aliases.last_mut().unwrap().optional = Some(false);
                }
""", """                let mut ignored_prod = prod.clone();
                if alias.is_some() {
                    if let Some(last) = ignored_prod.aliases.last_mut() {
                        last.optional = Some(false);
                    }
                }
                let _ = ignored_prod.production.pop();
""")]
C["single_for_index"] = [(B, """        for (i, g) in pipe.iter().enumerate() {
            let (item""", """        for i in 0..pipe.len() {
            let g = &pipe[i];
            let (item""")]
C["single_final_index_iter"] = [(B, """                            if alias.is_some() {
                                for new in &mut news {
                                    new.aliases[prod.aliases.len() - 1].final_index =
                                        Some(new.production.len());
                                }
                            }
                            prods.extend(news);""", """                            if alias.is_some() {
                                let at = prod.aliases.len() - 1;
                                news.iter_mut().for_each(|new| {
                                    let end = new.production.len();
                                    new.aliases[at].final_index = Some(end);
                                });
                            }
                            prods.append(&mut news);""")]
C["sub_aliases_collect"] = [(B, """        let base_aliases: BTreeSet<_> = base.aliases.iter().map(|a| a.alias).collect();
        let prods_aliases: BTreeSet<_> = productions
            .iter()
            .flat_map(|a| a.aliases.iter())
            .map(|a| a.alias)
            .collect();
        let prods_aliases: BTreeSet<_> = prods_aliases.difference(&base_aliases).collect();
        for prod in productions.iter_mut() {
            for alias_name in &prods_aliases {""", """        let base_aliases: BTreeSet<SrcRef> = base.aliases.iter().map(|a| a.alias).collect();
        let mut prods_aliases = BTreeSet::new();
        for p in productions.iter() {
            for a in &p.aliases {
                if !base_aliases.contains(&a.alias) {
                    prods_aliases.insert(a.alias);
                }
            }
        }
        let prods_aliases: BTreeSet<_> = prods_aliases.iter().collect();
        for prod in productions.iter_mut() {
            for alias_name in &prods_aliases {""")]
C["sub_aliases_position"] = [(B, """                if let Some(prod_alias) = prod
                    .aliases
                    .iter_mut()
                    .find(|a| a.alias.from_source(src) == alias_name.from_source(src))
                {
                    // a missing alias (`Some(false)`) stays missing
                    prod_alias.optional.get_or_insert(true);
                } else {""", """                let name = alias_name.from_source(src);
                let found = prod
                    .aliases
                    .iter_mut()
                    .find(|a| a.alias.from_source(src) == name);
                if let Some(prod_alias) = found {
                    if prod_alias.optional.is_none() {
                        prod_alias.optional = Some(true);
                    }
                } else {""")]
C["token_decl_let"] = [(B, """        assert!(
            self.aliases
                .insert(tk.from_source(src).to_string(), alias)
                .is_none(),""", """        let old = self.aliases.insert(tk.from_source(src).to_owned(), alias);
        assert!(
            old.is_none(),""")]
C["dump_grammar_for"] = [(B, """        let mut out = "{\\n".to_string();
        self.imports.iter().for_each(|i| {
            writeln!(out, "\\tuse {};", i.from_source(src)).unwrap();
        });
        writeln!(out, "\\tlet mut map = lrp::RuleMap::new();").unwrap();""", """        let mut out = String::from("{\\n");
        for import in &self.imports {
            writeln!(out, "\\tuse {};", import.from_source(src)).unwrap();
        }
        out.push_str("\\tlet mut map = lrp::RuleMap::new();\\n");""")]
C["dump_grammar_helper"] = [(B, """        let mut out = "{\\n".to_string();
        self.imports.iter().for_each(|i| {
            writeln!(out, "\\tuse {};", i.from_source(src)).unwrap();
        });
        writeln!(out, "\\tlet mut map = lrp::RuleMap::new();").unwrap();""", """        let mut out = self.open_block(src);
        writeln!(out, "\\tlet mut map = lrp::RuleMap::new();").unwrap();"""), (B, """    /// Writes the rule production""", """    fn open_block(&self, src: &str) -> String {
        let mut out = "{\\n".to_string();
        for i in self.imports.iter() {
            out += &format!("\\tuse {};\\n", i.from_source(src));
        }
        out
    }

    /// Writes the rule production""")]
C["dump_grammar_foreach_rules"] = [(B, """        for (r_name, impls) in &self.rules {
            Self::write_rule(&mut out, r_name, impls, src);
        }""", """        self.rules
            .iter()
            .for_each(|(name, prods)| Self::write_rule(&mut out, name, prods, src));""")]
C["write_rule_join"] = [(B, """            out.push_str("\\t\\tvec![");
            for gramem in &prod.production {
                write!(out, "{}, ", gramem.from_source(src)).unwrap();
            }
            out.push_str("],\\n");""", """            *out += "\\t\\tvec![";
            for gramem in prod.production.iter() {
                out.push_str(gramem.from_source(src));
                out.push_str(", ");
            }
            *out += "],\\n";""")]
C["write_rule_header"] = [(B, """        writeln!(
            out,
            "\\tmap.insert({name}, lrp::grammar::Rule::new({name}, vec!["
        )
        .unwrap();""", """        write!(
            out,
            "\\tmap.insert({0}, lrp::grammar::Rule::new({0}, vec![\\n",
            name
        )
        .unwrap();""")]
C["write_reduction_body"] = [(B, """            let mut item_aliases = String::new();
            for alias in &prod.aliases {
                alias.write(&mut item_aliases, src).unwrap();
            }""", """            let item_aliases: String = prod.aliases.iter().map(|alias| alias.dump(src)).collect();""")]
C["write_reduction_code"] = [(B, """            writeln!(
                    out,
                    "\\tfn lrp_wop_{name}_{i}""", """            let code = prod
                .codeblock
                .from_source(src)
                .strip_prefix("->")
                .unwrap()
                .strip_suffix('%')
                .unwrap();
            writeln!(
                    out,
                    "\\tfn lrp_wop_{name}_{i}"""), (B, """                    prod.codeblock.from_source(src).strip_prefix("->").unwrap().strip_suffix('%').unwrap()
                )""", """                    code
                )""")]
C["write_reduction_range"] = [(B, """        for (i, _) in prods.iter().enumerate() {
            write!(out, "lrp_wop_{name}_{i}, ").unwrap();
        }""", """        for i in 0..prods.len() {
            write!(out, "lrp_wop_{name}_{i}, ").unwrap();
        }""")]
C["from_str_inline"] = [(B, """        let lexer = crate::lexer(s);
        let mut dfa = crate::build_parser(lexer);
        dfa.start()?;
        let mut builder = Self::default();
        builder.process(&dfa.items[0], s);
        Ok(builder)""", """        let mut dfa = crate::build_parser(crate::lexer(s));
        match dfa.start() {
            Ok(()) => {
                let mut builder = Self::default();
                builder.process(dfa.items.first().unwrap(), s);
                Ok(builder)
            }
            Err(e) => Err(e),
        }""")]
C["builder_new"] = [(B, """        Self {
            entry_type,
            ..Default::default()
        }""", """        let mut builder = Self::default();
        builder.entry_type = entry_type;
        builder""")]
C["builder_new_full"] = [(B, """        Self {
            entry_type,
            ..Default::default()
        }""", """        Self {
            aliases: BTreeMap::new(),
            rules: BTreeMap::new(),
            imports: vec![],
            entry_type,
        }""")]
C["lexer_let"] = [(L, """        .map(|(t, s)| Token::new(Meta::new(Ast::Token(t), Span::new(s.start, s.end)), t))""", """        .map(|(ty, range)| {
            let span = Span::new(range.start, range.end);
            let meta = Meta::new(Ast::Token(ty), span);
            Token::new(meta, ty)
        })""")]
C["lexer_from"] = [(L, """Span::new(s.start, s.end)), t))""", """Span::from(s)), t))""")]
C["build_parser_let"] = [(L, """        let parser = Slr::new(out::grammar());""", """        let parser = Slr::new(out::grammar());""")] and [(L, """    let parser = Slr::new(out::grammar());
    parser.dfa(buffer, out::reduct_map())""", """    let grammar = out::grammar();
    let reductors = out::reduct_map();
    Slr::new(grammar).dfa(buffer, reductors)""")]
C["get_src_ref_iflet"] = [(L, """        match self {
            Self::IdentPath(o) => Some(*o),
            _ => None,
        }""", """        if let Self::IdentPath(span) = self {
            Some(*span)
        } else {
            None
        }""")]
CASES = C
