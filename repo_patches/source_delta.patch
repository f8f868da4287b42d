From 278b82e1845935feafb07b81479f5a24c01a424f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:55 +0000
Subject: [PATCH 01/11] fix: keep the initial state on the stack when a DFA is
 reset

`Dfa::reset` emptied the state stack, so the first reduction of every
`Dfa::parse` underflowed and panicked.
---
 src/dfa.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dfa.rs b/src/dfa.rs
index 5b5a853..aaebeb4 100644
--- a/src/dfa.rs
+++ b/src/dfa.rs
@@ -214,6 +214,7 @@ where
     pub fn reset(&mut self) {
         self.finished = false;
         self.states.clear();
+        self.states.push(0);
         self.items.clear();
         self.top = 0;
     }
-- 
2.43.0


From afc5a048e6786a2de471acbf462989c98231adc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:55 +0000
Subject: [PATCH 02/11] fix: make the FIRST and FOLLOW iterations monotone

Each step replaced a rule by the contents of its set, so three rules that
lead to each other in a cycle (A -> B, B -> C, C -> A) swapped their names
for ever and building the tables never ended. Keep the rules during the
iteration and remove them at the end.
---
 src/tabler.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/tabler.rs b/src/tabler.rs
index 8af2215..b81b948 100644
--- a/src/tabler.rs
+++ b/src/tabler.rs
@@ -101,7 +101,12 @@ where
     }
 
     pub fn proc_first(&mut self) {
-        self.first = transitive(self.first.clone(), |t| self.first_step(&t));
+        let mut first = transitive(self.first.clone(), |t| self.first_step(&t));
+        // rules are kept while iterating: dropping them makes recursive rules swap forever
+        for firsts in first.values_mut() {
+            firsts.retain(|t| self.grammar.is_terminal(t));
+        }
+        self.first = first;
         // FIRST must be a subset of TERMINALS
         debug_assert!(self
             .first
@@ -111,7 +116,12 @@ where
     }
 
     pub fn proc_follow(&mut self) {
-        self.follow = transitive(self.follow.clone(), |t| self.follow_step(&t));
+        let mut follow = transitive(self.follow.clone(), |t| self.follow_step(&t));
+        // rules are kept while iterating: dropping them makes recursive rules swap forever
+        for terms in follow.values_mut() {
+            terms.retain(|t| self.grammar.is_terminal(t));
+        }
+        self.follow = follow;
         // FOLLOW must be a subset of TERMINALS
         debug_assert!(self
             .follow
@@ -126,7 +136,7 @@ where
     pub fn first_step(&self, input: &Table<T>) -> Table<T> {
         let mut table = Table::new();
         for (name, firsts) in input {
-            table.insert(name.clone(), Set::new());
+            table.insert(name.clone(), firsts.clone());
             for first in firsts {
                 if self.grammar.is_terminal(first) {
                     table.get_mut(name).unwrap().insert(first.clone());
@@ -154,7 +164,7 @@ where
     pub fn follow_step(&self, input: &Table<T>) -> Table<T> {
         let mut table = Table::new();
         for (noterm, terms) in input {
-            table.insert(noterm.clone(), Set::new());
+            table.insert(noterm.clone(), terms.clone());
             for term in terms {
                 let entry = table.get_mut(noterm).unwrap();
                 if self.grammar.is_terminal(term) {
-- 
2.43.0


From 6d28202aa9bf5ed060798f4c877f40f2f26801d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:55 +0000
Subject: [PATCH 03/11] fix: propagate the lookaheads of merged LALR states to
 all successors

After a merge, only the goto of the kernel items was visited again. An item
added by the closure of the merged state kept its old lookaheads in the
successors that were already built, and valid inputs were rejected.
---
 src/lalr.rs | 48 ++++++------------------------------------------
 1 file changed, 6 insertions(+), 42 deletions(-)

diff --git a/src/lalr.rs b/src/lalr.rs
index ea8daad..bfbb1b7 100644
--- a/src/lalr.rs
+++ b/src/lalr.rs
@@ -116,9 +116,10 @@ where
 
     fn proc_closures(&mut self) {
         self.proc_closures_first_row();
-        let mut idx = 0;
         let syms: Vec<_> = self.table.grammar.symbols().collect();
-        'gen: while idx < self.table.states.len() {
+        // A state is visited again whenever its lookaheads grow, so that its successors get them.
+        let mut pending = Set::from([0]);
+        while let Some(idx) = pending.pop_first() {
             let row = self.table.states[idx].clone();
             for s in &syms {
                 let Some((kernel, closures)) = self.goto(&row, s) else {
@@ -126,12 +127,10 @@ where
                 };
                 let raw_kernel = Self::without_look(&kernel);
                 if let Some(main_kernel) = self.raws.get(&raw_kernel).cloned() {
-                    let Some(nk) = self.update_closures(&main_kernel, kernel, closures) else {
+                    let Some(nk) = self.update_state(&main_kernel, kernel, closures) else {
                         continue;
                     };
-                    if self.table.kernels[&nk] == idx && nk != row {
-                        continue 'gen;
-                    }
+                    pending.insert(self.table.kernels[&nk]);
                 } else {
                     self.raws.insert(raw_kernel, kernel.clone());
                     self.table.states.push(closures);
@@ -140,47 +139,12 @@ where
                         .kernels
                         .insert(kernel, self.table.states.len() - 1);
                     debug_assert!(old.is_none());
+                    pending.insert(self.table.states.len() - 1);
                 };
             }
-            idx += 1;
         }
     }
 
-    #[must_use]
-    pub fn update_closures(
-        &mut self,
-        main: &State<T>,
-        inc: State<T>,
-        closures: State<T>,
-    ) -> Option<State<T>> {
-        let mut new_kernel = self.update_state(main, inc, closures)?;
-        let syms: Vec<_> = self.table.grammar.symbols().collect();
-        let id = self.table.kernels[&new_kernel];
-
-        'regen: loop {
-            for s in &syms {
-                let Some((kernel, closures)) = self.goto(&new_kernel, s) else {
-                    continue;
-                };
-                let raw_kernel = Self::without_look(&kernel);
-                let main_kernel = self.raws.get(&raw_kernel).cloned();
-                let Some(main_kernel) = main_kernel else {
-                    continue;
-                };
-                let Some(nk) = self.update_closures(&main_kernel, kernel, closures) else {
-                    continue;
-                };
-                let updated_state = self.table.kernels[&nk];
-                if updated_state == id && nk != new_kernel {
-                    new_kernel = nk;
-                    continue 'regen;
-                }
-            }
-            break;
-        }
-        Some(new_kernel)
-    }
-
     #[must_use]
     pub fn update_state(
         &mut self,
-- 
2.43.0


From 5487b5cda91339edaae7dcfbe429821f1720d221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:14 +0000
Subject: [PATCH 04/11] fix: list only tokens as expected in
 Error::UnexpectedToken

The list had the rules of the state's gotos too, which no token can match.
---
 src/dfa.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dfa.rs b/src/dfa.rs
index aaebeb4..e4ac511 100644
--- a/src/dfa.rs
+++ b/src/dfa.rs
@@ -172,7 +172,11 @@ where
     pub fn travel(&mut self, symbol: &M) -> BaseResult<(), Error<M>> {
         let state = self.table.get(self.top).ok_or(Error::StateNotSpecified)?;
         let action = state.get(symbol).ok_or_else(|| {
-            let expecteds = state.keys().cloned().collect();
+            let expecteds = state
+                .iter()
+                .filter(|(_, a)| !matches!(a, Action::Goto(_)))
+                .map(|(s, _)| s.clone())
+                .collect();
             Error::UnexpectedToken(symbol.clone(), expecteds)
         })?;
         match action {
-- 
2.43.0


From 10ccefa5d43801c659fb8ed82c1b146f48f1b634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:14 +0000
Subject: [PATCH 05/11] fix: reject rule names in the input of a DFA

A token whose type is a rule took the state's goto without being consumed:
the stacks went out of step, and with A -> B A | B and a token B the DFA
pushed states for ever.
---
 src/dfa.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/dfa.rs b/src/dfa.rs
index e4ac511..3783aa9 100644
--- a/src/dfa.rs
+++ b/src/dfa.rs
@@ -171,7 +171,9 @@ where
     /// Returns the action result
     pub fn travel(&mut self, symbol: &M) -> BaseResult<(), Error<M>> {
         let state = self.table.get(self.top).ok_or(Error::StateNotSpecified)?;
-        let action = state.get(symbol).ok_or_else(|| {
+        // rules come from reductions, never from the buffer
+        let action = state.get(symbol).filter(|a| !matches!(a, Action::Goto(_)));
+        let action = action.ok_or_else(|| {
             let expecteds = state
                 .iter()
                 .filter(|(_, a)| !matches!(a, Action::Goto(_)))
@@ -212,7 +214,11 @@ where
         self.top = self.states[len - prod.0.len() - 1];
 
         self.states.truncate(len - prod.0.len());
-        self.travel(name)
+        let state = self.table.get(self.top).ok_or(Error::StateNotSpecified)?;
+        match state.get(name) {
+            Some(Action::Goto(to)) => self.goto(*to),
+            _ => Err(Error::MissingPreviousState),
+        }
     }
 
     pub fn reset(&mut self) {
-- 
2.43.0


From 96cf199531de24516f5b7eb495fdbe48af017040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:33 +0000
Subject: [PATCH 06/11] fix: leave a missing alias of a wop sub-rule as `None`

`set_sub_aliases` turned the alias of a skipped optional item into
`Some(..)` of whatever token stood there, or of none at all. wop's own
parser had it: every alias without `&` was taken as cloned.
---
 wop/src/builder.rs |  3 ++-
 wop/src/out.rs     | 24 ++++++++++++++++++------
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/wop/src/builder.rs b/wop/src/builder.rs
index 18b1236..64478bc 100644
--- a/wop/src/builder.rs
+++ b/wop/src/builder.rs
@@ -276,7 +276,8 @@ impl Builder {
                     .iter_mut()
                     .find(|a| a.alias.from_source(src) == alias_name.from_source(src))
                 {
-                    prod_alias.optional = Some(true);
+                    // a missing alias (`Some(false)`) stays missing
+                    prod_alias.optional.get_or_insert(true);
                 } else {
                     let item_alias = ItemAlias {
                         alias: **alias_name,
diff --git a/wop/src/out.rs b/wop/src/out.rs
index 324c40b..823afde 100644
--- a/wop/src/out.rs
+++ b/wop/src/out.rs
@@ -148,7 +148,9 @@ pub fn reduct_map() -> ReductMap<Meta<Ast>, Sym> {
             {
                 let item = Some(toks[0].clone());
                 let opt = Some(toks[1].clone());
-                let cl = Some(toks[3].clone());
+                let mut cl = Some(&toks[0]);
+                cl = None;
+                let cl = cl;
                 let id = Some(toks[3].clone());
                 {
                     Ast::RuleItem(
@@ -213,7 +215,9 @@ pub fn reduct_map() -> ReductMap<Meta<Ast>, Sym> {
                 let mut opt = Some(toks[0].clone());
                 opt = None;
                 let opt = opt;
-                let cl = Some(toks[2].clone());
+                let mut cl = Some(&toks[0]);
+                cl = None;
+                let cl = cl;
                 let id = Some(toks[2].clone());
                 {
                     Ast::RuleItem(
@@ -276,7 +280,9 @@ pub fn reduct_map() -> ReductMap<Meta<Ast>, Sym> {
             {
                 let item = Some(toks[0].clone());
                 let opt = Some(toks[1].clone());
-                let cl = Some(toks[3].clone());
+                let mut cl = Some(&toks[0]);
+                cl = None;
+                let cl = cl;
                 let id = Some(toks[3].clone());
                 {
                     Ast::RuleItem(
@@ -341,7 +347,9 @@ pub fn reduct_map() -> ReductMap<Meta<Ast>, Sym> {
                 let mut opt = Some(toks[0].clone());
                 opt = None;
                 let opt = opt;
-                let cl = Some(toks[2].clone());
+                let mut cl = Some(&toks[0]);
+                cl = None;
+                let cl = cl;
                 let id = Some(toks[2].clone());
                 {
                     Ast::RuleItem(
@@ -404,7 +412,9 @@ pub fn reduct_map() -> ReductMap<Meta<Ast>, Sym> {
             {
                 let rule = toks[1].clone();
                 let opt = Some(toks[3].clone());
-                let cl = Some(toks[5].clone());
+                let mut cl = Some(&toks[0]);
+                cl = None;
+                let cl = cl;
                 let id = Some(toks[5].clone());
                 {
                     Ast::RuleItem(
@@ -469,7 +479,9 @@ pub fn reduct_map() -> ReductMap<Meta<Ast>, Sym> {
                 let mut opt = Some(toks[0].clone());
                 opt = None;
                 let opt = opt;
-                let cl = Some(toks[4].clone());
+                let mut cl = Some(&toks[0]);
+                cl = None;
+                let cl = cl;
                 let id = Some(toks[4].clone());
                 {
                     Ast::RuleItem(
-- 
2.43.0


From 3487cc244d2dac9f8b18e15a2f3c7daf88f5c199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:33 +0000
Subject: [PATCH 07/11] fix: end the alias of a wop sub-rule where its tokens
 end

The slice was as long as the sub-rule's items, but an optional or nested
item has another number of tokens, so the generated reductor indexed out of
range or dropped tokens.
---
 wop/src/builder.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/wop/src/builder.rs b/wop/src/builder.rs
index 64478bc..76f8b01 100644
--- a/wop/src/builder.rs
+++ b/wop/src/builder.rs
@@ -205,11 +205,13 @@ impl Builder {
                                 "sub-rules like {} shouldn't have a codeblock",
                                 g.item.span.from_source(src)
                             );
+                            let mut news = self.get_from_single_production(&prod, variant, src);
                             if alias.is_some() {
-                                prod.aliases.last_mut().unwrap().final_index =
-                                    Some(prod.production.len() + variant.len());
+                                for new in &mut news {
+                                    new.aliases[prod.aliases.len() - 1].final_index =
+                                        Some(new.production.len());
+                                }
                             }
-                            let news = self.get_from_single_production(&prod, variant, src);
                             prods.extend(news);
                         }
                         self.set_sub_aliases(&prod, &mut prods, src);
-- 
2.43.0


From f1eff18d3f9220ccc4d99a2b32c2c467d68d43cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:33 +0000
Subject: [PATCH 08/11] fix: generate the same code every time for a wop
 grammar

Rules and sub-rule aliases were dumped in the random order of a HashMap and
a HashSet.
---
 wop/src/builder.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/wop/src/builder.rs b/wop/src/builder.rs
index 76f8b01..1106f9d 100644
--- a/wop/src/builder.rs
+++ b/wop/src/builder.rs
@@ -1,6 +1,6 @@
 use crate::{Ast, Gramem, RulePipe, Sym};
 use std::{
-    collections::{HashMap, HashSet},
+    collections::{BTreeMap, BTreeSet},
     fmt::Write,
     str::FromStr,
 };
@@ -13,8 +13,8 @@ pub const REDUCTOR_LINTS: &str =
 
 #[derive(Debug, Default)]
 pub struct Builder {
-    pub aliases: HashMap<String, SrcRef>,
-    pub rules: HashMap<String, RuleBuild>,
+    pub aliases: BTreeMap<String, SrcRef>,
+    pub rules: BTreeMap<String, RuleBuild>,
     pub imports: Vec<SrcRef>,
     pub entry_type: String,
 }
@@ -264,13 +264,13 @@ impl Builder {
     /// in `base`. Also, adds a `None` alias for the productions that doesn't have a alias defined
     /// in another.
     pub fn set_sub_aliases(&self, base: &ProductionBuild, productions: &mut RuleBuild, src: &str) {
-        let base_aliases: HashSet<_> = base.aliases.iter().map(|a| a.alias).collect();
-        let prods_aliases: HashSet<_> = productions
+        let base_aliases: BTreeSet<_> = base.aliases.iter().map(|a| a.alias).collect();
+        let prods_aliases: BTreeSet<_> = productions
             .iter()
             .flat_map(|a| a.aliases.iter())
             .map(|a| a.alias)
             .collect();
-        let prods_aliases: HashSet<_> = prods_aliases.difference(&base_aliases).collect();
+        let prods_aliases: BTreeSet<_> = prods_aliases.difference(&base_aliases).collect();
         for prod in productions.iter_mut() {
             for alias_name in &prods_aliases {
                 if let Some(prod_alias) = prod
-- 
2.43.0


From f332161979e27d164b4929632f3e1cb1c199bc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:57 +0000
Subject: [PATCH 09/11] fix: never write wop's output after a failed parse

A grammar with a syntax error still overwrote out.rs, with the rules read so
far, or panicked when there were none.
---
 wop/src/main.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/wop/src/main.rs b/wop/src/main.rs
index 0d58c0c..498683e 100644
--- a/wop/src/main.rs
+++ b/wop/src/main.rs
@@ -18,7 +18,7 @@ fn main() -> Result<(), Box<dyn std::error::Error>> {
 
     let mut dfa = wop::build_parser(lexer);
 
-    let res = match dfa.trace(|st| println!("{:?}", st.stack_fmt())) {
+    let res: Result<(), Box<dyn std::error::Error>> = match dfa.trace(|st| println!("{:?}", st.stack_fmt())) {
         Err(e) => {
             println!("FATAL: {e}");
             println!("source:");
@@ -30,7 +30,10 @@ fn main() -> Result<(), Box<dyn std::error::Error>> {
         }
     };
     println!("PARSING OUTPUT:");
-    print_nested(&dfa.items[0], "", 0, &file);
+    if let Some(item) = dfa.items.first() {
+        print_nested(item, "", 0, &file);
+    }
+    res?;
 
     println!("BUILDING OUTPUT");
     let mut builder = Builder::new("Gramem".to_string());
@@ -66,7 +69,7 @@ pub fn reduct_map() -> ReductMap<Meta<Ast>, Sym> {}"#,
         builder.dump_reductor(&file),
     )?;
     println!("ELAPSED TIME: {:?}", start.elapsed());
-    res
+    Ok(())
 }
 
 const TAB_C: &str = "  ";
-- 
2.43.0


From b5335eb77f22bd51b69ab10a02943d06bd868dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:49 +0000
Subject: [PATCH 10/11] fix: end a wop block comment at the first "*/",
 whatever stands before it

A run of stars before the slash was paired off, so "/* a **/" did not end
there and the tokens up to the next comment were dropped.
---
 wop/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wop/src/lib.rs b/wop/src/lib.rs
index 60489d5..203c71c 100644
--- a/wop/src/lib.rs
+++ b/wop/src/lib.rs
@@ -83,7 +83,7 @@ pub enum Sym {
     StrLit,
 
     /// Block comment
-    #[regex(r#"/\*([^\*]|\*[^//])*\*/"#, logos::skip)]
+    #[regex(r#"/\*[^\*]*\*+([^\*/][^\*]*\*+)*/"#, logos::skip)]
     BlockComment,
 
     /// Line comment
-- 
2.43.0


From 9cc4318d851e06fee9917283de6cf48958529d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:49 +0000
Subject: [PATCH 11/11] fix: end a wop code block at the first "}%", whatever
 stands before it

Closing braces were paired off, so "-> T { f(T {}) }}%" style endings did not
end the block, which then swallowed the following productions.
---
 wop/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wop/src/lib.rs b/wop/src/lib.rs
index 203c71c..e968a3f 100644
--- a/wop/src/lib.rs
+++ b/wop/src/lib.rs
@@ -91,7 +91,7 @@ pub enum Sym {
     LineComment,
 
     /// Matches a entire function tail definition: arrow ("->"), return type and a expression
-    #[regex(r#"(->)([^\}]|\}[^%])*\}%"#)]
+    #[regex(r#"->[^\}]*\}+([^\}%][^\}]*\}+)*%"#)]
     CodeBlock,
 
     #[error]
-- 
2.43.0

