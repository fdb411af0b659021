From 3f67ba002a07077dec8668d737653dbd147827e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:05 +0000
Subject: [PATCH 01/19] fix: accept LR/GLR input only when it ends after the
 complete entry production

Acceptance was keyed on the goto of the entry symbol in the start state. This
dropped the goto that left-recursive entry productions need, made LR(0)/LALR
parsers accept inputs with trailing tokens, let C++ parsers for an entry that
only derives the empty input terminate, and made GLR parsers panic on ambiguous
input.
---
 .../src/lr_parser/action_goto.rs              |  17 +--
 .../src/lr_parser/parser.cpp.tpl              |   2 +-
 .../src/lr_parser/parser_impl.h.tpl           |  26 ++--
 lapex-parser/src/lr_parser/mod.rs             |  37 +++---
 lapex-rust-codegen/src/glr_parser/mod.rs      | 121 ++++++++----------
 lapex-rust-codegen/src/lr_parser/mod.rs       |  42 +++---
 6 files changed, 107 insertions(+), 138 deletions(-)

diff --git a/lapex-cpp-codegen/src/lr_parser/action_goto.rs b/lapex-cpp-codegen/src/lr_parser/action_goto.rs
index 1f3f884..198ce3d 100644
--- a/lapex-cpp-codegen/src/lr_parser/action_goto.rs
+++ b/lapex-cpp-codegen/src/lr_parser/action_goto.rs
@@ -39,7 +39,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
         symbol: Symbol,
     ) -> Result<bool, Error> {
         Ok(match entry {
-            TableEntry::Shift { target: _ } | TableEntry::Accept => {
+            TableEntry::Shift { target: _ } => {
                 write!(output, "case ")?;
 
                 if let Symbol::NonTerminal(_) = symbol {
@@ -67,12 +67,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
         writeln!(output, "{{")?;
         match entry {
             TableEntry::Shift { target } => {
-                writeln!(output, "Transition transition{{{}, false}};", target)?;
-                writeln!(output, "return transition;")?;
-            }
-            TableEntry::Accept => {
-                writeln!(output, "Transition transition{{0, true}};")?;
-                writeln!(output, "return transition;")?;
+                writeln!(output, "return {};", target)?;
             }
             _ => (),
         }
@@ -137,6 +132,10 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                 writeln!(output, "Action act{{ActionType::Reduce, {}}};", rule_index)?;
                 writeln!(output, "return act;")?;
             }
+            TableEntry::Accept => {
+                writeln!(output, "Action act{{ActionType::Accept, 0}};")?;
+                writeln!(output, "return act;")?;
+            }
             _ => (),
         }
         writeln!(output, "}}")
@@ -149,7 +148,9 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
         symbol: Symbol,
     ) -> Result<bool, Error> {
         Ok(match entry {
-            TableEntry::Shift { target: _ } | TableEntry::Reduce { rule: _ } => {
+            TableEntry::Shift { target: _ }
+            | TableEntry::Reduce { rule: _ }
+            | TableEntry::Accept => {
                 write!(output, "case ")?;
 
                 match symbol {
diff --git a/lapex-cpp-codegen/src/lr_parser/parser.cpp.tpl b/lapex-cpp-codegen/src/lr_parser/parser.cpp.tpl
index 493da7e..79c30ec 100644
--- a/lapex-cpp-codegen/src/lr_parser/parser.cpp.tpl
+++ b/lapex-cpp-codegen/src/lr_parser/parser.cpp.tpl
@@ -20,7 +20,7 @@ namespace parser
         /*{stack_reduce_table}*/
     }
 
-    Transition retrieve_next_state(uint32_t state, const Symbol &current_symbol)
+    uint32_t retrieve_next_state(uint32_t state, const Symbol &current_symbol)
     {
         /*{goto_table}*/
     }
diff --git a/lapex-cpp-codegen/src/lr_parser/parser_impl.h.tpl b/lapex-cpp-codegen/src/lr_parser/parser_impl.h.tpl
index 053d07b..7eb893f 100644
--- a/lapex-cpp-codegen/src/lr_parser/parser_impl.h.tpl
+++ b/lapex-cpp-codegen/src/lr_parser/parser_impl.h.tpl
@@ -30,6 +30,7 @@ namespace parser
     {
         Shift,
         Reduce,
+        Accept,
     };
 
     struct Action
@@ -38,17 +39,11 @@ namespace parser
         uint16_t reduced_rule;
     };
 
-    struct Transition
-    {
-        uint32_t next_state;
-        bool is_accepting;
-    };
-
     Action determine_action(uint32_t state, const lexer::TokenType &lookahead_tpken);
 
     void reduce_stack(uint32_t rule, std::vector<Symbol> &parse_stack, std::vector<Symbol> &rev_reduced_symbols);
 
-    Transition retrieve_next_state(uint32_t state, const Symbol &current_symbol);
+    uint32_t retrieve_next_state(uint32_t state, const Symbol &current_symbol);
 
     template <class T>
     void reduce_visitor(Visitor<T> &visitor, const std::vector<Symbol> &rev_reduced_symbols, uint32_t rule)
@@ -69,7 +64,7 @@ namespace parser
         Symbol entry_symbol{SymbolKind::State, static_cast<uint32_t>(/*{entry_state}*/)};
         parse_stack.push_back(entry_symbol);
 
-        while (parse_stack.size() > 0)
+        while (true)
         {
             auto next_token_and_data = lookahead.front();
             lexer::TokenType next_tk = next_token_and_data.first;
@@ -91,19 +86,14 @@ namespace parser
                 reduce_stack(action.reduced_rule, parse_stack, rev_reduced_symbols);
                 reduce_visitor(this->visitor, rev_reduced_symbols, action.reduced_rule);
             }
-            Symbol current_symbol = parse_stack.back();
-            uint32_t stack_state = parse_stack.at(parse_stack.size() - 2).identifier;
-            Transition transition = retrieve_next_state(stack_state, current_symbol);
-            if (transition.is_accepting)
-            {
-                parse_stack.pop_back();
-                parse_stack.pop_back();
-            }
             else
             {
-                Symbol next_state_symbol{SymbolKind::State, transition.next_state};
-                parse_stack.push_back(next_state_symbol);
+                return;
             }
+            Symbol current_symbol = parse_stack.back();
+            uint32_t stack_state = parse_stack.at(parse_stack.size() - 2).identifier;
+            Symbol next_state_symbol{SymbolKind::State, retrieve_next_state(stack_state, current_symbol)};
+            parse_stack.push_back(next_state_symbol);
         }
     }
 }
diff --git a/lapex-parser/src/lr_parser/mod.rs b/lapex-parser/src/lr_parser/mod.rs
index 2162ba7..778bfbe 100644
--- a/lapex-parser/src/lr_parser/mod.rs
+++ b/lapex-parser/src/lr_parser/mod.rs
@@ -188,15 +188,13 @@ fn generate_parser_graph<'grammar: 'rules, 'rules, const N: usize>(
         for item in item_set {
             if let Some(transition_symbol) = item.symbol_after_dot() {
                 let mut target_item = item.clone();
-                if target_item.rule().lhs().is_some() {
-                    target_item.advance_dot();
-                    let target_item_set =
-                        expand_item(target_item, first_sets, &rules_map, &mut item_set_cache);
-                    let transition_set = transition_map
-                        .entry(transition_symbol)
-                        .or_insert(ItemHashSet::new());
-                    transition_set.extend(target_item_set.iter().map(|i| i.clone()));
-                }
+                target_item.advance_dot();
+                let target_item_set =
+                    expand_item(target_item, first_sets, &rules_map, &mut item_set_cache);
+                let transition_set = transition_map
+                    .entry(transition_symbol)
+                    .or_insert(ItemHashSet::new());
+                transition_set.extend(target_item_set.iter().map(|i| i.clone()));
             }
         }
         for (edge, item_set) in transition_map {
@@ -298,6 +296,10 @@ fn find_conflicts<'grammar, 'rules, const N: usize>(
                     items: reducing_items.into_iter().map(|i| i.to_lr0()).collect(),
                 });
             } else if reducing_items.len() == 1 {
+                // the completed entry rule accepts at the end of the input only, which is never shifted
+                if reducing_items[0].rule().lhs().is_none() {
+                    continue;
+                }
                 let outgoing_edges = parser_graph.graph.edges_directed(*state, Outgoing);
                 for edge in outgoing_edges {
                     if N > 1 {
@@ -492,6 +494,11 @@ fn build_table<'grammar, 'rules, const N: usize>(
         for item in item_set {
             // we can continue after this since there can be at most one reducable (conflicts already checked)
             if item.symbol_after_dot().is_none() {
+                // the entry rule has no LHS to reduce to; the input is accepted once it ends
+                if item.rule().lhs().is_none() {
+                    table.insert_accept(*state, Symbol::End);
+                    continue;
+                }
                 match N {
                     0 => {
                         for symbol in grammar.symbols().chain(std::iter::once(Symbol::End)) {
@@ -511,15 +518,11 @@ fn build_table<'grammar, 'rules, const N: usize>(
             .map(|e| (*e.weight(), e.target()))
             .collect();
         for symbol in grammar.symbols() {
-            if symbol == *grammar.entry_point() && state.index() == entry_state {
-                table.insert_accept(*state, symbol);
+            if let Some(target) = reachable_states.get(&symbol) {
+                table.insert_shift(*state, symbol, *target);
             } else {
-                if let Some(target) = reachable_states.get(&symbol) {
-                    table.insert_shift(*state, symbol, *target);
-                } else {
-                    if table.get_entry(state.index(), symbol).is_none() {
-                        table.insert_error(*state, symbol);
-                    }
+                if table.get_entry(state.index(), symbol).is_none() {
+                    table.insert_error(*state, symbol);
                 }
             }
         }
diff --git a/lapex-rust-codegen/src/glr_parser/mod.rs b/lapex-rust-codegen/src/glr_parser/mod.rs
index 07e85e9..f9caa17 100644
--- a/lapex-rust-codegen/src/glr_parser/mod.rs
+++ b/lapex-rust-codegen/src/glr_parser/mod.rs
@@ -212,12 +212,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
             match entry {
                 TableEntry::Shift { target } => {
                     gotos.push(quote! {
-                        #condition => Some(Goto::State { state_id: #target }),
-                    });
-                }
-                TableEntry::Accept => {
-                    gotos.push(quote! {
-                        #condition => Some(Goto::Accept),
+                        #condition => Some(#target),
                     });
                 }
                 _ => (),
@@ -302,6 +297,11 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                             Action::Reduce { rule: ReducedRule::#rule_name }
                         });
                     }
+                    TableEntry::Accept => {
+                        actions_for_entry.push(quote! {
+                           Action::Accept
+                        });
+                    }
                     _ => (),
                 }
             }
@@ -320,7 +320,9 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
         expected_symbols: &mut BTreeSet<Option<SymbolIdx>>,
     ) {
         match entry {
-            TableEntry::Shift { target: _ } | TableEntry::Reduce { rule: _ } => match symbol {
+            TableEntry::Shift { target: _ }
+            | TableEntry::Reduce { rule: _ }
+            | TableEntry::Accept => match symbol {
                 Symbol::Terminal(token_index) => {
                     expected_symbols.insert(Some(token_index));
                 }
@@ -433,12 +435,8 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
 
             enum Action {
                 Shift,
-                Reduce { rule: ReducedRule }
-            }
-
-            enum Goto {
-                Accept,
-                State { state_id: usize }
+                Reduce { rule: ReducedRule },
+                Accept
             }
 
             type StateId = usize;
@@ -516,7 +514,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                     }
                 }
 
-                fn next_goto(&self, state: &usize, symbol: &StackSymbol) -> Option<Goto> {
+                fn next_goto(&self, state: &usize, symbol: &StackSymbol) -> Option<StateId> {
                     match (state, symbol) {
                         #(#gotos)*
                         (_, _) => None,
@@ -543,52 +541,48 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                     let stack = root.push(Some(#entry), None);
                     let mut stacks = vec![stack];
 
-                    while !(stacks.len() == 1 && stacks[0].is_root()) {
+                    loop {
                         let (next_token, next_data) = lookahead.front().unwrap();
-                        let reduced = self
+                        let (reduced, accepted) = self
                             .apply_reduces(stacks, next_token, next_data)
                             .map_err(combine_errors)?;
 
+                        // the input may be ambiguous, in which case the first derivation is chosen
+                        if let Some(stack) = accepted.into_iter().next() {
+                            self.visit_recorded(stack.pop_recorded());
+                            return Ok(());
+                        }
+
                         let (next_token, next_data) = lookahead.pop_front().unwrap();
                         let new_symbol = StackSymbol::Terminal { token: next_token };
                         lookahead.push_back((self.token_function)().map_err(|e| ParserError::LexerError { inner: e })?);
 
-                        let mut new_stacks = if reduced.iter().any(|s| s.top().is_none()) {
-                            reduced
-                        } else {
-                            let mut new_stacks = Vec::new();
-                            for stack in reduced {
-                                let state = *stack.top().unwrap();
-                                match self.next_goto(&state, &new_symbol) {
-                                    Some(Goto::State { state_id }) => {
-                                        stack.record(RecordedVisit::Shift {
-                                            token: next_token,
-                                            data: next_data.clone(),
-                                        });
-                                        let new_node = stack.push(Some(state_id), Some(new_symbol));
-                                        new_stacks.push(new_node);
-                                    }
-                                    Some(Goto::Accept) => unreachable!(),
-                                    None => (),
-                                }
+                        let mut new_stacks = Vec::new();
+                        for stack in reduced {
+                            let state = *stack.top().unwrap();
+                            if let Some(state_id) = self.next_goto(&state, &new_symbol) {
+                                stack.record(RecordedVisit::Shift {
+                                    token: next_token,
+                                    data: next_data.clone(),
+                                });
+                                let new_node = stack.push(Some(state_id), Some(new_symbol));
+                                new_stacks.push(new_node);
                             }
-                            new_stacks
-                        };
+                        }
                         if new_stacks.len() == 1 {
-                            let stack = new_stacks.pop().unwrap();
-                            let recorded = stack.pop_recorded();
-                            for record in recorded {
-                                match record {
-                                    RecordedVisit::Reduce { rule } => self.do_visit(&rule),
-                                    RecordedVisit::Shift { token, data } => self.visitor.shift(token, data),
-                                }
-                            }
-                            stacks = vec![stack];
-                        } else {
-                            stacks = new_stacks;
+                            self.visit_recorded(new_stacks[0].pop_recorded());
+                        }
+                        stacks = new_stacks;
+                    }
+                }
+
+                fn visit_recorded(&mut self, recorded: Vec<RecordedVisit<T>>) {
+                    for record in recorded {
+                        match record {
+                            RecordedVisit::Reduce { rule } => self.do_visit(&rule),
+                            RecordedVisit::Shift { token, data } => self.visitor.shift(token, data),
                         }
                     }
-                    Ok(())
                 }
 
                 fn apply_reduces(
@@ -596,9 +590,10 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                     stacks: Vec<GraphNode<usize, StackSymbol, RecordedVisit<T>>>,
                     next_token: &TokenType,
                     next_data: &T
-                ) -> Result<Vec<GraphNode<usize, StackSymbol, RecordedVisit<T>>>, Vec<ParserError<T, E>>> {
+                ) -> Result<(Vec<GraphNode<usize, StackSymbol, RecordedVisit<T>>>, Vec<GraphNode<usize, StackSymbol, RecordedVisit<T>>>), Vec<ParserError<T, E>>> {
                     let mut to_reduce = stacks;
                     let mut reduced = Vec::new();
+                    let mut accepted = Vec::new();
                     while !to_reduce.is_empty() {
                         let mut errors = Vec::new();
                         let all_error_count = to_reduce.len();
@@ -613,13 +608,15 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                                                 self.apply_reduce(
                                                     reduced_rule,
                                                     &stack,
-                                                    &mut reduced,
                                                     &mut new_to_reduce,
                                                 );
                                             }
                                             Action::Shift => {
                                                 reduced.push(stack.clone_and_fork_record());
                                             }
+                                            Action::Accept => {
+                                                accepted.push(stack.clone_and_fork_record());
+                                            }
                                         };
                                     }
                                 }
@@ -629,19 +626,18 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                             }
                         }
                         // if all reduces errored, the parser must have encountered an error
-                        if reduced.is_empty() && errors.len() == all_error_count {
+                        if reduced.is_empty() && accepted.is_empty() && errors.len() == all_error_count {
                             return Err(errors);
                         }
                         to_reduce = new_to_reduce;
                     }
-                    Ok(reduced)
+                    Ok((reduced, accepted))
                 }
 
                 fn apply_reduce(
                     &mut self,
                     reduced_rule: &ReducedRule,
                     stack: &GraphNode<usize, StackSymbol, RecordedVisit<T>>,
-                    accepted: &mut Vec<GraphNode<StateId, StackSymbol, RecordedVisit<T>>>,
                     new_to_reduce: &mut Vec<GraphNode<usize, StackSymbol, RecordedVisit<T>>>,
                 ) {
                     let (to_pop, reduced_symbol) = self.get_rule_reduction(&reduced_rule);
@@ -656,17 +652,10 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                             stack = new_stack;
                         }
                         let state = *stack.top().unwrap();
-                        match self.next_goto(&state, &reduced_symbol) {
-                            Some(Goto::State { state_id }) => {
-                                // push new non-terminal
-                                let new_node = stack.push(Some(state_id), Some(reduced_symbol));
-                                new_to_reduce.push(new_node);
-                            }
-                            Some(Goto::Accept) => {
-                                let (_edge, root) = stack.pop();
-                                accepted.push(root);
-                            }
-                            None => (),
+                        if let Some(state_id) = self.next_goto(&state, &reduced_symbol) {
+                            // push new non-terminal
+                            let new_node = stack.push(Some(state_id), Some(reduced_symbol));
+                            new_to_reduce.push(new_node);
                         }
                     }
                 }
@@ -782,10 +771,6 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                         self.recorded.borrow_mut().push(record);
                     }
 
-                    pub fn is_root(&self) -> bool {
-                        self.inner.borrow().node_value.is_none()
-                    }
-
                     pub fn push(self, value: Option<N>, edge: Option<E>) -> GraphNode<N, E, R> {
                         let mut new_node = self.new_with_same_record(value);
                         new_node.add_edge(edge, self);
diff --git a/lapex-rust-codegen/src/lr_parser/mod.rs b/lapex-rust-codegen/src/lr_parser/mod.rs
index 87cc0c8..ca14b7b 100644
--- a/lapex-rust-codegen/src/lr_parser/mod.rs
+++ b/lapex-rust-codegen/src/lr_parser/mod.rs
@@ -159,12 +159,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
             match entry {
                 TableEntry::Shift { target } => {
                     gotos.push(quote! {
-                        #condition => Goto::State { state_id: #target },
-                    });
-                }
-                TableEntry::Accept => {
-                    gotos.push(quote! {
-                        #condition => Goto::Accept,
+                        #condition => #target,
                     });
                 }
                 _ => (),
@@ -244,6 +239,11 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                         #condition => Ok(Action::Reduce { rule: ReducedRule::#rule_name }),
                     });
                 }
+                TableEntry::Accept => {
+                    actions.push(quote! {
+                        #condition => Ok(Action::Accept),
+                    });
+                }
                 _ => (),
             }
         }
@@ -256,7 +256,9 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
         expected_symbols: &mut Vec<Option<SymbolIdx>>,
     ) {
         match entry {
-            TableEntry::Shift { target: _ } | TableEntry::Reduce { rule: _ } => match symbol {
+            TableEntry::Shift { target: _ }
+            | TableEntry::Reduce { rule: _ }
+            | TableEntry::Accept => match symbol {
                 Symbol::Terminal(token_index) => {
                     expected_symbols.push(Some(token_index));
                 }
@@ -370,12 +372,8 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
 
             enum Action {
                 Shift,
-                Reduce { rule: ReducedRule }
-            }
-
-            enum Goto {
-                Accept,
-                State { state_id: usize }
+                Reduce { rule: ReducedRule },
+                Accept
             }
 
             #[derive(Debug)]
@@ -415,7 +413,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                     }
                 }
 
-                fn next_goto(&self, state: usize, symbol: StackSymbol) -> Goto {
+                fn next_goto(&self, state: usize, symbol: StackSymbol) -> usize {
                     match (state, symbol) {
                         #(#gotos)*
                         (_, _) => unreachable!()
@@ -443,7 +441,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                     let mut stack = Vec::new();
                     stack.push(StackSymbol::State { state_id: #entry });
 
-                    while !stack.is_empty() {
+                    loop {
                         let (next_token, _) = lookahead.front().unwrap();
                         let state = match stack.last().unwrap() {
                             StackSymbol::State { state_id } => *state_id,
@@ -461,24 +459,16 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                             Action::Reduce { rule: reduced_rule } => {
                                 self.reduce_stack_and_visit(reduced_rule, &mut stack);
                             }
+                            Action::Accept => return Ok(())
                         }
                         let current_symbol = stack.last().unwrap();
                         let state = match &stack[stack.len() - 2] {
                             StackSymbol::State { state_id } => *state_id,
                             _ => unreachable!()
                         };
-                        let goto = self.next_goto(state, *current_symbol);
-                        match goto {
-                            Goto::Accept => {
-                                stack.pop();
-                                stack.pop();
-                            }
-                            Goto::State { state_id } => {
-                                stack.push(StackSymbol::State { state_id })
-                            }
-                        }
+                        let state_id = self.next_goto(state, *current_symbol);
+                        stack.push(StackSymbol::State { state_id });
                     }
-                    Ok(())
                 }
             }
         };
-- 
2.43.0


From eb3a8df203da2632d8f5403d4ffd180f4771f08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:05 +0000
Subject: [PATCH 02/19] fix: substitute the entry non-terminal in generated C++
 LL parsers

---
 lapex-cpp-codegen/src/ll_parser/parser_impl.h.tpl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lapex-cpp-codegen/src/ll_parser/parser_impl.h.tpl b/lapex-cpp-codegen/src/ll_parser/parser_impl.h.tpl
index ee3e370..8d733c1 100644
--- a/lapex-cpp-codegen/src/ll_parser/parser_impl.h.tpl
+++ b/lapex-cpp-codegen/src/ll_parser/parser_impl.h.tpl
@@ -54,7 +54,7 @@ namespace parser
         std::stack<Symbol> parse_stack;
         Symbol end{SymbolKind::Terminal, static_cast<uint32_t>(lexer::TokenType::TK_EOF)};
         parse_stack.push(end);
-        Symbol entry{SymbolKind::NonTerminal, static_cast<uint32_t>({grammar_entry_non_terminal})};
+        Symbol entry{SymbolKind::NonTerminal, static_cast<uint32_t>(/*{grammar_entry_non_terminal}*/)};
         parse_stack.push(entry);
 
         while (parse_stack.size() > 0)
-- 
2.43.0


From c607f3e0f984936ab5b7909269ac78406e016604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:05 +0000
Subject: [PATCH 03/19] fix: select C++ LL table rows by non-terminal type

The non-terminal indices of the grammar are not the values of the generated enum
when a production has several rules or repetitions are used.
---
 lapex-cpp-codegen/src/ll_parser/mod.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lapex-cpp-codegen/src/ll_parser/mod.rs b/lapex-cpp-codegen/src/ll_parser/mod.rs
index 665a047..f941ec4 100644
--- a/lapex-cpp-codegen/src/ll_parser/mod.rs
+++ b/lapex-cpp-codegen/src/ll_parser/mod.rs
@@ -151,14 +151,14 @@ impl<'parser> CodeWriter<'parser> {
     }
 
     fn write_table_switch(&self, output: &mut dyn Write) -> Result<(), Error> {
-        writeln!(output, "switch(non_terminal.identifier) {{")?;
+        writeln!(
+            output,
+            "switch(static_cast<NonTerminalType>(non_terminal.identifier)) {{"
+        )?;
         for non_terminal in self.grammar.non_terminals() {
-            let non_terminal_index = if let Symbol::NonTerminal(i) = non_terminal {
-                i
-            } else {
-                unreachable!()
-            };
-            writeln!(output, "case {}: {{", non_terminal_index)?;
+            write!(output, "case NonTerminalType::")?;
+            self.write_non_terminal_enum_name(non_terminal, output)?;
+            writeln!(output, ": {{")?;
             writeln!(output, "switch (lookahead) {{")?;
             for (terminal, token_name) in self.grammar.terminals_with_names() {
                 let entry = self.parser_table.get_production(non_terminal, &terminal);
-- 
2.43.0


From 36994a7dbf30a8b1f6fce2e26c49ad8ac7253508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:05 +0000
Subject: [PATCH 04/19] fix: expand C++ LL productions at the end of the input

---
 lapex-cpp-codegen/src/ll_parser/mod.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lapex-cpp-codegen/src/ll_parser/mod.rs b/lapex-cpp-codegen/src/ll_parser/mod.rs
index f941ec4..6571dbf 100644
--- a/lapex-cpp-codegen/src/ll_parser/mod.rs
+++ b/lapex-cpp-codegen/src/ll_parser/mod.rs
@@ -150,6 +150,12 @@ impl<'parser> CodeWriter<'parser> {
         writeln!(output, "throw std::runtime_error(\"{}\");", message)
     }
 
+    fn lookaheads_with_names(&self) -> impl Iterator<Item = (Symbol, &str)> {
+        self.grammar
+            .terminals_with_names()
+            .chain(std::iter::once((Symbol::End, "EOF")))
+    }
+
     fn write_table_switch(&self, output: &mut dyn Write) -> Result<(), Error> {
         writeln!(
             output,
@@ -160,7 +166,7 @@ impl<'parser> CodeWriter<'parser> {
             self.write_non_terminal_enum_name(non_terminal, output)?;
             writeln!(output, ": {{")?;
             writeln!(output, "switch (lookahead) {{")?;
-            for (terminal, token_name) in self.grammar.terminals_with_names() {
+            for (terminal, token_name) in self.lookaheads_with_names() {
                 let entry = self.parser_table.get_production(non_terminal, &terminal);
                 if let Some(symbols) = entry {
                     writeln!(output, "case lexer::TokenType::TK_{}: {{", token_name)?;
@@ -172,8 +178,7 @@ impl<'parser> CodeWriter<'parser> {
             writeln!(output, "default:")?;
             self.write_parser_table_error(
                 self.grammar.get_production_name(&non_terminal),
-                self.grammar
-                    .terminals_with_names()
+                self.lookaheads_with_names()
                     .filter(|(symbol, _)| {
                         self.parser_table
                             .get_production(non_terminal, symbol)
-- 
2.43.0


From 14a4c9e001261f9b8b0e3d871e308601d9acad49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:05 +0000
Subject: [PATCH 05/19] fix: support exact repetition counts in token patterns

---
 lapex-lexer/src/nfa/mod.rs | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/lapex-lexer/src/nfa/mod.rs b/lapex-lexer/src/nfa/mod.rs
index 631f861..65e8909 100644
--- a/lapex-lexer/src/nfa/mod.rs
+++ b/lapex-lexer/src/nfa/mod.rs
@@ -109,19 +109,21 @@ fn build_nfa_from_pattern<'rules>(
                             let additional_until_max = max - min;
                             let max_start = nfa.add_intermediate_state();
                             nfa.add_epsilon_transition(inner_end, max_start);
-                            let max_end = nfa.add_intermediate_state();
-                            let mut max_intermediates = chain_pattern_times(
-                                alphabet,
-                                nfa,
-                                additional_until_max as usize,
-                                inner,
-                                max_start,
-                                max_end,
-                            );
-                            max_intermediates.push(max_start);
-                            max_intermediates.push(max_end);
-                            for mi in max_intermediates {
-                                nfa.add_epsilon_transition(mi, end);
+                            nfa.add_epsilon_transition(max_start, end);
+                            if additional_until_max > 0 {
+                                let max_end = nfa.add_intermediate_state();
+                                let mut max_intermediates = chain_pattern_times(
+                                    alphabet,
+                                    nfa,
+                                    additional_until_max as usize,
+                                    inner,
+                                    max_start,
+                                    max_end,
+                                );
+                                max_intermediates.push(max_end);
+                                for mi in max_intermediates {
+                                    nfa.add_epsilon_transition(mi, end);
+                                }
                             }
                         }
                     }
-- 
2.43.0


From c0012e84761f12cb29468b98eeb6cf28d5890299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:05 +0000
Subject: [PATCH 06/19] fix: accept token patterns with an empty alternative

These also arise from ordinary patterns such as [0-9][0-9]|[0-9][0-9][0-9], as
the regex parser factors out common prefixes.
---
 lapex-input-gen/src/lib.rs | 9 ++++++---
 lapex-lexer/src/nfa/mod.rs | 2 ++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/lapex-input-gen/src/lib.rs b/lapex-input-gen/src/lib.rs
index ceadc3d..b6412e2 100644
--- a/lapex-input-gen/src/lib.rs
+++ b/lapex-input-gen/src/lib.rs
@@ -84,9 +84,9 @@ impl Display for RegexConversionError {
 
 fn make_pattern_from_hir(hir: &Hir) -> Result<Pattern, RegexConversionError> {
     Ok(match hir.kind() {
-        HirKind::Empty => {
-            return Err(RegexConversionError::EmptyRegex);
-        }
+        HirKind::Empty => Pattern::Sequence {
+            elements: Vec::new(),
+        },
         HirKind::Literal(lit) => {
             let chars = std::str::from_utf8(lit.0.as_ref())?;
             Pattern::Sequence {
@@ -139,6 +139,9 @@ fn make_pattern_from_hir(hir: &Hir) -> Result<Pattern, RegexConversionError> {
 
 fn get_regex_pattern(text: &str) -> Result<Pattern, RegexConversionError> {
     let regex_ast = regex_syntax::parse(&text[1..text.len() - 1])?;
+    if let HirKind::Empty = regex_ast.kind() {
+        return Err(RegexConversionError::EmptyRegex);
+    }
     Ok(make_pattern_from_hir(&regex_ast)?)
 }
 
diff --git a/lapex-lexer/src/nfa/mod.rs b/lapex-lexer/src/nfa/mod.rs
index 65e8909..ae352df 100644
--- a/lapex-lexer/src/nfa/mod.rs
+++ b/lapex-lexer/src/nfa/mod.rs
@@ -62,6 +62,8 @@ fn build_nfa_from_pattern<'rules>(
         Pattern::Sequence { elements } => {
             if !elements.is_empty() {
                 chain_pattern_iterator(alphabet, nfa, elements.into_iter().peekable(), start, end);
+            } else {
+                nfa.add_epsilon_transition(start, end);
             }
         }
         Pattern::Alternative { elements } => {
-- 
2.43.0


From 410ac8fe2afab35d989ea96335068ef9c1ab0667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:05 +0000
Subject: [PATCH 07/19] fix: keep rules and alternatives in the order of the
 grammar file

---
 lapex-input-gen/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lapex-input-gen/src/lib.rs b/lapex-input-gen/src/lib.rs
index b6412e2..b854822 100644
--- a/lapex-input-gen/src/lib.rs
+++ b/lapex-input-gen/src/lib.rs
@@ -399,7 +399,7 @@ impl<'stack, 'src> parser::Visitor<TokenData<'src>> for LapexAstVisitor<'stack,
         } else {
             panic!("Stack is broken")
         };
-        elements.push(pattern);
+        elements.insert(0, pattern);
         self.stack.push(Spanned::between(
             concat_span,
             alt_span,
@@ -451,7 +451,7 @@ impl<'stack, 'src> parser::Visitor<TokenData<'src>> for LapexAstVisitor<'stack,
         } else {
             panic!("Stack is broken")
         };
-        rules.push(rule);
+        rules.insert(0, rule);
         self.stack.push(Spanned::zero(Ast::Rules(rules)))
     }
 
-- 
2.43.0


From e5aa54f1a020d317844f4423bc14e6e98e1eb696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:05 +0000
Subject: [PATCH 08/19] fix: count columns of grammar source spans in
 characters

SourcePos::offset counts characters, so spans following non-ASCII text on the
same line were misplaced or made error reporting panic.
---
 lapex-input-gen/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lapex-input-gen/src/lib.rs b/lapex-input-gen/src/lib.rs
index b854822..372b87d 100644
--- a/lapex-input-gen/src/lib.rs
+++ b/lapex-input-gen/src/lib.rs
@@ -529,7 +529,7 @@ impl LapexInputParser for GeneratedLapexInputParser {
                         line += 1;
                     }
                     TokenType::TkWhitespace => {
-                        col += lexer.slice().len() as u16;
+                        col += lexer.slice().chars().count() as u16;
                         next_tk = lexer.next().unwrap();
                     }
                     _ => break,
@@ -537,7 +537,7 @@ impl LapexInputParser for GeneratedLapexInputParser {
             }
             let start_line = line;
             let start_col = col;
-            col += lexer.slice().len() as u16;
+            col += lexer.slice().chars().count() as u16;
 
             let token_data = TokenData {
                 text: lexer.slice(),
-- 
2.43.0


From 386d6fd10b8f20a5f33bce3224c1f442981af8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:05 +0000
Subject: [PATCH 09/19] fix: generate Rust names for rules with stray
 underscores

---
 lapex-rust-codegen/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lapex-rust-codegen/src/lib.rs b/lapex-rust-codegen/src/lib.rs
index e6c398f..7630e38 100644
--- a/lapex-rust-codegen/src/lib.rs
+++ b/lapex-rust-codegen/src/lib.rs
@@ -75,6 +75,10 @@ fn get_non_terminal_enum_name(grammar: &Grammar, non_terminal: Symbol) -> String
 fn convert_snake_to_upper_camel(name: &str) -> String {
     name.split('_')
         .map(|s| {
+            // leading, trailing or repeated underscores
+            if s.is_empty() {
+                return String::from("_");
+            }
             let (head, tail) = s.split_at(1);
             format!("{}{}", head.to_ascii_uppercase(), tail.to_ascii_lowercase())
         })
-- 
2.43.0


From 5b0d1e6e03b72bd2b605bd6bdc88c7011f85a723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:05 +0000
Subject: [PATCH 10/19] fix: do not apply production tags to anonymous rules

All rules of a repetition or group inside a tagged production got the same
visitor function name, so the generated code did not compile.
---
 lapex-rust-codegen/src/glr_parser/mod.rs | 8 ++++----
 lapex-rust-codegen/src/lib.rs            | 9 ++++++++-
 lapex-rust-codegen/src/lr_parser/mod.rs  | 6 +++---
 3 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/lapex-rust-codegen/src/glr_parser/mod.rs b/lapex-rust-codegen/src/glr_parser/mod.rs
index f9caa17..0ac707f 100644
--- a/lapex-rust-codegen/src/glr_parser/mod.rs
+++ b/lapex-rust-codegen/src/glr_parser/mod.rs
@@ -11,7 +11,7 @@ use lapex_parser::{
 use quote::{__private::TokenStream, quote};
 
 use crate::RustGLRParserCodeGen;
-use crate::{get_non_terminal_enum_name, get_token_enum_name};
+use crate::{get_non_terminal_enum_name, get_rule_tag, get_token_enum_name};
 
 struct CodeWriter<'grammar, 'rules> {
     grammar: &'grammar Grammar<'grammar>,
@@ -72,7 +72,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                     let comment: TokenStream = format!("///{}", rule.display(self.grammar))
                         .parse()
                         .unwrap();
-                    let tag = rule.rule().inner.tag;
+                    let tag = get_rule_tag(self.grammar, rule);
                     let name = if let Some(tag) = tag {
                         format!("reduce_{}_{}", non_terminal_name, tag)
                     } else {
@@ -114,7 +114,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
             if rules.len() != 1 {
                 for (i, rule) in rules.iter().enumerate() {
                     let comment = format!("{}", rule.display(self.grammar));
-                    let tag = rule.rule().inner.tag;
+                    let tag = get_rule_tag(self.grammar, rule);
                     let name = if let Some(tag) = tag {
                         format!("reduce_{}_{}", non_terminal_name, tag)
                     } else {
@@ -365,7 +365,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                 for (i, rule) in rules.iter().enumerate() {
                     let rule_index = self.rule_index_map.get(&(*rule as *const Rule)).unwrap();
                     let rule_name: TokenStream = format!("Rule{}", rule_index).parse().unwrap();
-                    let tag = rule.rule().inner.tag;
+                    let tag = get_rule_tag(self.grammar, rule);
                     let name = if let Some(tag) = tag {
                         format!("reduce_{}_{}", non_terminal_name, tag)
                     } else {
diff --git a/lapex-rust-codegen/src/lib.rs b/lapex-rust-codegen/src/lib.rs
index 7630e38..6588695 100644
--- a/lapex-rust-codegen/src/lib.rs
+++ b/lapex-rust-codegen/src/lib.rs
@@ -1,4 +1,4 @@
-use lapex_parser::grammar::{Grammar, Symbol};
+use lapex_parser::grammar::{Grammar, Rule, Symbol};
 
 pub struct RustLexerCodeGen {}
 
@@ -72,6 +72,13 @@ fn get_non_terminal_enum_name(grammar: &Grammar, non_terminal: Symbol) -> String
     }
 }
 
+// A tag names the rules of its production, not the anonymous rules its pattern expands to.
+fn get_rule_tag<'rules>(grammar: &Grammar, rule: &Rule<'rules>) -> Option<&'rules str> {
+    let lhs = rule.lhs()?;
+    grammar.get_production_name(&lhs)?;
+    rule.rule().inner.tag
+}
+
 fn convert_snake_to_upper_camel(name: &str) -> String {
     name.split('_')
         .map(|s| {
diff --git a/lapex-rust-codegen/src/lr_parser/mod.rs b/lapex-rust-codegen/src/lr_parser/mod.rs
index ca14b7b..0148771 100644
--- a/lapex-rust-codegen/src/lr_parser/mod.rs
+++ b/lapex-rust-codegen/src/lr_parser/mod.rs
@@ -7,7 +7,7 @@ use lapex_parser::{
 };
 use quote::{__private::TokenStream, quote};
 
-use crate::{get_non_terminal_enum_name, get_token_enum_name, RustLRParserCodeGen};
+use crate::{get_non_terminal_enum_name, get_rule_tag, get_token_enum_name, RustLRParserCodeGen};
 
 struct CodeWriter<'grammar, 'rules> {
     grammar: &'grammar Grammar<'grammar>,
@@ -68,7 +68,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                     let comment: TokenStream = format!("///{}", rule.display(self.grammar))
                         .parse()
                         .unwrap();
-                    let tag = rule.rule().inner.tag;
+                    let tag = get_rule_tag(self.grammar, rule);
                     let name = if let Some(tag) = tag {
                         format!("reduce_{}_{}", non_terminal_name, tag)
                     } else {
@@ -301,7 +301,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                 for (i, rule) in rules.iter().enumerate() {
                     let rule_index = self.rule_index_map.get(&(*rule as *const Rule)).unwrap();
                     let rule_name: TokenStream = format!("Rule{}", rule_index).parse().unwrap();
-                    let tag = rule.rule().inner.tag;
+                    let tag = get_rule_tag(self.grammar, rule);
                     let name = if let Some(tag) = tag {
                         format!("reduce_{}_{}", non_terminal_name, tag)
                     } else {
-- 
2.43.0


From cc78faaad941620cc1020fed54ac82f239d35174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:05 +0000
Subject: [PATCH 11/19] fix: ignore epsilon inside of a sequence

The LR generators panicked or produced dead transitions on it.
---
 lapex-parser/src/grammar_builder.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lapex-parser/src/grammar_builder.rs b/lapex-parser/src/grammar_builder.rs
index 17a0c07..a199ff1 100644
--- a/lapex-parser/src/grammar_builder.rs
+++ b/lapex-parser/src/grammar_builder.rs
@@ -142,8 +142,17 @@ impl<'rules> GrammarBuilder<'rules> {
                     .into_iter()
                     .map(|pattern| self.transform_pattern(pattern, parent_rule))
                     .collect();
-                let symbols: Vec<Symbol> = symbols?.into_iter().flat_map(|v| v).collect();
-                Ok(symbols)
+                // epsilon only stands for the whole right-hand side
+                let symbols: Vec<Symbol> = symbols?
+                    .into_iter()
+                    .flat_map(|v| v)
+                    .filter(|s| *s != Symbol::Epsilon)
+                    .collect();
+                if symbols.is_empty() {
+                    Ok(vec![Symbol::Epsilon])
+                } else {
+                    Ok(symbols)
+                }
             }
             ProductionPattern::Alternative { elements } => {
                 let alt_symbol = self.get_temp_symbol()?;
-- 
2.43.0


From 5903786b6edb75ea97d7d8ccb7c7cf2bba28b958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:36 +0000
Subject: [PATCH 12/19] fix: exit with a failure status when the CLI reports
 errors

---
 lapex-cli/src/main.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lapex-cli/src/main.rs b/lapex-cli/src/main.rs
index 9f3d6f5..69786a8 100644
--- a/lapex-cli/src/main.rs
+++ b/lapex-cli/src/main.rs
@@ -47,6 +47,7 @@ struct DebugArgs {
 
 fn main() {
     let cli = CommandLine::parse();
+    let mut has_errors = false;
     match cli.command {
         Commands::Generate(cmd) => {
             let result = generate(
@@ -66,6 +67,7 @@ fn main() {
                             eprintln!();
                         }
                     }
+                    has_errors = true;
                 }
                 _ => {}
             }
@@ -93,6 +95,7 @@ fn main() {
                             eprintln!();
                         }
                     }
+                    has_errors = true;
                 }
                 _ => {
                     assert!(
@@ -159,4 +162,7 @@ fn main() {
             }
         }
     }
+    if has_errors {
+        std::process::exit(1);
+    }
 }
-- 
2.43.0


From 96d0aec6636065f0b9690dc47ac65865e0ff45ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:43 +0000
Subject: [PATCH 13/19] fix: treat only terminal transitions as shifts in LR(0)
 tables

---
 lapex-parser/src/lr_parser/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lapex-parser/src/lr_parser/mod.rs b/lapex-parser/src/lr_parser/mod.rs
index 778bfbe..03e183f 100644
--- a/lapex-parser/src/lr_parser/mod.rs
+++ b/lapex-parser/src/lr_parser/mod.rs
@@ -316,7 +316,8 @@ fn find_conflicts<'grammar, 'rules, const N: usize>(
                                 shift_symbol: *edge.weight(),
                             });
                         }
-                    } else {
+                    } else if let Symbol::Terminal(_) = edge.weight() {
+                        // transitions on non-terminals are gotos and conflict with nothing
                         conflicts.insert(Conflict::ShiftReduce {
                             state: state.index(),
                             item_to_reduce: reducing_items
@@ -501,7 +502,7 @@ fn build_table<'grammar, 'rules, const N: usize>(
                 }
                 match N {
                     0 => {
-                        for symbol in grammar.symbols().chain(std::iter::once(Symbol::End)) {
+                        for symbol in grammar.terminals().chain(std::iter::once(Symbol::End)) {
                             table.insert_reduce(*state, symbol, item.rule())
                         }
                     }
-- 
2.43.0


From d8357ba5f3bcfc396cbcbe74dcc395c05167e2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:27 +0000
Subject: [PATCH 14/19] fix: allow more than 255 symbols in a rule

---
 lapex-parser/src/lr_parser/item.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lapex-parser/src/lr_parser/item.rs b/lapex-parser/src/lr_parser/item.rs
index 43e8d6b..bdf35b4 100644
--- a/lapex-parser/src/lr_parser/item.rs
+++ b/lapex-parser/src/lr_parser/item.rs
@@ -8,7 +8,7 @@ use lapex_input::{ProductionRule, Spanned};
 
 use crate::grammar::{Grammar, Rule, Symbol};
 
-type DotIdx = u8;
+type DotIdx = u16;
 
 struct RuleRef<'grammar, 'rules>(pub &'grammar Rule<'rules>);
 
-- 
2.43.0


From 6b56a259fb59e63798b90945fee801207c54158d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:10 +0000
Subject: [PATCH 15/19] fix: keep newlines out of the dot in grammars read by
 the bootstrap parser

---
 lapex-input-bootstrap/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lapex-input-bootstrap/src/lib.rs b/lapex-input-bootstrap/src/lib.rs
index b18c40d..74bd18b 100644
--- a/lapex-input-bootstrap/src/lib.rs
+++ b/lapex-input-bootstrap/src/lib.rs
@@ -117,8 +117,9 @@ fn parse_regex_element(input: &[u8]) -> IResult<&[u8], Pattern> {
     alt((
         parse_regex_group,
         parse_char_set,
+        // as in regular expressions of the generated front end, the dot does not match a newline
         map(tag("."), |_| Pattern::CharSet {
-            chars: Vec::new(),
+            chars: vec![Characters::Single('\n')],
             negated: true,
         }),
         map(parse_char, |ch| Pattern::Char {
-- 
2.43.0


From f7f95c52feb097dcd6d8b94c70906fdcfcb7654b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:32 +0000
Subject: [PATCH 16/19] fix: report output that fails when the last buffered
 bytes are written

---
 lapex-codegen/src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lapex-codegen/src/lib.rs b/lapex-codegen/src/lib.rs
index cd9a4ae..5d3aab9 100644
--- a/lapex-codegen/src/lib.rs
+++ b/lapex-codegen/src/lib.rs
@@ -43,10 +43,13 @@ impl<'writer> GeneratedCodeWriter<'writer> {
         G: Fn(&mut dyn Write) -> Result<(), std::io::Error>,
     {
         if let Some(writer) = self.targets.get_mut(&key) {
-            code_generator(writer)
+            code_generator(writer)?;
+            writer.flush()
         } else {
             let mut sink = (self.default_writer_fun)(key)?;
-            code_generator(&mut sink)
+            code_generator(&mut sink)?;
+            // a buffered writer that is merely dropped would lose the error
+            sink.flush()
         }
     }
 }
-- 
2.43.0


From 560c8eade3d23e3a62b044b368da389c6f85ada1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:31 +0000
Subject: [PATCH 17/19] fix: release deep GLR parse stacks without recursion

Dropping the linked list of stack nodes recursed once per node, so that the
generated GLR parser overflowed its call stack when an input nested or
right-recursive some tens of thousands of tokens deep turned out wrong.
---
 lapex-rust-codegen/src/glr_parser/mod.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lapex-rust-codegen/src/glr_parser/mod.rs b/lapex-rust-codegen/src/glr_parser/mod.rs
index 0ac707f..e72a0f1 100644
--- a/lapex-rust-codegen/src/glr_parser/mod.rs
+++ b/lapex-rust-codegen/src/glr_parser/mod.rs
@@ -792,6 +792,18 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                     node_value: Option<N>,
                     neighbors: Vec<(Option<E>, GraphNode<N, E, R>)>,
                 }
+
+                impl<N, E, R> Drop for GraphNodeInner<N, E, R> {
+                    fn drop(&mut self) {
+                        // predecessors are released one by one, a recursive drop would overflow the call stack on deep stacks
+                        let mut unreleased = std::mem::take(&mut self.neighbors);
+                        while let Some((_edge, node)) = unreleased.pop() {
+                            if let Ok(inner) = Rc::try_unwrap(node.inner) {
+                                unreleased.append(&mut inner.into_inner().neighbors);
+                            }
+                        }
+                    }
+                }
             }
         };
         write!(output, "{}", tokens)
-- 
2.43.0


From c446a757d1582241caba58e95be772682f70a88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:49 +0000
Subject: [PATCH 18/19] fix: count grammar lines and columns beyond 65535

---
 lapex-input-gen/src/lib.rs | 8 ++++----
 lapex-input/src/lib.rs     | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lapex-input-gen/src/lib.rs b/lapex-input-gen/src/lib.rs
index 372b87d..1e7d945 100644
--- a/lapex-input-gen/src/lib.rs
+++ b/lapex-input-gen/src/lib.rs
@@ -517,8 +517,8 @@ impl LapexInputParser for GeneratedLapexInputParser {
         let mut lexer = lexer::Lexer::new(source);
         let mut stack = Vec::new();
         let visitor = LapexAstVisitor { stack: &mut stack };
-        let mut col: u16 = 1;
-        let mut line: u16 = 1;
+        let mut col: u32 = 1;
+        let mut line: u32 = 1;
         let token_fun = || {
             let mut next_tk = lexer.next().unwrap();
             loop {
@@ -529,7 +529,7 @@ impl LapexInputParser for GeneratedLapexInputParser {
                         line += 1;
                     }
                     TokenType::TkWhitespace => {
-                        col += lexer.slice().chars().count() as u16;
+                        col += lexer.slice().chars().count() as u32;
                         next_tk = lexer.next().unwrap();
                     }
                     _ => break,
@@ -537,7 +537,7 @@ impl LapexInputParser for GeneratedLapexInputParser {
             }
             let start_line = line;
             let start_col = col;
-            col += lexer.slice().chars().count() as u16;
+            col += lexer.slice().chars().count() as u32;
 
             let token_data = TokenData {
                 text: lexer.slice(),
diff --git a/lapex-input/src/lib.rs b/lapex-input/src/lib.rs
index 0703817..84bd361 100644
--- a/lapex-input/src/lib.rs
+++ b/lapex-input/src/lib.rs
@@ -2,8 +2,8 @@ use std::fmt::{Display, Formatter};
 
 #[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Clone, Copy)]
 pub struct SourcePos {
-    pub line: u16,
-    pub col: u16,
+    pub line: u32,
+    pub col: u32,
 }
 
 #[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Clone, Copy)]
-- 
2.43.0


From 1cd6f8d880a70182f07e44a2f402239993fbaff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:25 +0000
Subject: [PATCH 19/19] fix: build token automata of any size without recursion

---
 lapex-automaton/src/lib.rs | 133 +++++++++++++++++++++++++------------
 1 file changed, 90 insertions(+), 43 deletions(-)

diff --git a/lapex-automaton/src/lib.rs b/lapex-automaton/src/lib.rs
index c9b158d..443b048 100644
--- a/lapex-automaton/src/lib.rs
+++ b/lapex-automaton/src/lib.rs
@@ -142,27 +142,28 @@ impl<StateType: Clone + Debug, TransitionType: Debug + Clone + Eq + Ord>
     Nfa<StateType, TransitionType>
 {
     fn epsilon_closure(&self, start_nodes: Vec<StateId>, closure: &mut BTreeSet<StateId>) {
-        for start_node in start_nodes {
-            closure.insert(start_node);
-            let edges = self
+        let mut unvisited = start_nodes;
+        while let Some(node) = unvisited.pop() {
+            if !closure.insert(node) {
+                continue;
+            }
+            for edge in self
                 .graph
-                .edges_directed(start_node, petgraph::Direction::Outgoing);
-            for edge in edges {
+                .edges_directed(node, petgraph::Direction::Outgoing)
+            {
                 if let NfaEdge::Epsilon = edge.weight() {
-                    let target = edge.target();
-                    if !closure.contains(&target) {
-                        self.epsilon_closure(vec![target], closure);
-                    }
+                    unvisited.push(edge.target());
                 }
             }
         }
     }
 
-    fn add_powerset_to_dfa(
+    /// Returns the powerset state of the given nodes, and where to go on from it if it is new.
+    fn add_powerset_state(
         &self,
         dfa: &mut Graph<BTreeSet<StateId>, TransitionType>,
         nodes: Vec<StateId>,
-    ) -> StateId {
+    ) -> (StateId, Option<BTreeMap<TransitionType, Vec<StateId>>>) {
         let mut closure = BTreeSet::new(); // TODO: test perf of different data structures
         self.epsilon_closure(nodes, &mut closure);
 
@@ -173,38 +174,60 @@ impl<StateType: Clone + Debug, TransitionType: Debug + Clone + Eq + Ord>
             .map(|(i, _)| i);
         if let Some(node_dfa) = node_dfa_opt {
             // if the powerset exists, no need to recompute
-            node_dfa
-        } else {
-            // if the powerset is new, add it to the graph and recurse
-            let node_dfa = dfa.add_node(closure.clone());
+            return (node_dfa, None);
+        }
+        let mut target_multi_map: BTreeMap<TransitionType, Vec<StateId>> = BTreeMap::new();
+        for node in &closure {
+            let edges = self
+                .graph
+                .edges_directed(*node, petgraph::Direction::Outgoing);
+            for edge in edges {
+                if let NfaEdge::Transition(t) = edge.weight() {
+                    let target = edge.target();
+                    target_multi_map
+                        .entry(t.clone())
+                        .or_insert(Vec::new())
+                        .push(target);
+                }
+            }
+        }
+        (dfa.add_node(closure), Some(target_multi_map))
+    }
 
-            let mut target_multi_map: BTreeMap<TransitionType, Vec<StateId>> = BTreeMap::new();
-            for node in closure {
-                let edges = self
-                    .graph
-                    .edges_directed(node, petgraph::Direction::Outgoing);
-                for edge in edges {
-                    if let NfaEdge::Transition(t) = edge.weight() {
-                        let target = edge.target();
-                        target_multi_map
-                            .entry(t.clone())
-                            .or_insert(Vec::new())
-                            .push(target);
+    fn add_powerset_to_dfa(
+        &self,
+        dfa: &mut Graph<BTreeSet<StateId>, TransitionType>,
+        nodes: Vec<StateId>,
+    ) -> StateId {
+        let (start, targets) = self.add_powerset_state(dfa, nodes);
+        // the states whose transitions are being added, one within the other; the call stack could
+        // not hold as many as a long token has
+        let mut unfinished = Vec::new();
+        if let Some(targets) = targets {
+            unfinished.push((start, None, targets.into_iter()));
+        }
+        while let Some((node_dfa, _, targets)) = unfinished.last_mut() {
+            let node_dfa = *node_dfa;
+            if let Some((t, nodes)) = targets.next() {
+                match self.add_powerset_state(dfa, nodes) {
+                    (target_dfa, None) => {
+                        dfa.add_edge(node_dfa, target_dfa, t);
+                    }
+                    // if the powerset is new, its transitions come first
+                    (target_dfa, Some(targets)) => {
+                        unfinished.push((target_dfa, Some((node_dfa, t)), targets.into_iter()));
                     }
                 }
+            } else if let Some((_, Some((source_dfa, t)), _)) = unfinished.pop() {
+                dfa.add_edge(source_dfa, node_dfa, t);
             }
-            for (t, targets) in target_multi_map {
-                let target_dfa = self.add_powerset_to_dfa(dfa, targets);
-                dfa.add_edge(node_dfa, target_dfa, t);
-            }
-            node_dfa
         }
+        start
     }
 
-    fn convert_powerset_to_dfa(
+    fn convert_powerset_state(
         &self,
         powerset_dfa: &Graph<BTreeSet<StateId>, TransitionType>,
-        tmp_id: &mut usize,
         dfa: &mut Dfa<Vec<StateType>, TransitionType>,
         visited: &mut BTreeMap<StateId, StateId>,
         node: StateId,
@@ -223,14 +246,40 @@ impl<StateType: Clone + Debug, TransitionType: Debug + Clone + Eq + Ord>
             dfa.add_intermediate_state()
         };
         visited.insert(node, start);
+        start
+    }
 
-        for edge in powerset_dfa.edges_directed(node, petgraph::Direction::Outgoing) {
-            let end = if let Some(end) = visited.get(&edge.target()) {
-                *end
-            } else {
-                self.convert_powerset_to_dfa(powerset_dfa, tmp_id, dfa, visited, edge.target())
-            };
-            dfa.add_transition(start, end, edge.weight().clone());
+    fn convert_powerset_to_dfa(
+        &self,
+        powerset_dfa: &Graph<BTreeSet<StateId>, TransitionType>,
+        dfa: &mut Dfa<Vec<StateType>, TransitionType>,
+        visited: &mut BTreeMap<StateId, StateId>,
+        node: StateId,
+    ) -> StateId {
+        let start = self.convert_powerset_state(powerset_dfa, dfa, visited, node);
+        // as above, the states whose transitions are being added
+        let mut unfinished = vec![(
+            start,
+            None,
+            powerset_dfa.edges_directed(node, petgraph::Direction::Outgoing),
+        )];
+        while let Some((state, _, edges)) = unfinished.last_mut() {
+            let state = *state;
+            if let Some(edge) = edges.next() {
+                if let Some(end) = visited.get(&edge.target()) {
+                    dfa.add_transition(state, *end, edge.weight().clone());
+                } else {
+                    let end =
+                        self.convert_powerset_state(powerset_dfa, dfa, visited, edge.target());
+                    unfinished.push((
+                        end,
+                        Some((state, edge.weight().clone())),
+                        powerset_dfa.edges_directed(edge.target(), petgraph::Direction::Outgoing),
+                    ));
+                }
+            } else if let Some((_, Some((source, t)), _)) = unfinished.pop() {
+                dfa.add_transition(source, state, t);
+            }
         }
         start
     }
@@ -243,13 +292,11 @@ impl<StateType: Clone + Debug, TransitionType: Debug + Clone + Eq + Ord>
 
         let start_dfa = self.add_powerset_to_dfa(&mut powerset_dfa, vec![entrypoint]);
 
-        let mut tmp_id = 0;
         let mut dfa = Dfa::new();
 
         let mut visited = BTreeMap::new();
         self.convert_powerset_to_dfa(
             &powerset_dfa,
-            &mut tmp_id,
             &mut dfa,
             &mut visited,
             start_dfa,
-- 
2.43.0

