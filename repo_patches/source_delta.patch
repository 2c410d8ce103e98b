From 94af5342028318ff0cd33d25c5810c6bb1d75018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:46 +0000
Subject: [PATCH 01/21] fix: computing FIRST of a left recursive non-terminal
 overflowed the stack

---
 src/lalr/first.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/lalr/first.rs b/src/lalr/first.rs
index b77ba6d..ca101de 100644
--- a/src/lalr/first.rs
+++ b/src/lalr/first.rs
@@ -1,6 +1,6 @@
 use std::collections::BTreeSet;
 
-use crate::parser::{Grammar, Symbol};
+use crate::parser::{ast::Ident, Grammar, Symbol};
 
 pub fn first<'ast, I>(
     // bump: &'ast Bump,
@@ -14,7 +14,7 @@ where
 
     let mut prev_has_epsilon = true;
     for symbol in symbols {
-        let _ = first_of_symbol(grammar, &mut set, symbol);
+        let _ = first_of_symbol(grammar, &mut set, &mut BTreeSet::new(), symbol);
         prev_has_epsilon = set.remove(&Symbol::Epsilon);
         if !prev_has_epsilon {
             break;
@@ -29,9 +29,13 @@ where
 }
 
 /// Returns true if the set contains epsilon
+///
+/// `visited` holds the non-terminals whose productions are already being (or have been)
+/// looked at, without it a left recursive non-terminal would recurse forever.
 fn first_of_symbol<'ast>(
     grammar: &'ast Grammar<'ast>,
     set: &mut BTreeSet<&'ast Symbol<'ast>>,
+    visited: &mut BTreeSet<Ident<'ast>>,
     symbol: &'ast Symbol<'ast>,
 ) -> bool {
     let non_terminal = match symbol.as_non_terminal() {
@@ -42,10 +46,14 @@ fn first_of_symbol<'ast>(
         }
     };
 
+    if !visited.insert(*non_terminal) {
+        return false;
+    }
+
     let mut added_epsilon = false;
     for (_, production) in grammar.production_iter(*non_terminal) {
         'input_token_iter: for input_token in production.input_tokens.iter() {
-            if !first_of_symbol(grammar, set, input_token) {
+            if !first_of_symbol(grammar, set, visited, input_token) {
                 break 'input_token_iter;
             } else {
                 added_epsilon = true;
-- 
2.43.0


From 790ec485e8e74f0d9f2d72ece5d6dda889198b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:46 +0000
Subject: [PATCH 02/21] fix: two items of a state that shift the same token
 were reported as a conflict

---
 src/lalr/table.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lalr/table.rs b/src/lalr/table.rs
index f54079e..5ba8fcf 100644
--- a/src/lalr/table.rs
+++ b/src/lalr/table.rs
@@ -136,7 +136,12 @@ pub fn make_lalr_tables<'ast>(
                     };
 
                     match action.entry((i as u32, token_idx)) {
-                        Entry::Vacant(entry) => entry.insert(Action::Shift(j as u32)),
+                        Entry::Vacant(entry) => {
+                            entry.insert(Action::Shift(j as u32));
+                        }
+                        // Several items of this state can have the same terminal after the
+                        // dot, they all shift to the same state
+                        Entry::Occupied(entry) if *entry.get() == Action::Shift(j as u32) => (),
                         Entry::Occupied(_) => panic!("Conflict ({}, {:?})", i, token_idx),
                     };
                 }
-- 
2.43.0


From 53c779007eb03b90c3349434d39a663e32c4d3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:05 +0000
Subject: [PATCH 03/21] fix: transitions of merged LALR states were dropped
 when their target had more lookaheads

---
 src/lalr/item.rs  | 5 +++++
 src/lalr/table.rs | 6 ++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/lalr/item.rs b/src/lalr/item.rs
index 75d5d57..676a945 100644
--- a/src/lalr/item.rs
+++ b/src/lalr/item.rs
@@ -162,6 +162,11 @@ impl ItemSet {
         h.finish()
     }
 
+    /// Whether both sets contain the same LR(0) items
+    pub fn has_same_core(&self, other: &Self) -> bool {
+        self.0.keys().eq(other.0.keys())
+    }
+
     /// Form a union of two item sets.
     ///
     /// It is incorrect to call this with two item sets that don't share the same core
diff --git a/src/lalr/table.rs b/src/lalr/table.rs
index 5ba8fcf..c0fab97 100644
--- a/src/lalr/table.rs
+++ b/src/lalr/table.rs
@@ -108,8 +108,10 @@ pub fn make_lalr_tables<'ast>(
         let goto_ia = item_set.goto(a, grammar);
         let lr_idx = match lr_sets.get_index_of(&goto_ia) {
             Some(i) => i,
+            // `item_set` may have been merged, so the lookaheads of `goto_ia` can be any subset
+            // of those of the LALR state it leads to. Its core tells which one that is.
             None => {
-                return lalr_sets.get_index_of(&goto_ia);
+                return lalr_sets.iter().position(|set| set.has_same_core(&goto_ia));
             }
         };
         lr_to_lalr.get(&lr_idx).cloned()
@@ -190,7 +192,7 @@ pub fn make_lalr_tables<'ast>(
                         *lr_to_lalr.get(&j).expect("LR -> LALR"),
                     );
                 }
-                None => match lalr_sets.get_index_of(&goto_ia) {
+                None => match lalr_sets.iter().position(|set| set.has_same_core(&goto_ia)) {
                     Some(j) => {
                         goto.insert((i as u32, *production_name), j);
                     }
-- 
2.43.0


From 2218d77b9c98f0e91710168922566476726925c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:18 +0000
Subject: [PATCH 04/21] fix: DFA::test took every non-start state for accepting
 and compared characters with bytes

---
 src/lex/dfa.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lex/dfa.rs b/src/lex/dfa.rs
index c2d8e45..45b738c 100644
--- a/src/lex/dfa.rs
+++ b/src/lex/dfa.rs
@@ -101,7 +101,7 @@ impl DFA {
 
     pub fn test(&self, s: &str) -> bool {
         match self.simulate(s) {
-            Some(eaten) => eaten == s.len(),
+            Some(eaten) => eaten == s.chars().count(),
             _ => false,
         }
     }
@@ -122,7 +122,7 @@ impl DFA {
             }
         }
 
-        if self.dfa_to_nfa.contains_key(&state_idx) {
+        if self.dfa_state_is_accepting(state_idx) {
             Some(eaten)
         } else {
             None
@@ -167,6 +167,7 @@ impl DFABuilder {
             nfa.epsilon_closure([NFA::START_IDX].into()),
         )];
         let mut dfa_to_nfa = BTreeMap::new();
+        dfa_to_nfa.insert(DFA::START_IDX, d_states[0].clone());
 
         loop {
             // Loop while there is an unmarked state set
-- 
2.43.0


From 4a520d384482e04f88ba1400837f378ff469fd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:18 +0000
Subject: [PATCH 05/21] fix: lexeme of a token was sliced by character index
 out of the bytes of the input

---
 src/lex/lex.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lex/lex.rs b/src/lex/lex.rs
index 72b5cd8..05cf81e 100644
--- a/src/lex/lex.rs
+++ b/src/lex/lex.rs
@@ -186,7 +186,7 @@ impl Lex {
                     {
             println!("LEXEME_BEGIN: {} FORWARD: {}", lexeme_begin, last_accepting_idx);
                         let tok = self.make_tok(
-                            input,
+                            &chars,
                             lexeme_begin,
                             last_accepting_idx,
                             last_accepting_state_idx,
@@ -211,7 +211,7 @@ impl Lex {
         if let Some((_last_accepting_idx, last_accepting_state_idx)) = last_accepting_state {
             println!("LEXEME_BEGIN: {} FORWARD: {}", lexeme_begin, _last_accepting_idx);
             tokens.push(self.make_tok(
-                input,
+                &chars,
                 lexeme_begin,
                 _last_accepting_idx,
                 last_accepting_state_idx,
@@ -223,7 +223,7 @@ impl Lex {
 
     fn make_tok(
         &self,
-        input: &str,
+        chars: &[char],
         start: usize,
         end: usize,
         last_accepting_state_idx: StateIdx,
@@ -234,8 +234,8 @@ impl Lex {
                 name,
                 ..
             }) => {
-                // let val = char_vec.iter().collect::<String>();
-                let val = input[start..(end + 1)].to_string();
+                // `start` and `end` count characters, not bytes
+                let val = chars[start..(end + 1)].iter().collect::<String>();
                 Token::new_with_val(name.clone(), val)
             }
             Some(TokenDef {
-- 
2.43.0


From fb761f1123aba0b84ddc3b4bdf9c00ab5d69274b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:56 +0000
Subject: [PATCH 06/21] fix: characters after the last accepted token were
 dropped when the input ended in the middle of a longer token

---
 src/lex/lex.rs | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/src/lex/lex.rs b/src/lex/lex.rs
index 05cf81e..84762e9 100644
--- a/src/lex/lex.rs
+++ b/src/lex/lex.rs
@@ -164,12 +164,14 @@ impl Lex {
 
         let mut last_accepting_state: Option<(usize, StateIdx)> = None;
 
-        while forward < chars.len() {
-            let c = chars[forward];
-
-            let matching_edge = match self.dfa.edge_iter(state_idx) {
-                Some(mut edge_iter) => edge_iter.find(|edge| edge.label.matches(c)),
-                None => None,
+        // At the end of the input there is no edge to follow, but there can be
+        // characters left after the last accepting state
+        while forward < chars.len() || last_accepting_state.is_some() {
+            let c = chars.get(forward).copied();
+
+            let matching_edge = match (self.dfa.edge_iter(state_idx), c) {
+                (Some(mut edge_iter), Some(c)) => edge_iter.find(|edge| edge.label.matches(c)),
+                _ => None,
             };
 
             match matching_edge {
@@ -198,7 +200,7 @@ impl Lex {
                         state_idx = StateIdx(0);
 
                         last_accepting_state = None;
-                    } else if Self::is_whitespace(c) && forward == lexeme_begin {
+                    } else if c.map_or(false, Self::is_whitespace) && forward == lexeme_begin {
                         forward += 1;
                         lexeme_begin += 1;
                     } else {
@@ -208,16 +210,6 @@ impl Lex {
             }
         }
 
-        if let Some((_last_accepting_idx, last_accepting_state_idx)) = last_accepting_state {
-            println!("LEXEME_BEGIN: {} FORWARD: {}", lexeme_begin, _last_accepting_idx);
-            tokens.push(self.make_tok(
-                &chars,
-                lexeme_begin,
-                _last_accepting_idx,
-                last_accepting_state_idx,
-            ));
-        }
-
         tokens
     }
 
-- 
2.43.0


From f2de9c4f77cdd5b378cda242e2027a4900bb4fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:33 +0000
Subject: [PATCH 07/21] fix: Lalr::parse ignored everything from the first
 invalid symbol on

---
 src/lalr.rs    | 5 ++++-
 src/lex/lex.rs | 7 ++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/lalr.rs b/src/lalr.rs
index 420d83d..79aa561 100644
--- a/src/lalr.rs
+++ b/src/lalr.rs
@@ -42,7 +42,10 @@ impl<'ast> Lalr<'ast> {
     }
 
     pub fn parse(&self, input: &str) -> String {
-        let tokens = self.lexer.lex(input);
+        let (tokens, eaten) = self.lexer.lex_prefix(input);
+        if let Some(c) = input.chars().nth(eaten) {
+            panic!("Invalid symbol: {:?} at index {}", c, eaten);
+        }
         let tokens_with_idx = self.lexer.convert_tokens(tokens);
 
         self.parse_impl(&tokens_with_idx)
diff --git a/src/lex/lex.rs b/src/lex/lex.rs
index 84762e9..25caa93 100644
--- a/src/lex/lex.rs
+++ b/src/lex/lex.rs
@@ -155,6 +155,11 @@ impl Lex {
     }
 
     pub fn lex(&self, input: &str) -> Vec<Token> {
+        self.lex_prefix(input).0
+    }
+
+    /// Lex as much of the input as possible, also returns how many characters that were
+    pub fn lex_prefix(&self, input: &str) -> (Vec<Token>, usize) {
         let chars: Vec<char> = input.chars().collect();
         let mut tokens = vec![];
         let mut state_idx = StateIdx(0);
@@ -210,7 +215,7 @@ impl Lex {
             }
         }
 
-        tokens
+        (tokens, lexeme_begin)
     }
 
     fn make_tok(
-- 
2.43.0


From bdcc69e3f7af3a0b8ac0519ab382a0ebb751fdae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:33 +0000
Subject: [PATCH 08/21] fix: compiling a regex with an empty sub-expression
 panicked

---
 src/lex/nfa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lex/nfa.rs b/src/lex/nfa.rs
index a5fb31f..ac717d3 100644
--- a/src/lex/nfa.rs
+++ b/src/lex/nfa.rs
@@ -102,7 +102,7 @@ impl NFA {
 
     fn compile(&mut self, regex: &RegexHir, accept: StateIdx) -> OptionUsize<StateIdx> {
         match regex.kind() {
-            HirKind::Empty => OptionUsize::none(),
+            HirKind::Empty => OptionUsize::some(accept),
             HirKind::Literal(lit) => self.compile_match(
                 match lit {
                     Literal::Unicode(c) => Match::char(*c),
-- 
2.43.0


From e9671ecb490a7cfd086b792bceef102fb824f850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:33 +0000
Subject: [PATCH 09/21] fix: generated action for a regex symbol was not valid
 Typescript

---
 src/codegen/parse_gen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codegen/parse_gen.rs b/src/codegen/parse_gen.rs
index ec90cc2..49f8db6 100644
--- a/src/codegen/parse_gen.rs
+++ b/src/codegen/parse_gen.rs
@@ -514,7 +514,7 @@ export type Token =
                             named_sym.name
                         ));
                         cond_stack.push(format!(
-                            "__{}['token']['value'] extends infer {} extendsstring",
+                            "__{}['token']['value'] extends infer {} extends string",
                             named_sym.name, named_sym.name
                         ));
                         else_stack.push(format!(
-- 
2.43.0


From 0297692a6a91abd96e823ee02d481f60241871cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:47 +0000
Subject: [PATCH 10/21] fix: escapes in a string literal were taken as part of
 the token's text

---
 src/parser/support.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/parser/support.rs b/src/parser/support.rs
index f770b05..622c10d 100644
--- a/src/parser/support.rs
+++ b/src/parser/support.rs
@@ -16,12 +16,15 @@ impl<'ast> ParserSupport<'ast> {
     }
 
     pub fn alloc_quoted_str<'a>(&self, s: &'a str) -> &'ast mut str {
-        self.ast.alloc(
-            s.chars()
-                .skip(1)
-                .take(s.chars().count() - 2)
-                .collect::<String>(),
-        )
+        let mut chars = s.chars().skip(1).take(s.chars().count() - 2);
+        let mut ret = String::new();
+
+        // Inside of the quotes `\"` stands for `"` and `\\` for `\`
+        while let Some(c) = chars.next() {
+            ret.push(if c == '\\' { chars.next().unwrap_or(c) } else { c });
+        }
+
+        self.ast.alloc(ret)
     }
 
     pub fn alloc_ts_code<'a>(&self, ts_code_with_paren: &'a str) -> &'ast mut str {
-- 
2.43.0


From 3f20009995749be6c0395d0d2bd2ebb7fc9944f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:47 +0000
Subject: [PATCH 11/21] fix: quotes, backslashes and line breaks in token names
 broke the generated string literals

---
 src/codegen/lex_gen.rs   | 2 +-
 src/codegen/parse_gen.rs | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/codegen/lex_gen.rs b/src/codegen/lex_gen.rs
index cdc14bd..da9edb3 100644
--- a/src/codegen/lex_gen.rs
+++ b/src/codegen/lex_gen.rs
@@ -94,7 +94,7 @@ mod ts {
             for (i, (kind, has_value)) in self.tokens.iter() {
                 ret.push_str(&format!(
                     r#"type TokenDef{} = {{
-                    kind: "{}",
+                    kind: {:?},
                     hasValue: {}
                 }}
                 
diff --git a/src/codegen/parse_gen.rs b/src/codegen/parse_gen.rs
index 49f8db6..303b687 100644
--- a/src/codegen/parse_gen.rs
+++ b/src/codegen/parse_gen.rs
@@ -202,7 +202,7 @@ export type Token =
                 write!(
                     w,
                     r#"
-                {}: {{ kind: "{}", value: "{}" }}"#,
+                {}: {{ kind: "{}", value: {:?} }}"#,
                     i, kind, value
                 )?;
             }
@@ -289,7 +289,7 @@ export type Token =
                     Symbol::Epsilon => continue,
                     Symbol::Eof => "EOF",
                 };
-                writeln!(w, "'{}': {}", name, idx)?;
+                writeln!(w, "{:?}: {}", name, idx)?;
             }
             w.write_str("\n}\n")?;
             Ok(())
@@ -496,7 +496,7 @@ export type Token =
                             named_sym.name
                         ));
                         cond_stack.push(format!(
-                            "__{}['token']['value'] extends infer {} extends '{}'",
+                            "__{}['token']['value'] extends infer {} extends {:?}",
                             named_sym.name, named_sym.name, str_lit,
                         ));
                         else_stack.push(format!(
-- 
2.43.0


From 9025d417cb5968a102a0c5bec2d04f9c56e72c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:29 +0000
Subject: [PATCH 12/21] fix: type-level lexer dropped the rest of an input that
 ended in the middle of a token

---
 ts/lex.ts | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/ts/lex.ts b/ts/lex.ts
index 7632737..794b165 100644
--- a/ts/lex.ts
+++ b/ts/lex.ts
@@ -173,7 +173,37 @@ type LexImpl<
           ]
       : "unreachable: inferring `maybeNewStateIdx` should always work"
     : `invalid char: ${char}`
-  : [tokens, lastAcceptingState, lexemeBegin, undefined];
+  : // End of the input, but there can be characters left after the last accepting state
+  lastAcceptingState extends [
+      lastAcceptingIdx: number,
+      lastAcceptingStateIdx: number
+    ]
+  ? LexImpl<
+      inputStr,
+      fullInput,
+      0,
+      [
+        TokenDefToToken<
+          lastAcceptingState[1],
+          inputStr,
+          lexemeBegin,
+          lastAcceptingState[0]
+        >,
+        ...tokens
+      ],
+      U.Succ<lastAcceptingState[0]>,
+      U.Succ<lastAcceptingState[0]>,
+      charBuf,
+      undefined
+    >
+  : lexemeBegin extends fullInput["length"]
+  ? [tokens, lastAcceptingState, lexemeBegin, undefined]
+  : [
+      tokens,
+      lastAcceptingState,
+      lexemeBegin,
+      `invalid symbol: \`${fullInput[lexemeBegin]}\` at index ${lexemeBegin}`
+    ];
 
 export type Lex<fullInput extends string> = LexImpl<
   fullInput,
-- 
2.43.0


From 7b82dde6b17e9f0b52e733aeba7e1c9fc66e773b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:58 +0000
Subject: [PATCH 13/21] fix: keep the alphabet pieces of the DFA disjoint when
 a range is split below an earlier piece

---
 src/lex/dfa.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/lex/dfa.rs b/src/lex/dfa.rs
index 45b738c..2063cbd 100644
--- a/src/lex/dfa.rs
+++ b/src/lex/dfa.rs
@@ -340,8 +340,17 @@ fn add_range(range: &Match, start_index: usize, disjoint_ranges: &mut Vec<Match>
 
             // Replace the existing range with the low range, and then
             // add the mid and max ranges in. (The low range may be
-            // empty, but we'll prune that out later.)
-            disjoint_ranges[index] = low_range;
+            // empty, but we'll prune that out later.) If the low range
+            // belongs to the range being added it may still overlap
+            // ranges further on, so it is added like the others.
+            if range.range.start < overlapping_range.range.start {
+                disjoint_ranges[index] = Match {
+                    range: min_min..min_min,
+                };
+                add_range(&low_range, index + 1, disjoint_ranges);
+            } else {
+                disjoint_ranges[index] = low_range;
+            }
             add_range(&mid_range, index + 1, disjoint_ranges);
             add_range(&max_range, index + 1, disjoint_ranges);
         }
-- 
2.43.0


From f03510f9b95b204158287a1add9c1b568dc7e01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:51 +0000
Subject: [PATCH 14/21] fix: a blank with which a token could have begun was
 not skipped when none did

---
 src/lex/lex.rs |  8 +++++---
 ts/lex.ts      | 21 +++++++++++++++------
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/lex/lex.rs b/src/lex/lex.rs
index 25caa93..afa4300 100644
--- a/src/lex/lex.rs
+++ b/src/lex/lex.rs
@@ -171,7 +171,7 @@ impl Lex {
 
         // At the end of the input there is no edge to follow, but there can be
         // characters left after the last accepting state
-        while forward < chars.len() || last_accepting_state.is_some() {
+        while lexeme_begin < chars.len() {
             let c = chars.get(forward).copied();
 
             let matching_edge = match (self.dfa.edge_iter(state_idx), c) {
@@ -205,9 +205,11 @@ impl Lex {
                         state_idx = StateIdx(0);
 
                         last_accepting_state = None;
-                    } else if c.map_or(false, Self::is_whitespace) && forward == lexeme_begin {
-                        forward += 1;
+                    } else if Self::is_whitespace(chars[lexeme_begin]) {
+                        // Also when a token could have begun with it
                         lexeme_begin += 1;
+                        forward = lexeme_begin;
+                        state_idx = StateIdx(0);
                     } else {
                         break;
                     }
diff --git a/ts/lex.ts b/ts/lex.ts
index 794b165..49b650d 100644
--- a/ts/lex.ts
+++ b/ts/lex.ts
@@ -150,17 +150,15 @@ type LexImpl<
               undefined
             >
           : "unreachable: accepting state idx should always be a keyof Tokens"
-        : [U.IsWhitespace<char>, U.Eq<forward, lexemeBegin>] extends [
-            true,
-            true
-          ]
+        : // Also when a token could have begun with it
+        U.IsWhitespace<fullInput[lexemeBegin]> extends true
         ? LexImpl<
             inputStr,
             fullInput,
-            stateIdx,
+            0,
             tokens,
             U.Succ<lexemeBegin>,
-            U.Succ<forward>,
+            U.Succ<lexemeBegin>,
             charBuf,
             lastAcceptingState
           >
@@ -198,6 +196,17 @@ type LexImpl<
     >
   : lexemeBegin extends fullInput["length"]
   ? [tokens, lastAcceptingState, lexemeBegin, undefined]
+  : U.IsWhitespace<fullInput[lexemeBegin]> extends true
+  ? LexImpl<
+      inputStr,
+      fullInput,
+      0,
+      tokens,
+      U.Succ<lexemeBegin>,
+      U.Succ<lexemeBegin>,
+      charBuf,
+      lastAcceptingState
+    >
   : [
       tokens,
       lastAcceptingState,
-- 
2.43.0


From 6784a0a79cf1ed599dfaf700e4eb4ed32a0de38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:34 +0000
Subject: [PATCH 15/21] fix: type-level comparison with a number beyond the
 table gave never, which passed for true

---
 ts/util.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ts/util.ts b/ts/util.ts
index 807c840..5fca84b 100644
--- a/ts/util.ts
+++ b/ts/util.ts
@@ -71,8 +71,10 @@ export type Lt<A extends B, B extends number> = A extends B
   ? false
   : Negate<GtImpl<A, B>>;
 
-// A > B
-export type GtImpl<A extends number, B extends number> = B extends 0
+// A > B, numbers beyond the table are greater than the ones in it
+export type GtImpl<A extends number, B extends number> = [B] extends [never]
+  ? false
+  : B extends 0
   ? true
   : A extends 0
   ? false
-- 
2.43.0


From 825bcffa1f630f3d740738cbd100a66e816f5a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:34 +0000
Subject: [PATCH 16/21] fix: symbol names equal to a nonterminal's or to the
 generated code's own names broke the action types

---
 src/codegen/parse_gen.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/codegen/parse_gen.rs b/src/codegen/parse_gen.rs
index 303b687..f01e800 100644
--- a/src/codegen/parse_gen.rs
+++ b/src/codegen/parse_gen.rs
@@ -383,7 +383,7 @@ export type Token =
                 "{{ kind: '{}', value: {} }},",
                 self.production_name, self.action_impl.code
             )?;
-            buf.push_str("...newStack]");
+            buf.push_str("...newStack$]");
 
             Ok(buf)
         }
@@ -399,7 +399,7 @@ export type Token =
             write_condition(
                 w,
                 |w| {
-                    write!(w, "U.PopNStackWithValue<symbolStack, {}> extends [infer newStack, infer poppedValues]", self.pop_amount)
+                    write!(w, "U.PopNStackWithValue<symbolStack, {}> extends [infer newStack$, infer poppedValues]", self.pop_amount)
                 },
                 |w| {
                     // w.write_str("symbolStack")?;
@@ -427,7 +427,7 @@ export type Token =
                     for sym in &self.action_impl.inputs {
                         match sym {
                             ActionImplParam::Named(NamedActionImplParam { name, .. }) => {
-                                write!(w, "infer __{},", name.as_ref())?
+                                write!(w, "infer ${},", name.as_ref())?
                             }
                             _ => {
                                 write!(w, "infer var{},", i)?;
@@ -441,7 +441,7 @@ export type Token =
                 |w| {
                     write_condition(
                         w,
-                        |w| w.write_str("newStack extends type_defs.Symbol[]"),
+                        |w| w.write_str("newStack$ extends type_defs.Symbol[]"),
                         |w| self.validate_params(w, call_impl.clone()),
                         |w| {
                             write!(
@@ -481,7 +481,7 @@ export type Token =
                 match named_sym.param {
                     ActionImplParam::NonTerminal(non_terminal) => {
                         cond_stack.push(format!(
-                            "__{} extends {{ kind : \"{}\", value: infer {} extends {} }}",
+                            "${} extends {{ kind : \"{}\", value: infer {} extends actions.{} }}",
                             named_sym.name, non_terminal, named_sym.name, non_terminal
                         ));
 
@@ -492,11 +492,11 @@ export type Token =
                     }
                     ActionImplParam::StrLit(str_lit) => {
                         cond_stack.push(format!(
-                            r#"__{} extends {{ kind: "token", token: L.Token }}"#,
+                            r#"${} extends {{ kind: "token", token: L.Token }}"#,
                             named_sym.name
                         ));
                         cond_stack.push(format!(
-                            "__{}['token']['value'] extends infer {} extends {:?}",
+                            "${}['token']['value'] extends infer {} extends {:?}",
                             named_sym.name, named_sym.name, str_lit,
                         ));
                         else_stack.push(format!(
@@ -510,11 +510,11 @@ export type Token =
                     }
                     ActionImplParam::Regex(_) => {
                         cond_stack.push(format!(
-                            r#"__{} extends {{ kind: "token", token: L.Token }}"#,
+                            r#"${} extends {{ kind: "token", token: L.Token }}"#,
                             named_sym.name
                         ));
                         cond_stack.push(format!(
-                            "__{}['token']['value'] extends infer {} extends string",
+                            "${}['token']['value'] extends infer {} extends string",
                             named_sym.name, named_sym.name
                         ));
                         else_stack.push(format!(
-- 
2.43.0


From 228e72619e69be0cf4b7acc141002ff4325095a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:58 +0000
Subject: [PATCH 17/21] fix: a NUL followed by a digit in a literal was printed
 as an octal escape

---
 src/codegen.rs           | 12 ++++++++++++
 src/codegen/lex_gen.rs   |  4 ++--
 src/codegen/parse_gen.rs | 14 +++++++++-----
 3 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/codegen.rs b/src/codegen.rs
index 89ddac7..28182c4 100644
--- a/src/codegen.rs
+++ b/src/codegen.rs
@@ -1,2 +1,14 @@
 pub mod lex_gen;
 pub mod parse_gen;
+
+/// A string literal that is valid in Typescript too, where `\0` followed by a digit is an octal escape
+pub(crate) fn string_literal(s: &str) -> String {
+    let parts: Vec<String> = s
+        .split('\0')
+        .map(|part| {
+            let quoted = format!("{:?}", part);
+            quoted[1..quoted.len() - 1].to_string()
+        })
+        .collect();
+    format!("\"{}\"", parts.join("\\u{0}"))
+}
diff --git a/src/codegen/lex_gen.rs b/src/codegen/lex_gen.rs
index da9edb3..1bd64dd 100644
--- a/src/codegen/lex_gen.rs
+++ b/src/codegen/lex_gen.rs
@@ -94,13 +94,13 @@ mod ts {
             for (i, (kind, has_value)) in self.tokens.iter() {
                 ret.push_str(&format!(
                     r#"type TokenDef{} = {{
-                    kind: {:?},
+                    kind: {},
                     hasValue: {}
                 }}
                 
                 "#,
                     i,
-                    kind,
+                    crate::codegen::string_literal(kind),
                     if *has_value { "true" } else { "false" }
                 ));
             }
diff --git a/src/codegen/parse_gen.rs b/src/codegen/parse_gen.rs
index f01e800..e73d5c4 100644
--- a/src/codegen/parse_gen.rs
+++ b/src/codegen/parse_gen.rs
@@ -202,8 +202,10 @@ export type Token =
                 write!(
                     w,
                     r#"
-                {}: {{ kind: "{}", value: {:?} }}"#,
-                    i, kind, value
+                {}: {{ kind: "{}", value: {} }}"#,
+                    i,
+                    kind,
+                    crate::codegen::string_literal(value)
                 )?;
             }
 
@@ -289,7 +291,7 @@ export type Token =
                     Symbol::Epsilon => continue,
                     Symbol::Eof => "EOF",
                 };
-                writeln!(w, "{:?}: {}", name, idx)?;
+                writeln!(w, "{}: {}", crate::codegen::string_literal(name), idx)?;
             }
             w.write_str("\n}\n")?;
             Ok(())
@@ -496,8 +498,10 @@ export type Token =
                             named_sym.name
                         ));
                         cond_stack.push(format!(
-                            "${}['token']['value'] extends infer {} extends {:?}",
-                            named_sym.name, named_sym.name, str_lit,
+                            "${}['token']['value'] extends infer {} extends {}",
+                            named_sym.name,
+                            named_sym.name,
+                            crate::codegen::string_literal(str_lit),
                         ));
                         else_stack.push(format!(
                             r#"`error: not a token (pos \`{}\`, Action{})`"#,
-- 
2.43.0


From 6d83352197e120b9e6e5329b13a28e7e9567c3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:49 +0000
Subject: [PATCH 18/21] fix: number comparison types take any two numbers

---
 ts/util.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ts/util.ts b/ts/util.ts
index 5fca84b..ac973ca 100644
--- a/ts/util.ts
+++ b/ts/util.ts
@@ -57,17 +57,17 @@ export type Pred<T> = T extends 0
   ? PredTable[T]
   : never;
 
-export type Gte<A extends B, B extends number> = A extends B
+export type Gte<A extends number, B extends number> = A extends B
   ? true
   : GtImpl<A, B>;
-export type Gt<A extends B, B extends number> = A extends B
+export type Gt<A extends number, B extends number> = A extends B
   ? false
   : GtImpl<A, B>;
 
-export type Lte<A extends B, B extends number> = A extends B
+export type Lte<A extends number, B extends number> = A extends B
   ? true
   : Negate<GtImpl<A, B>>;
-export type Lt<A extends B, B extends number> = A extends B
+export type Lt<A extends number, B extends number> = A extends B
   ? false
   : Negate<GtImpl<A, B>>;
 
-- 
2.43.0


From 5558290b9b4dae04fb4b29ee947002fbe27fa575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:49 +0000
Subject: [PATCH 19/21] fix: type-level Tail drops the first element

---
 ts/util.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ts/util.ts b/ts/util.ts
index ac973ca..2ce0b9f 100644
--- a/ts/util.ts
+++ b/ts/util.ts
@@ -13,7 +13,7 @@ type ReverseImpl<T extends any[], State extends any[] = []> = T extends [
   ? ReverseImpl<B, [A, ...State]>
   : State;
 
-export type Tail<T extends any[]> = T extends [...infer first, ...infer rest]
+export type Tail<T extends any[]> = T extends [any, ...infer rest]
   ? rest
   : [];
 
-- 
2.43.0


From 04b1d8a1af145e1bcf5a08e7c49f311289069b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:49 +0000
Subject: [PATCH 20/21] hook: text of the character tables

---
 src/codegen/lex_gen.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/codegen/lex_gen.rs b/src/codegen/lex_gen.rs
index 1bd64dd..7fe2283 100644
--- a/src/codegen/lex_gen.rs
+++ b/src/codegen/lex_gen.rs
@@ -320,6 +320,12 @@ fn chars_to_string(char_map: &BTreeMap<char, u32>) -> String {
     final_str
 }
 
+/// The text of the module with the character tables
+#[cfg(typelalr_verif)]
+pub fn chars_module() -> String {
+    chars_to_string(&generate_chars())
+}
+
 pub fn gen_arithmetic(buf: &mut String, max_nums: u32) {
     buf.push_str("export type SuccTable = {\n");
     for i in 0..max_nums {
-- 
2.43.0


From 33abc6a821e630ff0d67dea2f812e9070f4249c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:15 +0000
Subject: [PATCH 21/21] fix: type-level lexer yielded no tokens and no error
 for an input with an unsupported character

---
 ts/lex.ts | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/ts/lex.ts b/ts/lex.ts
index 49b650d..89b3308 100644
--- a/ts/lex.ts
+++ b/ts/lex.ts
@@ -214,9 +214,19 @@ type LexImpl<
       `invalid symbol: \`${fullInput[lexemeBegin]}\` at index ${lexemeBegin}`
     ];
 
-export type Lex<fullInput extends string> = LexImpl<
+export type Lex<fullInput extends string> = StringToCharList<
   fullInput,
-  StringToCharList<fullInput, []>,
+  []
+> extends infer chars
+  ? chars extends string[]
+    ? LexChars<fullInput, chars>
+    : // An error: the input has a character that isn't in the table
+      chars
+  : "unreachable: inferring `chars` should always work";
+
+type LexChars<fullInput extends string, chars extends string[]> = LexImpl<
+  fullInput,
+  chars,
   0,
   [],
   0,
-- 
2.43.0

