From e8e2f9959f46738c046ffd0e1999510e8e90b586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:12 +0000
Subject: [PATCH 01/17] fix: split overlapping character ranges without leaving
 overlaps behind

When a new range started before an existing one it overlaps, its low part
was stored unchecked in place of the existing range, although it may overlap
ranges further behind: 0-4, 1-3, 1-4, 2-4 was split into 0-1, 2-3, 3-4, 1-3.
---
 src/lex/dfa.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/lex/dfa.rs b/src/lex/dfa.rs
index c2d8e45..8bc046f 100644
--- a/src/lex/dfa.rs
+++ b/src/lex/dfa.rs
@@ -337,11 +337,12 @@ fn add_range(range: &Match, start_index: usize, disjoint_ranges: &mut Vec<Match>
             assert!(low_range.is_disjoint(&max_range));
             assert!(mid_range.is_disjoint(&max_range));
 
-            // Replace the existing range with the low range, and then
-            // add the mid and max ranges in. (The low range may be
-            // empty, but we'll prune that out later.)
-            disjoint_ranges[index] = low_range;
-            add_range(&mid_range, index + 1, disjoint_ranges);
+            // Replace the existing range with the mid range, which both
+            // have in common, and then add the low and max ranges in.
+            // (Either may belong to `range`, and then overlap with ranges
+            // further behind.)
+            disjoint_ranges[index] = mid_range;
+            add_range(&low_range, index + 1, disjoint_ranges);
             add_range(&max_range, index + 1, disjoint_ranges);
         }
 
-- 
2.43.0


From 290477656f0e3d9f5d698ebb247439a6bf87ba50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:29 +0000
Subject: [PATCH 02/17] fix: order grammar symbols consistently with equality

---
 src/parser/ast.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/ast.rs b/src/parser/ast.rs
index 44ca08c..e0fd9a1 100644
--- a/src/parser/ast.rs
+++ b/src/parser/ast.rs
@@ -119,15 +119,15 @@ impl<'ast> InputSymbol<'ast> {
         use std::cmp::Ordering::*;
 
         match (self, other) {
-            (Self::Epsilon, _) => Less,
             (Self::StrLit(a), Self::StrLit(b)) => a.cmp(b),
             (Self::Regex(a), Self::Regex(b)) => a.cmp(b),
+            (Self::NonTerminal(a), Self::NonTerminal(b)) => a.cmp(b),
             (Self::Named(a), Self::Named(b)) => match a.ty.cmp(b.ty) {
                 Equal => match (a.name.as_ref(), b.name.as_ref()) {
                     (Some(a), Some(b)) => a.cmp(b),
                     (Some(_), None) => Greater,
                     (None, Some(_)) => Less,
-                    _ => Less,
+                    (None, None) => Equal,
                 },
                 val => val,
             },
-- 
2.43.0


From 8a70f2d9c4d0185905084b676574b63240077471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:26 +0000
Subject: [PATCH 03/17] fix: compile empty expressions inside other expressions

---
 src/lex/nfa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lex/nfa.rs b/src/lex/nfa.rs
index a5fb31f..ac717d3 100644
--- a/src/lex/nfa.rs
+++ b/src/lex/nfa.rs
@@ -102,7 +102,7 @@ impl NFA {
 
     fn compile(&mut self, regex: &RegexHir, accept: StateIdx) -> OptionUsize<StateIdx> {
         match regex.kind() {
-            HirKind::Empty => OptionUsize::none(),
+            HirKind::Empty => OptionUsize::some(accept),
             HirKind::Literal(lit) => self.compile_match(
                 match lit {
                     Literal::Unicode(c) => Match::char(*c),
-- 
2.43.0


From bac6331854bfbe54353305e5802adb54e34a5a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:39 +0000
Subject: [PATCH 04/17] fix: judge strings by the accepting states of the
 automaton, start state included

---
 src/lex/dfa.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/lex/dfa.rs b/src/lex/dfa.rs
index 8bc046f..767d11d 100644
--- a/src/lex/dfa.rs
+++ b/src/lex/dfa.rs
@@ -111,18 +111,19 @@ impl DFA {
 
         let mut eaten = 0;
         for c in s.chars() {
-            if let Some(mut edge_iter) = self.edge_iter(state_idx) {
-                match edge_iter.find(|edge| edge.label.matches(c)) {
-                    Some(edge) => {
-                        eaten += 1;
-                        state_idx = edge.to;
-                    }
-                    None => break,
+            let matching_edge = self
+                .edge_iter(state_idx)
+                .and_then(|mut edge_iter| edge_iter.find(|edge| edge.label.matches(c)));
+            match matching_edge {
+                Some(edge) => {
+                    eaten += c.len_utf8();
+                    state_idx = edge.to;
                 }
+                None => break,
             }
         }
 
-        if self.dfa_to_nfa.contains_key(&state_idx) {
+        if self.dfa_state_is_accepting(state_idx) {
             Some(eaten)
         } else {
             None
@@ -166,7 +167,7 @@ impl DFABuilder {
         let mut d_states = vec![Self::hashset_to_btreeset(
             nfa.epsilon_closure([NFA::START_IDX].into()),
         )];
-        let mut dfa_to_nfa = BTreeMap::new();
+        let mut dfa_to_nfa = BTreeMap::from([(DFA::START_IDX, d_states[0].clone())]);
 
         loop {
             // Loop while there is an unmarked state set
-- 
2.43.0


From 9e487d563048287cafe3c1755cba6350563150ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:36 +0000
Subject: [PATCH 05/17] fix: resume behind the last token when the input ends
 inside a longer match

---
 src/lex/lex.rs | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/src/lex/lex.rs b/src/lex/lex.rs
index 72b5cd8..408b45c 100644
--- a/src/lex/lex.rs
+++ b/src/lex/lex.rs
@@ -164,12 +164,12 @@ impl Lex {
 
         let mut last_accepting_state: Option<(usize, StateIdx)> = None;
 
-        while forward < chars.len() {
-            let c = chars[forward];
+        while forward < chars.len() || last_accepting_state.is_some() {
+            let c = chars.get(forward).copied();
 
-            let matching_edge = match self.dfa.edge_iter(state_idx) {
-                Some(mut edge_iter) => edge_iter.find(|edge| edge.label.matches(c)),
-                None => None,
+            let matching_edge = match (self.dfa.edge_iter(state_idx), c) {
+                (Some(mut edge_iter), Some(c)) => edge_iter.find(|edge| edge.label.matches(c)),
+                _ => None,
             };
 
             match matching_edge {
@@ -198,7 +198,7 @@ impl Lex {
                         state_idx = StateIdx(0);
 
                         last_accepting_state = None;
-                    } else if Self::is_whitespace(c) && forward == lexeme_begin {
+                    } else if c.map_or(false, Self::is_whitespace) && forward == lexeme_begin {
                         forward += 1;
                         lexeme_begin += 1;
                     } else {
@@ -208,16 +208,6 @@ impl Lex {
             }
         }
 
-        if let Some((_last_accepting_idx, last_accepting_state_idx)) = last_accepting_state {
-            println!("LEXEME_BEGIN: {} FORWARD: {}", lexeme_begin, _last_accepting_idx);
-            tokens.push(self.make_tok(
-                input,
-                lexeme_begin,
-                _last_accepting_idx,
-                last_accepting_state_idx,
-            ));
-        }
-
         tokens
     }
 
-- 
2.43.0


From 6ce752b979419c0ca27d965ef3a4774eb39b4819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:27 +0000
Subject: [PATCH 06/17] fix: cut token values by characters, not bytes

---
 src/lex/lex.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lex/lex.rs b/src/lex/lex.rs
index 408b45c..d56bd03 100644
--- a/src/lex/lex.rs
+++ b/src/lex/lex.rs
@@ -186,7 +186,7 @@ impl Lex {
                     {
             println!("LEXEME_BEGIN: {} FORWARD: {}", lexeme_begin, last_accepting_idx);
                         let tok = self.make_tok(
-                            input,
+                            &chars,
                             lexeme_begin,
                             last_accepting_idx,
                             last_accepting_state_idx,
@@ -213,7 +213,7 @@ impl Lex {
 
     fn make_tok(
         &self,
-        input: &str,
+        chars: &[char],
         start: usize,
         end: usize,
         last_accepting_state_idx: StateIdx,
@@ -225,7 +225,7 @@ impl Lex {
                 ..
             }) => {
                 // let val = char_vec.iter().collect::<String>();
-                let val = input[start..(end + 1)].to_string();
+                let val = chars[start..(end + 1)].iter().collect::<String>();
                 Token::new_with_val(name.clone(), val)
             }
             Some(TokenDef {
-- 
2.43.0


From 3dd707d1cb1be300af28bfa1160da69182cad383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:09 +0000
Subject: [PATCH 07/17] fix: compute FIRST sets of recursive grammars

---
 src/lalr/first.rs | 63 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 43 insertions(+), 20 deletions(-)

diff --git a/src/lalr/first.rs b/src/lalr/first.rs
index b77ba6d..d89a210 100644
--- a/src/lalr/first.rs
+++ b/src/lalr/first.rs
@@ -1,6 +1,6 @@
 use std::collections::BTreeSet;
 
-use crate::parser::{Grammar, Symbol};
+use crate::parser::{ast::Ident, Grammar, Symbol};
 
 pub fn first<'ast, I>(
     // bump: &'ast Bump,
@@ -12,46 +12,69 @@ where
 {
     let mut set = BTreeSet::new();
 
-    let mut prev_has_epsilon = true;
+    let nullable = nullable(grammar);
+
     for symbol in symbols {
-        let _ = first_of_symbol(grammar, &mut set, symbol);
-        prev_has_epsilon = set.remove(&Symbol::Epsilon);
-        if !prev_has_epsilon {
-            break;
+        if !first_of_symbol(grammar, &nullable, &mut BTreeSet::new(), &mut set, symbol) {
+            return set;
         }
     }
 
-    if prev_has_epsilon {
-        set.insert(&Symbol::Epsilon);
-    }
-
+    set.insert(&Symbol::Epsilon);
     set
 }
 
-/// Returns true if the set contains epsilon
+/// The non-terminals that derive the empty string
+fn nullable<'ast>(grammar: &'ast Grammar<'ast>) -> BTreeSet<Ident<'ast>> {
+    let mut set = BTreeSet::new();
+
+    loop {
+        let len = set.len();
+        for production in grammar.iter_productions() {
+            let empty = production.input_tokens.iter().all(|token| match token {
+                Symbol::NonTerminal(name) => set.contains(name),
+                Symbol::Epsilon => true,
+                _ => false,
+            });
+            if empty {
+                set.insert(production.name);
+            }
+        }
+        if set.len() == len {
+            return set;
+        }
+    }
+}
+
+/// Adds the terminals the symbol can begin with, returns true if it derives the empty string
 fn first_of_symbol<'ast>(
     grammar: &'ast Grammar<'ast>,
+    nullable: &BTreeSet<Ident<'ast>>,
+    visited: &mut BTreeSet<Ident<'ast>>,
     set: &mut BTreeSet<&'ast Symbol<'ast>>,
     symbol: &'ast Symbol<'ast>,
 ) -> bool {
     let non_terminal = match symbol.as_non_terminal() {
         Some(non_terminal) => non_terminal,
         None => {
+            if matches!(symbol, Symbol::Epsilon) {
+                return true;
+            }
             set.insert(symbol);
-            return matches!(symbol, Symbol::Epsilon);
+            return false;
         }
     };
 
-    let mut added_epsilon = false;
-    for (_, production) in grammar.production_iter(*non_terminal) {
-        'input_token_iter: for input_token in production.input_tokens.iter() {
-            if !first_of_symbol(grammar, set, input_token) {
-                break 'input_token_iter;
-            } else {
-                added_epsilon = true;
+    // The productions of a non-terminal add the same terminals every time
+    if visited.insert(*non_terminal) {
+        for (_, production) in grammar.production_iter(*non_terminal) {
+            for input_token in production.input_tokens.iter() {
+                if !first_of_symbol(grammar, nullable, visited, set, input_token) {
+                    break;
+                }
             }
         }
     }
 
-    added_epsilon
+    nullable.contains(non_terminal)
 }
-- 
2.43.0


From 619251d5e5a528adff5e8ffd1dadcc4184138bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:09 +0000
Subject: [PATCH 08/17] fix: allow several items of a state to shift the same
 terminal

---
 src/lalr/table.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lalr/table.rs b/src/lalr/table.rs
index f54079e..5204aed 100644
--- a/src/lalr/table.rs
+++ b/src/lalr/table.rs
@@ -136,7 +136,11 @@ pub fn make_lalr_tables<'ast>(
                     };
 
                     match action.entry((i as u32, token_idx)) {
-                        Entry::Vacant(entry) => entry.insert(Action::Shift(j as u32)),
+                        Entry::Vacant(entry) => {
+                            entry.insert(Action::Shift(j as u32));
+                        }
+                        // Another item of this state can shift the same terminal
+                        Entry::Occupied(entry) if *entry.get() == Action::Shift(j as u32) => (),
                         Entry::Occupied(_) => panic!("Conflict ({}, {:?})", i, token_idx),
                     };
                 }
-- 
2.43.0


From 9d814c8b9abbc2f87f279a3c017238d3eb4dfbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:29 +0000
Subject: [PATCH 09/17] fix: find the state a merged state goes to by its core

---
 src/lalr/item.rs  | 5 +++++
 src/lalr/table.rs | 7 ++++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/lalr/item.rs b/src/lalr/item.rs
index 75d5d57..0f68bf8 100644
--- a/src/lalr/item.rs
+++ b/src/lalr/item.rs
@@ -162,6 +162,11 @@ impl ItemSet {
         h.finish()
     }
 
+    /// Whether both item sets have the same items, whatever their lookaheads are
+    pub fn same_core(&self, other: &Self) -> bool {
+        self.0.keys().eq(other.0.keys())
+    }
+
     /// Form a union of two item sets.
     ///
     /// It is incorrect to call this with two item sets that don't share the same core
diff --git a/src/lalr/table.rs b/src/lalr/table.rs
index 5204aed..3c78e75 100644
--- a/src/lalr/table.rs
+++ b/src/lalr/table.rs
@@ -109,7 +109,7 @@ pub fn make_lalr_tables<'ast>(
         let lr_idx = match lr_sets.get_index_of(&goto_ia) {
             Some(i) => i,
             None => {
-                return lalr_sets.get_index_of(&goto_ia);
+                return lalr_sets.iter().position(|set| set.same_core(&goto_ia));
             }
         };
         lr_to_lalr.get(&lr_idx).cloned()
@@ -181,7 +181,8 @@ pub fn make_lalr_tables<'ast>(
             let goto_ia = state.goto(&Symbol::NonTerminal(*production_name), grammar);
 
             // lalr state = I1 U I2 U ... etc where the I's are lr(1) states with same core merged
-            // so we much check if goto_ia == lalr state, or
+            // so goto_ia is one of the lr(1) states, or it has the same core as the lalr
+            // state, which can have more lookaheads
             match lr_sets.get_index_of(&goto_ia) {
                 Some(j) => {
                     goto.insert(
@@ -189,7 +190,7 @@ pub fn make_lalr_tables<'ast>(
                         *lr_to_lalr.get(&j).expect("LR -> LALR"),
                     );
                 }
-                None => match lalr_sets.get_index_of(&goto_ia) {
+                None => match lalr_sets.iter().position(|set| set.same_core(&goto_ia)) {
                     Some(j) => {
                         goto.insert((i as u32, *production_name), j);
                     }
-- 
2.43.0


From b5624670c40b8a991ce7414e888b81638c9a1641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:06 +0000
Subject: [PATCH 10/17] fix: refuse texts that go on behind their last token

---
 src/lalr.rs    | 9 +++++++--
 src/lex/lex.rs | 7 ++++++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/lalr.rs b/src/lalr.rs
index 420d83d..9b6f3c6 100644
--- a/src/lalr.rs
+++ b/src/lalr.rs
@@ -42,8 +42,13 @@ impl<'ast> Lalr<'ast> {
     }
 
     pub fn parse(&self, input: &str) -> String {
-        let tokens = self.lexer.lex(input);
-        let tokens_with_idx = self.lexer.convert_tokens(tokens);
+        let (tokens, rest) = self.lexer.lex_with_rest(input);
+        let mut tokens_with_idx = self.lexer.convert_tokens(tokens);
+
+        // The input does not end here, it goes on with something that is no token
+        if let (Some(c), Some(eof)) = (rest, tokens_with_idx.last_mut()) {
+            *eof = (Token::new(c.to_string()), TokenIdx(u32::MAX));
+        }
 
         self.parse_impl(&tokens_with_idx)
     }
diff --git a/src/lex/lex.rs b/src/lex/lex.rs
index d56bd03..96845c2 100644
--- a/src/lex/lex.rs
+++ b/src/lex/lex.rs
@@ -155,6 +155,11 @@ impl Lex {
     }
 
     pub fn lex(&self, input: &str) -> Vec<Token> {
+        self.lex_with_rest(input).0
+    }
+
+    /// The tokens of the input and, unless they cover all of it, the character behind them
+    pub(crate) fn lex_with_rest(&self, input: &str) -> (Vec<Token>, Option<char>) {
         let chars: Vec<char> = input.chars().collect();
         let mut tokens = vec![];
         let mut state_idx = StateIdx(0);
@@ -208,7 +213,7 @@ impl Lex {
             }
         }
 
-        tokens
+        (tokens, chars.get(lexeme_begin).copied())
     }
 
     fn make_tok(
-- 
2.43.0


From 9a718592a5aef625bd4e6587c8f2c8a5346e1ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:53 +0000
Subject: [PATCH 11/17] fix: tell a quoted terminal from a pattern written with
 the same text

---
 src/lex/lex.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/lex/lex.rs b/src/lex/lex.rs
index 96845c2..8337989 100644
--- a/src/lex/lex.rs
+++ b/src/lex/lex.rs
@@ -127,7 +127,9 @@ impl Lex {
             .tokens
             .iter()
             .fold(BTreeMap::new(), |mut map, (_, def)| {
-                map.insert(def.name.as_str(), def);
+                map.entry(def.name.as_str())
+                    .or_insert_with(Vec::new)
+                    .push(def);
                 map
             });
         tokens
@@ -140,9 +142,16 @@ impl Lex {
     fn token_with_idx(
         &self,
         token: Token,
-        def_map: &BTreeMap<&str, &TokenDef>,
+        def_map: &BTreeMap<&str, Vec<&TokenDef>>,
     ) -> (Token, TokenIdx) {
-        let def = def_map.get(token.name.as_str()).unwrap();
+        let defs = def_map.get(token.name.as_str()).unwrap();
+        // A quoted terminal and a pattern can share a name. The quoted one comes first, and
+        // what it matches is the name itself
+        let def = match &token.val {
+            Some(val) if **val == token.name => defs.first(),
+            _ => defs.last(),
+        }
+        .unwrap();
         (token, TokenIdx(def.token_idx.unwrap()))
     }
 
-- 
2.43.0


From 8bed51b07a465a00dbd7aa6998ddefd3aa12c28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:24 +0000
Subject: [PATCH 12/17] Symbolic execution hook: spare generate_chars a million
 steps (cfg typelalr_verif)

---
 src/codegen/lex_gen.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/codegen/lex_gen.rs b/src/codegen/lex_gen.rs
index cdc14bd..a4a4611 100644
--- a/src/codegen/lex_gen.rs
+++ b/src/codegen/lex_gen.rs
@@ -214,6 +214,13 @@ fn generate_chars() -> BTreeMap<char, u32> {
             .collect::<Vec<_>>(),
         _ => panic!(),
     };
+    // A character is kept by its low byte, so the first two times 256 give the whole table:
+    // this leaves the result as it is and spares symbolic execution a million steps.
+    #[cfg(typelalr_verif)]
+    let ranges = ranges
+        .into_iter()
+        .map(|r| r.start.min(512)..r.end.min(512))
+        .collect::<Vec<_>>();
 
     fn range_to_char_vec(r: Range<u32>) -> Vec<char> {
         let mut chars = Vec::with_capacity(r.len());
-- 
2.43.0


From 049abcfa9c88c0f9ae0b729caabe673186fd9688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:39 +0000
Subject: [PATCH 13/17] fix: escape texts in the generated TypeScript strings

---
 src/codegen.rs           | 16 ++++++++++++++++
 src/codegen/lex_gen.rs   | 13 ++++++++-----
 src/codegen/parse_gen.rs |  9 ++++++---
 3 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/codegen.rs b/src/codegen.rs
index 89ddac7..05ecafc 100644
--- a/src/codegen.rs
+++ b/src/codegen.rs
@@ -1,2 +1,18 @@
 pub mod lex_gen;
 pub mod parse_gen;
+
+/// What a text looks like between the quotes of a TypeScript string literal
+fn escape(text: &str) -> String {
+    let mut ret = String::with_capacity(text.len());
+    for c in text.chars() {
+        match c {
+            '"' | '\'' | '\\' => ret.extend(['\\', c]),
+            '\n' => ret.push_str("\\n"),
+            '\r' => ret.push_str("\\r"),
+            '\u{2028}' => ret.push_str("\\u2028"),
+            '\u{2029}' => ret.push_str("\\u2029"),
+            _ => ret.push(c),
+        }
+    }
+    ret
+}
diff --git a/src/codegen/lex_gen.rs b/src/codegen/lex_gen.rs
index a4a4611..c1a595e 100644
--- a/src/codegen/lex_gen.rs
+++ b/src/codegen/lex_gen.rs
@@ -27,10 +27,13 @@ fn nice_case(s: &str) -> String {
 mod ts {
     use std::collections::{BTreeMap, BTreeSet};
 
-    use crate::lex::{
-        dfa::DFA,
-        lex::Lex,
-        nfa::{Match, StateIdx},
+    use crate::{
+        codegen::escape,
+        lex::{
+            dfa::DFA,
+            lex::Lex,
+            nfa::{Match, StateIdx},
+        },
     };
 
     #[derive(Clone, Debug)]
@@ -100,7 +103,7 @@ mod ts {
                 
                 "#,
                     i,
-                    kind,
+                    escape(kind),
                     if *has_value { "true" } else { "false" }
                 ));
             }
diff --git a/src/codegen/parse_gen.rs b/src/codegen/parse_gen.rs
index ec90cc2..b9c1df2 100644
--- a/src/codegen/parse_gen.rs
+++ b/src/codegen/parse_gen.rs
@@ -8,6 +8,7 @@ mod ts {
     use bumpalo::Bump;
 
     use crate::{
+        codegen::escape,
         lalr::{item::ProductionIdx, table, Lalr},
         parser::{
             ast::{self, Ident, InputSymbol, NamedSymbol},
@@ -203,7 +204,7 @@ export type Token =
                     w,
                     r#"
                 {}: {{ kind: "{}", value: "{}" }}"#,
-                    i, kind, value
+                    i, kind, escape(value)
                 )?;
             }
 
@@ -289,7 +290,7 @@ export type Token =
                     Symbol::Epsilon => continue,
                     Symbol::Eof => "EOF",
                 };
-                writeln!(w, "'{}': {}", name, idx)?;
+                writeln!(w, "'{}': {}", escape(name), idx)?;
             }
             w.write_str("\n}\n")?;
             Ok(())
@@ -497,7 +498,9 @@ export type Token =
                         ));
                         cond_stack.push(format!(
                             "__{}['token']['value'] extends infer {} extends '{}'",
-                            named_sym.name, named_sym.name, str_lit,
+                            named_sym.name,
+                            named_sym.name,
+                            escape(str_lit),
                         ));
                         else_stack.push(format!(
                             r#"`error: not a token (pos \`{}\`, Action{})`"#,
-- 
2.43.0


From 59420f0c5d22a3d19b4e9add08db0a776b981041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:42 +0000
Subject: [PATCH 14/17] fix: separate the words of the generated pattern token
 condition

---
 src/codegen/parse_gen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codegen/parse_gen.rs b/src/codegen/parse_gen.rs
index b9c1df2..be2e622 100644
--- a/src/codegen/parse_gen.rs
+++ b/src/codegen/parse_gen.rs
@@ -517,7 +517,7 @@ export type Token =
                             named_sym.name
                         ));
                         cond_stack.push(format!(
-                            "__{}['token']['value'] extends infer {} extendsstring",
+                            "__{}['token']['value'] extends infer {} extends string",
                             named_sym.name, named_sym.name
                         ));
                         else_stack.push(format!(
-- 
2.43.0


From 89f3fe72e09363541aa406b42ca86284d3e63647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:19 +0000
Subject: [PATCH 15/17] fix: names of bindings can no longer hide names the
 generated actions use

A binding called newStack, __x next to x, or like its nonterminal captured
names of the generated type. Errors about symbols named the wrong position.
---
 src/codegen/parse_gen.rs | 44 ++++++++++++++++------------------------
 1 file changed, 18 insertions(+), 26 deletions(-)

diff --git a/src/codegen/parse_gen.rs b/src/codegen/parse_gen.rs
index be2e622..6289889 100644
--- a/src/codegen/parse_gen.rs
+++ b/src/codegen/parse_gen.rs
@@ -384,7 +384,7 @@ export type Token =
                 "{{ kind: '{}', value: {} }},",
                 self.production_name, self.action_impl.code
             )?;
-            buf.push_str("...newStack]");
+            buf.push_str("...$stack]");
 
             Ok(buf)
         }
@@ -400,7 +400,7 @@ export type Token =
             write_condition(
                 w,
                 |w| {
-                    write!(w, "U.PopNStackWithValue<symbolStack, {}> extends [infer newStack, infer poppedValues]", self.pop_amount)
+                    write!(w, "U.PopNStackWithValue<symbolStack, {}> extends [infer $stack, infer $values]", self.pop_amount)
                 },
                 |w| {
                     // w.write_str("symbolStack")?;
@@ -423,18 +423,10 @@ export type Token =
             write_condition(
                 w,
                 |w| {
-                    w.write_str("poppedValues extends [")?;
-                    let mut i = 0;
-                    for sym in &self.action_impl.inputs {
-                        match sym {
-                            ActionImplParam::Named(NamedActionImplParam { name, .. }) => {
-                                write!(w, "infer __{},", name.as_ref())?
-                            }
-                            _ => {
-                                write!(w, "infer var{},", i)?;
-                                i += 1;
-                            }
-                        }
+                    w.write_str("$values extends [")?;
+                    // Binding names can't contain `$`, so none of them can hide these
+                    for i in 1..=self.action_impl.inputs.len() {
+                        write!(w, "infer ${},", i)?;
                     }
                     w.write_str("]")?;
                     Ok(())
@@ -442,7 +434,7 @@ export type Token =
                 |w| {
                     write_condition(
                         w,
-                        |w| w.write_str("newStack extends type_defs.Symbol[]"),
+                        |w| w.write_str("$stack extends type_defs.Symbol[]"),
                         |w| self.validate_params(w, call_impl.clone()),
                         |w| {
                             write!(
@@ -482,8 +474,8 @@ export type Token =
                 match named_sym.param {
                     ActionImplParam::NonTerminal(non_terminal) => {
                         cond_stack.push(format!(
-                            "__{} extends {{ kind : \"{}\", value: infer {} extends {} }}",
-                            named_sym.name, non_terminal, named_sym.name, non_terminal
+                            "${} extends {{ kind : \"{}\", value: infer {} extends actions.{} }}",
+                            i, non_terminal, named_sym.name, non_terminal
                         ));
 
                         else_stack.push(format!(
@@ -493,12 +485,12 @@ export type Token =
                     }
                     ActionImplParam::StrLit(str_lit) => {
                         cond_stack.push(format!(
-                            r#"__{} extends {{ kind: "token", token: L.Token }}"#,
-                            named_sym.name
+                            r#"${} extends {{ kind: "token", token: L.Token }}"#,
+                            i
                         ));
                         cond_stack.push(format!(
-                            "__{}['token']['value'] extends infer {} extends '{}'",
-                            named_sym.name,
+                            "${}['token']['value'] extends infer {} extends '{}'",
+                            i,
                             named_sym.name,
                             escape(str_lit),
                         ));
@@ -513,12 +505,12 @@ export type Token =
                     }
                     ActionImplParam::Regex(_) => {
                         cond_stack.push(format!(
-                            r#"__{} extends {{ kind: "token", token: L.Token }}"#,
-                            named_sym.name
+                            r#"${} extends {{ kind: "token", token: L.Token }}"#,
+                            i
                         ));
                         cond_stack.push(format!(
-                            "__{}['token']['value'] extends infer {} extends string",
-                            named_sym.name, named_sym.name
+                            "${}['token']['value'] extends infer {} extends string",
+                            i, named_sym.name
                         ));
                         else_stack.push(format!(
                             r#"`error: not a token (pos \`{}\`, Action{})`"#,
@@ -539,7 +531,7 @@ export type Token =
             }
             // w.write_str(self.action_impl.code)?;
             w.write_str(&call_impl)?;
-            for otherwise in else_stack.into_iter() {
+            for otherwise in else_stack.into_iter().rev() {
                 w.write_str(" : ")?;
                 w.write_str(&otherwise)?;
             }
-- 
2.43.0


From 17f98c8ce5734fe452b77ec41d784a0e305f5a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:19 +0000
Subject: [PATCH 16/17] fix: Lex reports unsupported characters and reads on
 behind the last token

Characters read in search of a longer match were dropped at the end of the
input, and an unsupported character anywhere made the whole input vanish.
---
 ts/lex.ts | 47 ++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 44 insertions(+), 3 deletions(-)

diff --git a/ts/lex.ts b/ts/lex.ts
index 7632737..f354957 100644
--- a/ts/lex.ts
+++ b/ts/lex.ts
@@ -173,11 +173,52 @@ type LexImpl<
           ]
       : "unreachable: inferring `maybeNewStateIdx` should always work"
     : `invalid char: ${char}`
-  : [tokens, lastAcceptingState, lexemeBegin, undefined];
+  : // End of the input, but there may be more tokens behind the last match
+  lastAcceptingState extends [
+      lastAcceptingIdx: number,
+      lastAcceptingStateIdx: number
+    ]
+  ? LexImpl<
+      inputStr,
+      fullInput,
+      0,
+      [
+        TokenDefToToken<
+          lastAcceptingState[1],
+          inputStr,
+          lexemeBegin,
+          lastAcceptingState[0]
+        >,
+        ...tokens
+      ],
+      U.Succ<lastAcceptingState[0]>,
+      U.Succ<lastAcceptingState[0]>,
+      charBuf,
+      undefined
+    >
+  : U.Eq<forward, lexemeBegin> extends true
+  ? [tokens, lastAcceptingState, lexemeBegin, undefined]
+  : // the rest is the beginning of a token, but not a token
+    [
+      tokens,
+      lastAcceptingState,
+      lexemeBegin,
+      `invalid symbol: \`${fullInput[lexemeBegin]}\` at index ${lexemeBegin}`
+    ];
 
-export type Lex<fullInput extends string> = LexImpl<
+export type Lex<fullInput extends string> = StringToCharList<
   fullInput,
-  StringToCharList<fullInput, []>,
+  []
+> extends infer chars
+  ? chars extends string[]
+    ? LexChars<fullInput, chars>
+    : // `chars` is an error message
+      chars
+  : "unreachable: inferring `chars` should always work";
+
+type LexChars<fullInput extends string, chars extends string[]> = LexImpl<
+  fullInput,
+  chars,
   0,
   [],
   0,
-- 
2.43.0


From 151f1194cdd96ab627807d8e2c9af1adcfc9875f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:19 +0000
Subject: [PATCH 17/17] fix: numbers beyond the arithmetic table are larger
 than those in it

Comparing with one gave never, so a character range beyond the table
contained every character.
---
 ts/util.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ts/util.ts b/ts/util.ts
index 807c840..06995a8 100644
--- a/ts/util.ts
+++ b/ts/util.ts
@@ -76,6 +76,8 @@ export type GtImpl<A extends number, B extends number> = B extends 0
   ? true
   : A extends 0
   ? false
+  : [Pred<B>] extends [never]
+  ? false // B is beyond the table and so larger than A
   : GtImpl<Pred<A>, Pred<B>>;
 
 export type Add<A extends number, B extends number> = B extends 0
-- 
2.43.0

