From 2ac6345ca1c97b223dd31aa66fbb7cc8c3126f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:51 +0000
Subject: [PATCH 01/33] fix: don't split multi-byte characters when skipping
 unexpected text

---
 lexan/src/lexicon.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexan/src/lexicon.rs b/lexan/src/lexicon.rs
index e57e0ae..f61cbcc 100644
--- a/lexan/src/lexicon.rs
+++ b/lexan/src/lexicon.rs
@@ -75,7 +75,7 @@ where
 
     /// Returns the distance in bytes to the next valid content in `text`
     pub fn distance_to_next_valid_byte(&self, text: &str) -> usize {
-        for index in 0..text.len() {
+        for (index, _) in text.char_indices() {
             if self.literal_matcher.matches(&text[index..]) {
                 return index;
             }
-- 
2.43.0


From 24d4b260cd341d9d5ed89e1de888bd325f94fa60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:51 +0000
Subject: [PATCH 02/33] fix: never let an empty match of a regular expression
 stall the lexer

---
 lexan/src/matcher.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lexan/src/matcher.rs b/lexan/src/matcher.rs
index f4a4262..91aa967 100644
--- a/lexan/src/matcher.rs
+++ b/lexan/src/matcher.rs
@@ -147,6 +147,8 @@ impl<T: Copy + Ord + Debug + Display> RegexMatcher<T> {
         for (tag, regex) in self.lexemes.iter() {
             if let Some(m) = regex.find(text) {
                 match m.end().cmp(&largest_end) {
+                    // an empty match would produce a token without consuming any text
+                    _ if m.is_empty() => (),
                     Ordering::Equal => matches.push(*tag),
                     Ordering::Greater => {
                         largest_end = m.end();
@@ -162,7 +164,7 @@ impl<T: Copy + Ord + Debug + Display> RegexMatcher<T> {
     /// Returns `true` if we match the start of the text
     pub fn matches(&self, text: &str) -> bool {
         for (_, regex) in self.lexemes.iter() {
-            if regex.find(text).is_some() {
+            if regex.find(text).is_some_and(|m| !m.is_empty()) {
                 return true;
             }
         }
@@ -194,7 +196,9 @@ impl SkipMatcher {
         let mut index = 0;
         'outer: while index < text.len() {
             for regex in self.regexes.iter() {
-                if let Some(m) = regex.find(&text[index..]) {
+                if let Some(m) = regex.find(&text[index..])
+                    && !m.is_empty()
+                {
                     index += m.end();
                     continue 'outer;
                 }
@@ -206,7 +210,7 @@ impl SkipMatcher {
 
     pub fn matches(&self, text: &str) -> bool {
         for regex in self.regexes.iter() {
-            if regex.find(text).is_some() {
+            if regex.find(text).is_some_and(|m| !m.is_empty()) {
                 return true;
             }
         }
-- 
2.43.0


From 226fbd4df5f2b6f27cd37f162ccdff035bdf8aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:14 +0000
Subject: [PATCH 03/33] fix: anchor every alternative of a regular expression
 to the start of the text

---
 lexan/src/matcher.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/lexan/src/matcher.rs b/lexan/src/matcher.rs
index 91aa967..dd12f29 100644
--- a/lexan/src/matcher.rs
+++ b/lexan/src/matcher.rs
@@ -121,6 +121,14 @@ impl<T: Eq + Debug + Copy + Ord + Display> LiteralMatcher<T> {
     }
 }
 
+/// Returns a regular expression that matches `pattern` (all of its alternatives) but only at the
+/// start of a text
+fn anchored_regex(pattern: &str) -> Result<Regex, regex::Error> {
+    // the pattern has to be well formed without the help of the added parentheses
+    Regex::new(pattern)?;
+    Regex::new(&format!("\\A(?:{pattern})"))
+}
+
 #[derive(Debug, Default)]
 pub(crate) struct RegexMatcher<T: Copy + Debug> {
     lexemes: Vec<(T, Regex)>,
@@ -133,9 +141,7 @@ impl<T: Copy + Ord + Debug + Display> RegexMatcher<T> {
             if pattern.is_empty() {
                 return Err(LexanError::EmptyPattern(Some(*tag)));
             };
-            let mut anchored_pattern = "\\A".to_string();
-            anchored_pattern.push_str(pattern);
-            lexemes.push((*tag, Regex::new(&anchored_pattern)?));
+            lexemes.push((*tag, anchored_regex(pattern)?));
         }
         Ok(Self { lexemes })
     }
@@ -184,9 +190,7 @@ impl SkipMatcher {
             if regex_str.is_empty() {
                 return Err(LexanError::EmptyPattern(None));
             };
-            let mut anchored_pattern = "\\A".to_string();
-            anchored_pattern.push_str(regex_str);
-            regexes.push(Regex::new(&anchored_pattern)?);
+            regexes.push(anchored_regex(regex_str)?);
         }
         Ok(Self { regexes })
     }
-- 
2.43.0


From d1f5ba67c72ecad2056991a469c39582883c987c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:14 +0000
Subject: [PATCH 04/33] fix: count every line end in texts that mix "\n" and
 "\r\n"

---
 lexan/src/analyzer.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/lexan/src/analyzer.rs b/lexan/src/analyzer.rs
index 3952d04..a487083 100644
--- a/lexan/src/analyzer.rs
+++ b/lexan/src/analyzer.rs
@@ -178,11 +178,8 @@ where
         let slice = &self.text[self.index..next_index];
         let mut i = 0;
         while i < length {
-            if let Some(eol_i) = slice[i..].find("\r\n") {
-                self.location.line_number += 1;
-                self.location.offset = 1;
-                i += eol_i + 2;
-            } else if let Some(eol_i) = slice[i..].find('\n') {
+            // NB: the '\n' in "\r\n" is the end of line
+            if let Some(eol_i) = slice[i..].find('\n') {
                 self.location.line_number += 1;
                 self.location.offset = 1;
                 i += eol_i + 1;
-- 
2.43.0


From ca49f20a5b860a5b2cf8568c8637a4d312f03491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:35 +0000
Subject: [PATCH 05/33] fix: a text with no tokens in it is just the end
 marker, not an error

---
 lexan/src/analyzer.rs | 14 ++++++++++++++
 lexan/src/lib.rs      |  2 +-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/lexan/src/analyzer.rs b/lexan/src/analyzer.rs
index a487083..54a7152 100644
--- a/lexan/src/analyzer.rs
+++ b/lexan/src/analyzer.rs
@@ -275,6 +275,20 @@ where
         stream
     }
 
+    /// Returns a stream for a complete text i.e. one with the end marker at its front (in lieu
+    /// of an error) if there are no tokens in `text`.
+    pub(crate) fn complete(lexicon: &Arc<Lexicon<T>>, text: &str, label: &str) -> Self {
+        let mut stream = Self::new(lexicon, text, label);
+        if stream.is_empty() {
+            stream.front = Ok(Token {
+                tag: lexicon.end_marker(),
+                lexeme: String::new(),
+                location: BasicTokenStream::new(lexicon, text, label).location(),
+            });
+        }
+        stream
+    }
+
     pub fn is_empty(&self) -> bool {
         self.token_stream_stack.len() == 0
     }
diff --git a/lexan/src/lib.rs b/lexan/src/lib.rs
index 65485be..2bdb66a 100644
--- a/lexan/src/lib.rs
+++ b/lexan/src/lib.rs
@@ -39,7 +39,7 @@ where
     }
 
     pub fn token_stream(&self, text: &str, label: &str) -> TokenStream<T> {
-        TokenStream::new(&self.lexicon, text, label)
+        TokenStream::complete(&self.lexicon, text, label)
     }
 }
 
-- 
2.43.0


From 224306b1758d5dd356eb4e0fcdb8c9076e315653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:32 +0000
Subject: [PATCH 06/33] fix: consider the initial state when looking for a
 state to recover from an error in

---
 alalr1/src/lib.rs | 2 +-
 lalr1/src/lib.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/alalr1/src/lib.rs b/alalr1/src/lib.rs
index 135a747..03ff5b7 100644
--- a/alalr1/src/lib.rs
+++ b/alalr1/src/lib.rs
@@ -113,7 +113,7 @@ where
         while !tokens.is_empty() {
             if let Ok(token) = tokens.front() {
                 let viable_states = viable_error_recovery_states(token.tag());
-                for sub in 1..self.states.len() {
+                for sub in 1..=self.states.len() {
                     let candidate = self.states[self.states.len() - sub].1;
                     if !self.is_last_error_state(candidate) && viable_states.contains(&candidate) {
                         self.last_error_state = Some(candidate);
diff --git a/lalr1/src/lib.rs b/lalr1/src/lib.rs
index 0b5ea6f..81bd696 100644
--- a/lalr1/src/lib.rs
+++ b/lalr1/src/lib.rs
@@ -171,7 +171,7 @@ where
         while !tokens.is_empty() {
             if let Ok(token) = tokens.front() {
                 let viable_states = viable_error_recovery_states(token.tag());
-                for sub in 1..self.states.len() {
+                for sub in 1..=self.states.len() {
                     let candidate = self.states[self.states.len() - sub].1;
                     if !self.is_last_error_state(candidate) && viable_states.contains(&candidate) {
                         self.last_error_state = Some(candidate);
-- 
2.43.0


From 401db6c6567f47c0ac0eb9194fcf035a252caf77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:52 +0000
Subject: [PATCH 07/33] fix: let error recovery use the same state again once
 input has been consumed (and only then)

---
 alalr1/src/lib.rs | 21 +++++++++------------
 lalr1/src/lib.rs  | 21 +++++++++------------
 2 files changed, 18 insertions(+), 24 deletions(-)

diff --git a/alalr1/src/lib.rs b/alalr1/src/lib.rs
index 03ff5b7..c56a5d4 100644
--- a/alalr1/src/lib.rs
+++ b/alalr1/src/lib.rs
@@ -48,7 +48,8 @@ where
 {
     states: Vec<(Symbol<T, N>, u32)>,
     attributes: Vec<A>,
-    last_error_state: Option<u32>,
+    /// The states used to recover from errors since a token was last consumed
+    error_states: Vec<u32>,
 }
 
 impl<T, N, A> ParseStack<T, N, A>
@@ -60,7 +61,7 @@ where
         Self {
             states: vec![(Symbol::Start, 0)],
             attributes: vec![],
-            last_error_state: None,
+            error_states: vec![],
         }
     }
 
@@ -89,6 +90,7 @@ where
         self.states
             .push((Symbol::Terminal(*token.tag()), new_state));
         self.attributes.push(A::from(token));
+        self.error_states.clear();
     }
 
     fn push_non_terminal(&mut self, non_terminal: N, attribute: A, new_state: u32) {
@@ -97,14 +99,6 @@ where
             .push((Symbol::NonTerminal(non_terminal), new_state));
     }
 
-    fn is_last_error_state(&self, state: u32) -> bool {
-        if let Some(last_error_state) = self.last_error_state {
-            state == last_error_state
-        } else {
-            false
-        }
-    }
-
     fn distance_to_viable_state<F: Fn(&T) -> OrderedSet<u32>>(
         &mut self,
         tokens: &mut TokenStream<T>,
@@ -115,13 +109,16 @@ where
                 let viable_states = viable_error_recovery_states(token.tag());
                 for sub in 1..=self.states.len() {
                     let candidate = self.states[self.states.len() - sub].1;
-                    if !self.is_last_error_state(candidate) && viable_states.contains(&candidate) {
-                        self.last_error_state = Some(candidate);
+                    if !self.error_states.contains(&candidate)
+                        && viable_states.contains(&candidate)
+                    {
+                        self.error_states.push(candidate);
                         return Some(sub - 1);
                     }
                 }
             };
             tokens.advance();
+            self.error_states.clear();
         }
         None
     }
diff --git a/lalr1/src/lib.rs b/lalr1/src/lib.rs
index 81bd696..a407d54 100644
--- a/lalr1/src/lib.rs
+++ b/lalr1/src/lib.rs
@@ -106,7 +106,8 @@ where
 {
     states: Vec<(Symbol<T, N>, u32)>,
     attributes: Vec<A>,
-    last_error_state: Option<u32>,
+    /// The states used to recover from errors since a token was last consumed
+    error_states: Vec<u32>,
 }
 
 impl<T, N, A> ParseStack<T, N, A>
@@ -118,7 +119,7 @@ where
         Self {
             states: vec![(Symbol::Start, 0)],
             attributes: vec![],
-            last_error_state: None,
+            error_states: vec![],
         }
     }
 
@@ -147,6 +148,7 @@ where
         self.states
             .push((Symbol::Terminal(*token.tag()), new_state));
         self.attributes.push(A::from(token));
+        self.error_states.clear();
     }
 
     fn push_non_terminal(&mut self, non_terminal: N, attribute: A, new_state: u32) {
@@ -155,14 +157,6 @@ where
             .push((Symbol::NonTerminal(non_terminal), new_state));
     }
 
-    fn is_last_error_state(&self, state: u32) -> bool {
-        if let Some(last_error_state) = self.last_error_state {
-            state == last_error_state
-        } else {
-            false
-        }
-    }
-
     fn distance_to_viable_state<F: Fn(&T) -> OrderedSet<u32>>(
         &mut self,
         tokens: &mut TokenStream<T>,
@@ -173,13 +167,16 @@ where
                 let viable_states = viable_error_recovery_states(token.tag());
                 for sub in 1..=self.states.len() {
                     let candidate = self.states[self.states.len() - sub].1;
-                    if !self.is_last_error_state(candidate) && viable_states.contains(&candidate) {
-                        self.last_error_state = Some(candidate);
+                    if !self.error_states.contains(&candidate)
+                        && viable_states.contains(&candidate)
+                    {
+                        self.error_states.push(candidate);
                         return Some(sub - 1);
                     }
                 }
             };
             tokens.advance();
+            self.error_states.clear();
         }
         None
     }
-- 
2.43.0


From c7229cc2870fdaeeeac3b39615871895993227ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:12 +0000
Subject: [PATCH 08/33] fix: merge the look aheads of all of a state's items
 not just its kernel's

---
 alalr1_lib/src/state.rs | 2 +-
 lalr1_lib/src/state.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/alalr1_lib/src/state.rs b/alalr1_lib/src/state.rs
index 8f230af..cb53d72 100644
--- a/alalr1_lib/src/state.rs
+++ b/alalr1_lib/src/state.rs
@@ -101,7 +101,7 @@ impl ParserState {
 
     pub fn merge_lookahead_sets(&self, item_set: &GrammarItemSet) {
         let mut additions = 0;
-        for (key, other_look_ahead_set) in item_set.iter().filter(|(k, _)| k.is_kernel_item()) {
+        for (key, other_look_ahead_set) in item_set.iter() {
             if let Some(look_ahead_set) = self.0.grammar_items.borrow_mut().get_mut(key) {
                 let current_len = look_ahead_set.len();
                 *look_ahead_set |= other_look_ahead_set;
diff --git a/lalr1_lib/src/state.rs b/lalr1_lib/src/state.rs
index 88e6d69..8536e07 100644
--- a/lalr1_lib/src/state.rs
+++ b/lalr1_lib/src/state.rs
@@ -101,7 +101,7 @@ impl ParserState {
 
     pub fn merge_lookahead_sets(&self, item_set: &GrammarItemSet) {
         let mut additions = 0;
-        for (key, other_look_ahead_set) in item_set.iter().filter(|(k, _)| k.is_kernel_item()) {
+        for (key, other_look_ahead_set) in item_set.iter() {
             if let Some(look_ahead_set) = self.0.grammar_items.borrow_mut().get_mut(key) {
                 let current_len = look_ahead_set.len();
                 *look_ahead_set |= other_look_ahead_set;
-- 
2.43.0


From e0619b0b09386c3b4a9ce08a3d25ccb86ef0f7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:31 +0000
Subject: [PATCH 09/33] fix: compute first sets of (mutually) recursive symbols
 as a fixed point

---
 alalr1_lib/src/grammar.rs             | 28 +++++----
 alalr1_lib/src/symbol/non_terminal.rs | 87 +++++++++------------------
 lalr1_lib/src/grammar.rs              | 28 +++++----
 lalr1_lib/src/symbol/non_terminal.rs  | 87 +++++++++------------------
 4 files changed, 92 insertions(+), 138 deletions(-)

diff --git a/alalr1_lib/src/grammar.rs b/alalr1_lib/src/grammar.rs
index 0a3c1a5..c4314d5 100644
--- a/alalr1_lib/src/grammar.rs
+++ b/alalr1_lib/src/grammar.rs
@@ -56,20 +56,26 @@ impl Specification {
         if !spec.symbol_table.error_non_terminal().is_unused() {
             spec.productions.push(Production::new(symbol, tail));
         }
-        spec.symbol_table
-            .start_non_terminal()
-            .set_firsts_data(&spec.productions);
-        spec.symbol_table
-            .error_non_terminal()
-            .set_firsts_data(&spec.productions);
-        for non_terminal in spec.symbol_table.non_terminals() {
-            //if non_terminal.firsts_data_is_none() {
-            non_terminal.set_firsts_data(&spec.productions)
-            //}
-        }
+        spec.set_firsts_data();
         Ok(spec)
     }
 
+    // Symbols may be (mutually) recursive so repeat until there are no more changes
+    fn set_firsts_data(&self) {
+        self.symbol_table.start_non_terminal().clear_firsts_data();
+        self.symbol_table.error_non_terminal().clear_firsts_data();
+        for non_terminal in self.symbol_table.non_terminals() {
+            non_terminal.clear_firsts_data()
+        }
+        let mut changed = true;
+        while changed {
+            changed = false;
+            for production in self.productions.iter() {
+                changed |= production.left_hand_side().update_firsts_data(production);
+            }
+        }
+    }
+
     pub fn is_allowable_name(name: &str) -> bool {
         !(name.starts_with("aa") || name.starts_with("AA"))
     }
diff --git a/alalr1_lib/src/symbol/non_terminal.rs b/alalr1_lib/src/symbol/non_terminal.rs
index b6b8b0c..d1c14df 100644
--- a/alalr1_lib/src/symbol/non_terminal.rs
+++ b/alalr1_lib/src/symbol/non_terminal.rs
@@ -180,75 +180,46 @@ impl NonTerminal {
         }
     }
 
-    fn firsts_data_is_set(&self) -> bool {
+    pub fn clear_firsts_data(&self) {
+        self.set_firsts_data(FirstsData::default())
+    }
+
+    fn set_firsts_data(&self, firsts_data: FirstsData) {
         match self {
             NonTerminal::UserDefined(non_terminal_data)
             | NonTerminal::Error(non_terminal_data)
             | NonTerminal::Start(non_terminal_data) => {
-                non_terminal_data.firsts_data.borrow().is_some()
+                *non_terminal_data.firsts_data.borrow_mut() = Some(firsts_data)
             }
         }
     }
 
-    pub fn set_firsts_data(&self, productions: &[Production]) {
-        match self {
-            NonTerminal::UserDefined(non_terminal_data)
-            | NonTerminal::Error(non_terminal_data)
-            | NonTerminal::Start(non_terminal_data) => {
-                if non_terminal_data.firsts_data.borrow().is_some() {
-                    return;
+    /// Add the contribution of `production` (one of this symbol's productions) to the firsts data.
+    /// Returns `true` if it was changed i.e. the data of any symbol may now be out of date.
+    pub fn update_firsts_data(&self, production: &Production) -> bool {
+        let mut firsts_data = self.firsts_data();
+        let (old_len, old_transparent) = (firsts_data.token_set.len(), firsts_data.transparent);
+        let mut transparent_production = true;
+        for rhs_symbol in production.right_hand_side_symbols() {
+            match rhs_symbol {
+                Symbol::NonTerminal(non_terminal) => {
+                    let rhs_firsts_data = non_terminal.firsts_data();
+                    firsts_data.token_set |= &rhs_firsts_data.token_set;
+                    transparent_production = rhs_firsts_data.transparent;
                 }
-                let relevant_productions: Vec<Production> = productions
-                    .iter()
-                    .filter(|x| x.left_hand_side() == self)
-                    .cloned()
-                    .collect();
-                let mut transparent = relevant_productions.iter().any(|x| x.is_empty());
-                let mut token_set = TokenSet::new();
-                let mut transparency_changed = true;
-                while transparency_changed {
-                    transparency_changed = false;
-                    for production in relevant_productions.iter() {
-                        let mut transparent_production = true;
-                        for rhs_symbol in production.right_hand_side_symbols() {
-                            match rhs_symbol {
-                                Symbol::NonTerminal(non_terminal) => {
-                                    if non_terminal == self {
-                                        if transparent {
-                                            continue;
-                                        } else {
-                                            transparent_production = false;
-                                            break;
-                                        }
-                                    }
-                                    if !non_terminal.firsts_data_is_set() {
-                                        non_terminal.set_firsts_data(productions);
-                                    }
-                                    let firsts_data = non_terminal.firsts_data();
-                                    token_set |= &firsts_data.token_set;
-                                    if !firsts_data.transparent {
-                                        transparent_production = false;
-                                        break;
-                                    }
-                                }
-                                Symbol::Terminal(token) => {
-                                    token_set.insert(token);
-                                    transparent_production = false;
-                                    break;
-                                }
-                            }
-                        }
-                        if transparent_production {
-                            transparency_changed = !transparent;
-                            transparent = true;
-                        }
-                    }
+                Symbol::Terminal(token) => {
+                    firsts_data.token_set.insert(token);
+                    transparent_production = false;
                 }
-                *non_terminal_data.firsts_data.borrow_mut() = Some(FirstsData {
-                    token_set,
-                    transparent,
-                });
+            }
+            if !transparent_production {
+                break;
             }
         }
+        firsts_data.transparent |= transparent_production;
+        let changed =
+            firsts_data.token_set.len() > old_len || firsts_data.transparent != old_transparent;
+        self.set_firsts_data(firsts_data);
+        changed
     }
 }
diff --git a/lalr1_lib/src/grammar.rs b/lalr1_lib/src/grammar.rs
index 7d7129c..cd5aa1c 100644
--- a/lalr1_lib/src/grammar.rs
+++ b/lalr1_lib/src/grammar.rs
@@ -52,20 +52,26 @@ impl Specification {
         if !spec.symbol_table.error_non_terminal().is_unused() {
             spec.productions.push(Production::new(symbol, tail));
         }
-        spec.symbol_table
-            .start_non_terminal()
-            .set_firsts_data(&spec.productions);
-        spec.symbol_table
-            .error_non_terminal()
-            .set_firsts_data(&spec.productions);
-        for non_terminal in spec.symbol_table.non_terminals() {
-            //if non_terminal.firsts_data_is_none() {
-            non_terminal.set_firsts_data(&spec.productions)
-            //}
-        }
+        spec.set_firsts_data();
         Ok(spec)
     }
 
+    // Symbols may be (mutually) recursive so repeat until there are no more changes
+    fn set_firsts_data(&self) {
+        self.symbol_table.start_non_terminal().clear_firsts_data();
+        self.symbol_table.error_non_terminal().clear_firsts_data();
+        for non_terminal in self.symbol_table.non_terminals() {
+            non_terminal.clear_firsts_data()
+        }
+        let mut changed = true;
+        while changed {
+            changed = false;
+            for production in self.productions.iter() {
+                changed |= production.left_hand_side().update_firsts_data(production);
+            }
+        }
+    }
+
     pub fn is_allowable_name(name: &str) -> bool {
         !(name.starts_with("aa") || name.starts_with("AA"))
     }
diff --git a/lalr1_lib/src/symbol/non_terminal.rs b/lalr1_lib/src/symbol/non_terminal.rs
index b6b8b0c..d1c14df 100644
--- a/lalr1_lib/src/symbol/non_terminal.rs
+++ b/lalr1_lib/src/symbol/non_terminal.rs
@@ -180,75 +180,46 @@ impl NonTerminal {
         }
     }
 
-    fn firsts_data_is_set(&self) -> bool {
+    pub fn clear_firsts_data(&self) {
+        self.set_firsts_data(FirstsData::default())
+    }
+
+    fn set_firsts_data(&self, firsts_data: FirstsData) {
         match self {
             NonTerminal::UserDefined(non_terminal_data)
             | NonTerminal::Error(non_terminal_data)
             | NonTerminal::Start(non_terminal_data) => {
-                non_terminal_data.firsts_data.borrow().is_some()
+                *non_terminal_data.firsts_data.borrow_mut() = Some(firsts_data)
             }
         }
     }
 
-    pub fn set_firsts_data(&self, productions: &[Production]) {
-        match self {
-            NonTerminal::UserDefined(non_terminal_data)
-            | NonTerminal::Error(non_terminal_data)
-            | NonTerminal::Start(non_terminal_data) => {
-                if non_terminal_data.firsts_data.borrow().is_some() {
-                    return;
+    /// Add the contribution of `production` (one of this symbol's productions) to the firsts data.
+    /// Returns `true` if it was changed i.e. the data of any symbol may now be out of date.
+    pub fn update_firsts_data(&self, production: &Production) -> bool {
+        let mut firsts_data = self.firsts_data();
+        let (old_len, old_transparent) = (firsts_data.token_set.len(), firsts_data.transparent);
+        let mut transparent_production = true;
+        for rhs_symbol in production.right_hand_side_symbols() {
+            match rhs_symbol {
+                Symbol::NonTerminal(non_terminal) => {
+                    let rhs_firsts_data = non_terminal.firsts_data();
+                    firsts_data.token_set |= &rhs_firsts_data.token_set;
+                    transparent_production = rhs_firsts_data.transparent;
                 }
-                let relevant_productions: Vec<Production> = productions
-                    .iter()
-                    .filter(|x| x.left_hand_side() == self)
-                    .cloned()
-                    .collect();
-                let mut transparent = relevant_productions.iter().any(|x| x.is_empty());
-                let mut token_set = TokenSet::new();
-                let mut transparency_changed = true;
-                while transparency_changed {
-                    transparency_changed = false;
-                    for production in relevant_productions.iter() {
-                        let mut transparent_production = true;
-                        for rhs_symbol in production.right_hand_side_symbols() {
-                            match rhs_symbol {
-                                Symbol::NonTerminal(non_terminal) => {
-                                    if non_terminal == self {
-                                        if transparent {
-                                            continue;
-                                        } else {
-                                            transparent_production = false;
-                                            break;
-                                        }
-                                    }
-                                    if !non_terminal.firsts_data_is_set() {
-                                        non_terminal.set_firsts_data(productions);
-                                    }
-                                    let firsts_data = non_terminal.firsts_data();
-                                    token_set |= &firsts_data.token_set;
-                                    if !firsts_data.transparent {
-                                        transparent_production = false;
-                                        break;
-                                    }
-                                }
-                                Symbol::Terminal(token) => {
-                                    token_set.insert(token);
-                                    transparent_production = false;
-                                    break;
-                                }
-                            }
-                        }
-                        if transparent_production {
-                            transparency_changed = !transparent;
-                            transparent = true;
-                        }
-                    }
+                Symbol::Terminal(token) => {
+                    firsts_data.token_set.insert(token);
+                    transparent_production = false;
                 }
-                *non_terminal_data.firsts_data.borrow_mut() = Some(FirstsData {
-                    token_set,
-                    transparent,
-                });
+            }
+            if !transparent_production {
+                break;
             }
         }
+        firsts_data.transparent |= transparent_production;
+        let changed =
+            firsts_data.token_set.len() > old_len || firsts_data.transparent != old_transparent;
+        self.set_firsts_data(firsts_data);
+        changed
     }
 }
-- 
2.43.0


From df47a11ca94d6bccff3924a21feb1bfacc79f339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:32 +0000
Subject: [PATCH 10/33] fix: number productions per specification so that a
 process can generate more than one parser

---
 alalr1_lib/src/grammar.rs    |  8 +++++---
 alalr1_lib/src/production.rs | 11 +++--------
 lalr1_lib/src/grammar.rs     |  8 +++++---
 lalr1_lib/src/production.rs  | 11 +++--------
 4 files changed, 16 insertions(+), 22 deletions(-)

diff --git a/alalr1_lib/src/grammar.rs b/alalr1_lib/src/grammar.rs
index c4314d5..5bc56fc 100644
--- a/alalr1_lib/src/grammar.rs
+++ b/alalr1_lib/src/grammar.rs
@@ -54,7 +54,8 @@ impl Specification {
         let symbol = spec.symbol_table.error_non_terminal.clone();
         let tail = ProductionTail::default();
         if !spec.symbol_table.error_non_terminal().is_unused() {
-            spec.productions.push(Production::new(symbol, tail));
+            let ident = spec.productions.len();
+            spec.productions.push(Production::new(ident, symbol, tail));
         }
         spec.set_firsts_data();
         Ok(spec)
@@ -102,11 +103,12 @@ impl Specification {
             left_hand_side.add_used_at(&location);
             let start_symbol = self.symbol_table.start_non_terminal_used_at(&location);
             let start_tail = ProductionTail::new(&[left_hand_side.into()], None, None, None);
-            let start_production = Production::new(start_symbol, start_tail);
+            let start_production = Production::new(0, start_symbol, start_tail);
             self.productions.push(start_production);
         }
+        let ident = self.productions.len();
         self.productions
-            .push(Production::new(left_hand_side.clone(), tail.clone()));
+            .push(Production::new(ident, left_hand_side.clone(), tail.clone()));
     }
 
     fn closure(&self, mut closure_set: GrammarItemSet) -> GrammarItemSet {
diff --git a/alalr1_lib/src/production.rs b/alalr1_lib/src/production.rs
index 6ceb740..d7ed8b4 100644
--- a/alalr1_lib/src/production.rs
+++ b/alalr1_lib/src/production.rs
@@ -14,7 +14,6 @@ use std::iter::FromIterator;
 use std::ops::Index;
 use std::rc::Rc;
 use std::str::FromStr;
-use std::sync::atomic::{self, AtomicU32};
 
 #[derive(Debug, Default)]
 pub struct ProductionTailData {
@@ -71,11 +70,6 @@ fn rhs_associated_precedence(symbols: &[Symbol]) -> Option<(Associativity, u16)>
 pub struct ProductionId(u32);
 
 impl ProductionId {
-    fn new() -> Self {
-        static NEXT_ID: AtomicU32 = AtomicU32::new(0);
-        ProductionId(NEXT_ID.fetch_add(1, atomic::Ordering::Relaxed))
-    }
-
     pub fn is_zero(&self) -> bool {
         self.0 == 0
     }
@@ -108,9 +102,10 @@ lazy_static! {
 }
 
 impl Production {
-    pub fn new(left_hand_side: NonTerminal, tail: ProductionTail) -> Self {
+    /// `ident` is the position of the production within its specification
+    pub fn new(ident: usize, left_hand_side: NonTerminal, tail: ProductionTail) -> Self {
         Self(Rc::new(ProductionData {
-            ident: ProductionId::new(),
+            ident: ProductionId(ident as u32),
             left_hand_side,
             tail,
         }))
diff --git a/lalr1_lib/src/grammar.rs b/lalr1_lib/src/grammar.rs
index cd5aa1c..4a0e21f 100644
--- a/lalr1_lib/src/grammar.rs
+++ b/lalr1_lib/src/grammar.rs
@@ -50,7 +50,8 @@ impl Specification {
         let symbol = spec.symbol_table.error_non_terminal.clone();
         let tail = ProductionTail::default();
         if !spec.symbol_table.error_non_terminal().is_unused() {
-            spec.productions.push(Production::new(symbol, tail));
+            let ident = spec.productions.len();
+            spec.productions.push(Production::new(ident, symbol, tail));
         }
         spec.set_firsts_data();
         Ok(spec)
@@ -98,11 +99,12 @@ impl Specification {
             left_hand_side.add_used_at(&location);
             let start_symbol = self.symbol_table.start_non_terminal_used_at(&location);
             let start_tail = ProductionTail::new(&[left_hand_side.into()], None, None);
-            let start_production = Production::new(start_symbol, start_tail);
+            let start_production = Production::new(0, start_symbol, start_tail);
             self.productions.push(start_production);
         }
+        let ident = self.productions.len();
         self.productions
-            .push(Production::new(left_hand_side.clone(), tail.clone()));
+            .push(Production::new(ident, left_hand_side.clone(), tail.clone()));
     }
 
     fn closure(&self, mut closure_set: GrammarItemSet) -> GrammarItemSet {
diff --git a/lalr1_lib/src/production.rs b/lalr1_lib/src/production.rs
index fc7deb6..ffc14db 100644
--- a/lalr1_lib/src/production.rs
+++ b/lalr1_lib/src/production.rs
@@ -14,7 +14,6 @@ use std::iter::FromIterator;
 use std::ops::Index;
 use std::rc::Rc;
 use std::str::FromStr;
-use std::sync::atomic::{self, AtomicU32};
 
 #[derive(Debug, Default)]
 pub struct ProductionTailData {
@@ -67,11 +66,6 @@ fn rhs_associated_precedence(symbols: &[Symbol]) -> Option<(Associativity, u16)>
 pub struct ProductionId(u32);
 
 impl ProductionId {
-    fn new() -> Self {
-        static NEXT_ID: AtomicU32 = AtomicU32::new(0);
-        ProductionId(NEXT_ID.fetch_add(1, atomic::Ordering::Relaxed))
-    }
-
     pub fn is_zero(&self) -> bool {
         self.0 == 0
     }
@@ -104,9 +98,10 @@ lazy_static! {
 }
 
 impl Production {
-    pub fn new(left_hand_side: NonTerminal, tail: ProductionTail) -> Self {
+    /// `ident` is the position of the production within its specification
+    pub fn new(ident: usize, left_hand_side: NonTerminal, tail: ProductionTail) -> Self {
         Self(Rc::new(ProductionData {
-            ident: ProductionId::new(),
+            ident: ProductionId(ident as u32),
             left_hand_side,
             tail,
         }))
-- 
2.43.0


From b180e75bc04debd57bddbe1f3be93ab7e3761f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:33 +0000
Subject: [PATCH 11/33] fix: a right associative rule resolves a shift/reduce
 conflict in favour of the shift

---
 alalr1_lib/src/state.rs | 4 +++-
 lalr1_lib/src/state.rs  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/alalr1_lib/src/state.rs b/alalr1_lib/src/state.rs
index cb53d72..bad1188 100644
--- a/alalr1_lib/src/state.rs
+++ b/alalr1_lib/src/state.rs
@@ -179,7 +179,9 @@ impl ParserState {
                     .remove(shift_symbol);
             } else if reducible_item.associativity() == Associativity::Left {
                 shift_list.remove(shift_symbol);
-            } else if reducible_item.has_error_recovery_tail() {
+            } else if reducible_item.has_error_recovery_tail()
+                || reducible_item.associativity() == Associativity::Right
+            {
                 grammar_items
                     .get_mut(reducible_item)
                     .unwrap()
diff --git a/lalr1_lib/src/state.rs b/lalr1_lib/src/state.rs
index 8536e07..da16a15 100644
--- a/lalr1_lib/src/state.rs
+++ b/lalr1_lib/src/state.rs
@@ -179,7 +179,9 @@ impl ParserState {
                     .remove(shift_symbol);
             } else if reducible_item.associativity() == Associativity::Left {
                 shift_list.remove(shift_symbol);
-            } else if reducible_item.has_error_recovery_tail() {
+            } else if reducible_item.has_error_recovery_tail()
+                || reducible_item.associativity() == Associativity::Right
+            {
                 grammar_items
                     .get_mut(reducible_item)
                     .unwrap()
-- 
2.43.0


From 36107fbf0de966256001e5aac34beb8e9fbc5ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:26 +0000
Subject: [PATCH 12/33] fix: emit the text of tokens and skips as is whatever
 characters it contains

---
 alalr1_lib/src/grammar.rs | 26 +++++++++++++++++++-------
 lalr1_lib/src/grammar.rs  | 26 +++++++++++++++++++-------
 2 files changed, 38 insertions(+), 14 deletions(-)

diff --git a/alalr1_lib/src/grammar.rs b/alalr1_lib/src/grammar.rs
index 5bc56fc..4c5eec3 100644
--- a/alalr1_lib/src/grammar.rs
+++ b/alalr1_lib/src/grammar.rs
@@ -27,6 +27,15 @@ pub fn report_warning(location: &lexan::Location, what: &str) {
     writeln!(stderr(), "{location}: Warning: {what}.").expect("what?");
 }
 
+/// Returns the Rust code for a raw string literal whose value is `text`
+fn raw_string_literal(text: &str) -> String {
+    let mut hashes = "###".to_string();
+    while text.contains(&format!("\"{hashes}")) {
+        hashes.push('#');
+    }
+    format!("r{hashes}\"{text}\"{hashes}")
+}
+
 #[derive(Debug, Default)]
 pub struct Specification {
     pub symbol_table: SymbolTable,
@@ -436,8 +445,9 @@ impl Grammar {
             match token {
                 Token::Literal(token_data) => {
                     wtr.write_fmt(format_args!(
-                        "{} => write!(f, r###\"{}\"###),\n",
-                        token_data.name, token_data.text
+                        "{} => f.write_str({}),\n",
+                        token_data.name,
+                        raw_string_literal(&token_data.text)
                     ))?;
                 }
                 Token::Regex(token_data) => {
@@ -493,10 +503,12 @@ impl Grammar {
         wtr.write_all(b"            &[\n")?;
         for token in self.specification.symbol_table.literal_tokens() {
             wtr.write_all(b"                ")?;
+            let text = token.text();
             wtr.write_fmt(format_args!(
-                "({}, r###{}###),\n",
+                "({}, {}),\n",
                 token.name(),
-                token.text()
+                // the text includes the quotes
+                raw_string_literal(&text[1..text.len() - 1])
             ))?;
         }
         wtr.write_all(b"            ],\n")?;
@@ -504,16 +516,16 @@ impl Grammar {
         for token in self.specification.symbol_table.regex_tokens() {
             wtr.write_all(b"                ")?;
             wtr.write_fmt(format_args!(
-                "({}, r###\"{}\"###),\n",
+                "({}, {}),\n",
                 token.name(),
-                token.text()
+                raw_string_literal(token.text())
             ))?;
         }
         wtr.write_all(b"            ],\n")?;
         wtr.write_all(b"            &[\n")?;
         for skip_rule in self.specification.symbol_table.skip_rules() {
             wtr.write_all(b"                ")?;
-            wtr.write_fmt(format_args!("r###\"{skip_rule}\"###,\n"))?;
+            wtr.write_fmt(format_args!("{},\n", raw_string_literal(skip_rule)))?;
         }
         wtr.write_all(b"            ],\n")?;
         wtr.write_fmt(format_args!("            {},\n", Token::End.name()))?;
diff --git a/lalr1_lib/src/grammar.rs b/lalr1_lib/src/grammar.rs
index 4a0e21f..a60ce1e 100644
--- a/lalr1_lib/src/grammar.rs
+++ b/lalr1_lib/src/grammar.rs
@@ -23,6 +23,15 @@ pub fn report_warning(location: &lexan::Location, what: &str) {
     writeln!(stderr(), "{location}: Warning: {what}.").expect("what?");
 }
 
+/// Returns the Rust code for a raw string literal whose value is `text`
+fn raw_string_literal(text: &str) -> String {
+    let mut hashes = "###".to_string();
+    while text.contains(&format!("\"{hashes}")) {
+        hashes.push('#');
+    }
+    format!("r{hashes}\"{text}\"{hashes}")
+}
+
 #[derive(Debug, Default)]
 pub struct Specification {
     pub symbol_table: SymbolTable,
@@ -432,8 +441,9 @@ impl Grammar {
             match token {
                 Token::Literal(token_data) => {
                     wtr.write_fmt(format_args!(
-                        "{} => write!(f, r###\"{}\"###),\n",
-                        token_data.name, token_data.text
+                        "{} => f.write_str({}),\n",
+                        token_data.name,
+                        raw_string_literal(&token_data.text)
                     ))?;
                 }
                 Token::Regex(token_data) => {
@@ -489,10 +499,12 @@ impl Grammar {
         wtr.write_all(b"            &[\n")?;
         for token in self.specification.symbol_table.literal_tokens() {
             wtr.write_all(b"                ")?;
+            let text = token.text();
             wtr.write_fmt(format_args!(
-                "({}, r###{}###),\n",
+                "({}, {}),\n",
                 token.name(),
-                token.text()
+                // the text includes the quotes
+                raw_string_literal(&text[1..text.len() - 1])
             ))?;
         }
         wtr.write_all(b"            ],\n")?;
@@ -500,16 +512,16 @@ impl Grammar {
         for token in self.specification.symbol_table.regex_tokens() {
             wtr.write_all(b"                ")?;
             wtr.write_fmt(format_args!(
-                "({}, r###\"{}\"###),\n",
+                "({}, {}),\n",
                 token.name(),
-                token.text()
+                raw_string_literal(token.text())
             ))?;
         }
         wtr.write_all(b"            ],\n")?;
         wtr.write_all(b"            &[\n")?;
         for skip_rule in self.specification.symbol_table.skip_rules() {
             wtr.write_all(b"                ")?;
-            wtr.write_fmt(format_args!("r###\"{skip_rule}\"###,\n"))?;
+            wtr.write_fmt(format_args!("{},\n", raw_string_literal(skip_rule)))?;
         }
         wtr.write_all(b"            ],\n")?;
         wtr.write_fmt(format_args!("            {},\n", Token::End.name()))?;
-- 
2.43.0


From c7334713bf896e315a3b61fe8e374d681703e745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:56 +0000
Subject: [PATCH 13/33] fix: allow tokens to be named state, Action or
 OrderedSet

---
 alalr1_lib/src/grammar.rs | 11 +++++------
 alalr1_lib/src/state.rs   | 16 ++++++++++------
 lalr1_lib/src/grammar.rs  | 11 +++++------
 lalr1_lib/src/state.rs    | 10 ++++++----
 4 files changed, 26 insertions(+), 22 deletions(-)

diff --git a/alalr1_lib/src/grammar.rs b/alalr1_lib/src/grammar.rs
index 4c5eec3..4458970 100644
--- a/alalr1_lib/src/grammar.rs
+++ b/alalr1_lib/src/grammar.rs
@@ -412,10 +412,10 @@ impl Grammar {
 
         wtr.write_all(b"use lalr1::OrderedSet;\n\n")?;
         wtr.write_all(b"macro_rules! ordered_set {\n")?;
-        wtr.write_all(b"    () => { OrderedSet::new() };\n")?;
+        wtr.write_all(b"    () => { lalr1::OrderedSet::new() };\n")?;
         wtr.write_all(b"    ( $( $x:expr ),* ) => {\n")?;
         wtr.write_all(b"        {\n")?;
-        wtr.write_all(b"            let mut set = OrderedSet::new();\n")?;
+        wtr.write_all(b"            let mut set = lalr1::OrderedSet::new();\n")?;
         wtr.write_all(b"            $( set.insert($x); )*\n")?;
         wtr.write_all(b"            set\n")?;
         wtr.write_all(b"        }\n")?;
@@ -633,9 +633,9 @@ impl Grammar {
     }
 
     fn write_look_ahead_set_code<W: Write>(&self, wtr: &mut W) -> io::Result<()> {
-        wtr.write_all(b"    fn look_ahead_set(state: u32) -> OrderedSet<AATerminal> {\n")?;
+        wtr.write_all(b"    fn look_ahead_set(aa_state: u32) -> OrderedSet<AATerminal> {\n")?;
         wtr.write_all(b"        use AATerminal::*;\n")?;
-        wtr.write_all(b"        match state {\n")?;
+        wtr.write_all(b"        match aa_state {\n")?;
         for parser_state in self.parser_states.iter() {
             wtr.write_fmt(format_args!(
                 "            {} => {},\n",
@@ -643,7 +643,7 @@ impl Grammar {
                 parser_state.look_ahead_set().formated_as_macro_call()
             ))?;
         }
-        wtr.write_all(b"            _ => panic!(\"illegal state: {state}\"),\n")?;
+        wtr.write_all(b"            _ => panic!(\"illegal state: {aa_state}\"),\n")?;
         wtr.write_all(b"        }\n")?;
         wtr.write_all(b"    }\n\n")?;
         Ok(())
@@ -659,7 +659,6 @@ impl Grammar {
         ))?;
         wtr.write_all(b"        aa_token: &lexan::Token<AATerminal>,\n")?;
         wtr.write_all(b"    ) -> alalr1::Action {\n")?;
-        wtr.write_all(b"        use alalr1::Action;\n")?;
         wtr.write_all(b"        use AATerminal::*;\n")?;
         wtr.write_all(b"        let aa_tag = *aa_token.tag();\n")?;
         wtr.write_all(b"        match aa_state {\n")?;
diff --git a/alalr1_lib/src/state.rs b/alalr1_lib/src/state.rs
index bad1188..2b008a3 100644
--- a/alalr1_lib/src/state.rs
+++ b/alalr1_lib/src/state.rs
@@ -285,7 +285,7 @@ impl ParserState {
         ))?;
         for (token, state) in self.0.shift_list.borrow().iter() {
             wtr.write_fmt(format_args!(
-                "{}    {} => Action::Shift({}),\n",
+                "{}    {} => alalr1::Action::Shift({}),\n",
                 indent,
                 token.name(),
                 state.ident()
@@ -299,13 +299,13 @@ impl ParserState {
                 wtr.write_fmt(format_args!("{indent}    // {production}\n"))?;
                 if production.is_start_production() {
                     wtr.write_fmt(format_args!(
-                        "{}    {} => Action::Accept,\n",
+                        "{}    {} => alalr1::Action::Accept,\n",
                         indent,
                         look_ahead_set.formated_as_or_list(),
                     ))?;
                 } else {
                     wtr.write_fmt(format_args!(
-                        "{}    {} => Action::Reduce({}),\n",
+                        "{}    {} => alalr1::Action::Reduce({}),\n",
                         indent,
                         look_ahead_set.formated_as_or_list(),
                         production.ident(),
@@ -335,10 +335,12 @@ impl ParserState {
                     }
                     wtr.write_fmt(format_args!("{indent}            // {production}\n"))?;
                     if production.is_start_production() {
-                        wtr.write_fmt(format_args!("{indent}            Action::Accept\n",))?;
+                        wtr.write_fmt(format_args!(
+                            "{indent}            alalr1::Action::Accept\n",
+                        ))?;
                     } else {
                         wtr.write_fmt(format_args!(
-                            "{}            Action::Reduce({})\n",
+                            "{}            alalr1::Action::Reduce({})\n",
                             indent,
                             production.ident(),
                         ))?;
@@ -348,7 +350,9 @@ impl ParserState {
                 wtr.write_fmt(format_args!("{indent}    }}\n"))?;
             }
         }
-        wtr.write_fmt(format_args!("{indent}    _ => Action::SyntaxError,\n",))?;
+        wtr.write_fmt(format_args!(
+            "{indent}    _ => alalr1::Action::SyntaxError,\n",
+        ))?;
         wtr.write_fmt(format_args!("{indent}}},\n"))?;
         Ok(())
     }
diff --git a/lalr1_lib/src/grammar.rs b/lalr1_lib/src/grammar.rs
index a60ce1e..1c51448 100644
--- a/lalr1_lib/src/grammar.rs
+++ b/lalr1_lib/src/grammar.rs
@@ -408,10 +408,10 @@ impl Grammar {
 
         wtr.write_all(b"use lalr1::OrderedSet;\n\n")?;
         wtr.write_all(b"macro_rules! ordered_set {\n")?;
-        wtr.write_all(b"    () => { OrderedSet::new() };\n")?;
+        wtr.write_all(b"    () => { lalr1::OrderedSet::new() };\n")?;
         wtr.write_all(b"    ( $( $x:expr ),* ) => {\n")?;
         wtr.write_all(b"        {\n")?;
-        wtr.write_all(b"            let mut set = OrderedSet::new();\n")?;
+        wtr.write_all(b"            let mut set = lalr1::OrderedSet::new();\n")?;
         wtr.write_all(b"            $( set.insert($x); )*\n")?;
         wtr.write_all(b"            set\n")?;
         wtr.write_all(b"        }\n")?;
@@ -629,9 +629,9 @@ impl Grammar {
     }
 
     fn write_look_ahead_set_code<W: Write>(&self, wtr: &mut W) -> io::Result<()> {
-        wtr.write_all(b"    fn look_ahead_set(state: u32) -> OrderedSet<AATerminal> {\n")?;
+        wtr.write_all(b"    fn look_ahead_set(aa_state: u32) -> OrderedSet<AATerminal> {\n")?;
         wtr.write_all(b"        use AATerminal::*;\n")?;
-        wtr.write_all(b"        match state {\n")?;
+        wtr.write_all(b"        match aa_state {\n")?;
         for parser_state in self.parser_states.iter() {
             wtr.write_fmt(format_args!(
                 "            {} => {},\n",
@@ -639,7 +639,7 @@ impl Grammar {
                 parser_state.look_ahead_set().formated_as_macro_call()
             ))?;
         }
-        wtr.write_all(b"            _ => panic!(\"illegal state: {state}\"),\n")?;
+        wtr.write_all(b"            _ => panic!(\"illegal state: {aa_state}\"),\n")?;
         wtr.write_all(b"        }\n")?;
         wtr.write_all(b"    }\n\n")?;
         Ok(())
@@ -651,7 +651,6 @@ impl Grammar {
         wtr.write_all(b"        aa_state: u32,\n")?;
         wtr.write_all(b"        aa_token: &lexan::Token<AATerminal>,\n")?;
         wtr.write_all(b"    ) -> lalr1::Action {\n")?;
-        wtr.write_all(b"        use lalr1::Action;\n")?;
         wtr.write_all(b"        use AATerminal::*;\n")?;
         wtr.write_all(b"        let aa_tag = *aa_token.tag();\n")?;
         wtr.write_all(b"        match aa_state {\n")?;
diff --git a/lalr1_lib/src/state.rs b/lalr1_lib/src/state.rs
index da16a15..3ab164a 100644
--- a/lalr1_lib/src/state.rs
+++ b/lalr1_lib/src/state.rs
@@ -285,7 +285,7 @@ impl ParserState {
         ))?;
         for (token, state) in self.0.shift_list.borrow().iter() {
             wtr.write_fmt(format_args!(
-                "{}    {} => Action::Shift({}),\n",
+                "{}    {} => lalr1::Action::Shift({}),\n",
                 indent,
                 token.name(),
                 state.ident()
@@ -296,13 +296,13 @@ impl ParserState {
                 wtr.write_fmt(format_args!("{indent}    // {production}\n"))?;
                 if production.is_start_production() {
                     wtr.write_fmt(format_args!(
-                        "{}    {} => Action::Accept,\n",
+                        "{}    {} => lalr1::Action::Accept,\n",
                         indent,
                         look_ahead_set.formated_as_or_list(),
                     ))?;
                 } else {
                     wtr.write_fmt(format_args!(
-                        "{}    {} => Action::Reduce({}),\n",
+                        "{}    {} => lalr1::Action::Reduce({}),\n",
                         indent,
                         look_ahead_set.formated_as_or_list(),
                         production.ident(),
@@ -310,7 +310,9 @@ impl ParserState {
                 }
             }
         }
-        wtr.write_fmt(format_args!("{indent}    _ => Action::SyntaxError,\n",))?;
+        wtr.write_fmt(format_args!(
+            "{indent}    _ => lalr1::Action::SyntaxError,\n",
+        ))?;
         wtr.write_fmt(format_args!("{indent}}},\n"))?;
         Ok(())
     }
-- 
2.43.0


From e9ca73bd9262d2297de8892fecf924b8b00d437d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:33 +0000
Subject: [PATCH 14/33] fix: an action that depends entirely on predicates is a
 syntax error if they all fail

---
 alalr1_lib/src/state.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/alalr1_lib/src/state.rs b/alalr1_lib/src/state.rs
index 2b008a3..1ca739c 100644
--- a/alalr1_lib/src/state.rs
+++ b/alalr1_lib/src/state.rs
@@ -292,10 +292,9 @@ impl ParserState {
             ))?;
         }
         for (productions, look_ahead_set) in reductions.reductions() {
-            if productions.len() == 1 {
-                // NB this is clumsy but first() for OrderedSet is only experimental
-                let production = productions.iter().next().expect("len() == 1");
-                debug_assert!(!production.has_predicate());
+            // NB this is clumsy but first() for OrderedSet is only experimental
+            let production = productions.iter().next().expect("len() > 0");
+            if productions.len() == 1 && !production.has_predicate() {
                 wtr.write_fmt(format_args!("{indent}    // {production}\n"))?;
                 if production.is_start_production() {
                     wtr.write_fmt(format_args!(
@@ -346,6 +345,12 @@ impl ParserState {
                         ))?;
                     }
                 }
+                if productions.iter().all(|p| p.has_predicate()) {
+                    wtr.write_fmt(format_args!("{indent}        }} else {{\n"))?;
+                    wtr.write_fmt(format_args!(
+                        "{indent}            alalr1::Action::SyntaxError\n"
+                    ))?;
+                }
                 wtr.write_fmt(format_args!("{indent}        }}\n"))?;
                 wtr.write_fmt(format_args!("{indent}    }}\n"))?;
             }
-- 
2.43.0


From 84d370b1960621b3c82924078c8b3d0a8967130f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:50 +0000
Subject: [PATCH 15/33] fix: keep comments about rules with multiple line
 predicates on one line

---
 alalr1_lib/src/production.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/alalr1_lib/src/production.rs b/alalr1_lib/src/production.rs
index d7ed8b4..82e5de4 100644
--- a/alalr1_lib/src/production.rs
+++ b/alalr1_lib/src/production.rs
@@ -225,7 +225,8 @@ impl Display for Production {
         };
         string += &format!(" #({}, {})", self.associativity(), self.precedence());
         if let Some(predicate) = &self.0.tail.0.predicate {
-            string += &format!(" ?({predicate}?)");
+            // NB this is used for (single line) comments in the generated code
+            string += &format!(" ?({}?)", predicate.replace(['\n', '\r'], " "));
         };
         write!(f, "{string}")
     }
@@ -275,7 +276,7 @@ impl Display for GrammarItemKey {
             self.production.precedence()
         );
         if let Some(predicate) = &self.production.0.tail.0.predicate {
-            string += &format!(" ?({predicate}?)");
+            string += &format!(" ?({}?)", predicate.replace(['\n', '\r'], " "));
         };
         write!(f, "{string}")
     }
-- 
2.43.0


From af8e3c7961f10bf915555f1cf7eeb84e2618bf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:50 +0000
Subject: [PATCH 16/33] fix: refuse rules whose code refers to symbols that
 aren't on their right hand side

---
 alalr1_lib/src/grammar.rs    | 12 ++++++++++++
 alalr1_lib/src/production.rs | 13 +++++++++++++
 lalr1_lib/src/grammar.rs     | 12 ++++++++++++
 lalr1_lib/src/production.rs  | 11 +++++++++++
 4 files changed, 48 insertions(+)

diff --git a/alalr1_lib/src/grammar.rs b/alalr1_lib/src/grammar.rs
index 4458970..ec9d312 100644
--- a/alalr1_lib/src/grammar.rs
+++ b/alalr1_lib/src/grammar.rs
@@ -115,6 +115,18 @@ impl Specification {
             let start_production = Production::new(0, start_symbol, start_tail);
             self.productions.push(start_production);
         }
+        if let Some(reference) = tail.invalid_rhs_reference() {
+            let location = left_hand_side
+                .first_definition()
+                .expect("should be defined");
+            self.error(
+                &location,
+                &format!(
+                    "\"{reference}\" in a rule for \"{}\" is not on its right hand side",
+                    left_hand_side.name()
+                ),
+            );
+        }
         let ident = self.productions.len();
         self.productions
             .push(Production::new(ident, left_hand_side.clone(), tail.clone()));
diff --git a/alalr1_lib/src/production.rs b/alalr1_lib/src/production.rs
index 82e5de4..940c6a8 100644
--- a/alalr1_lib/src/production.rs
+++ b/alalr1_lib/src/production.rs
@@ -55,6 +55,19 @@ impl ProductionTail {
             precedence,
         }))
     }
+
+    /// Returns the first "$<number>" that does not refer to a symbol on the right hand side
+    pub fn invalid_rhs_reference(&self) -> Option<String> {
+        for text in [&self.0.action, &self.0.predicate].into_iter().flatten() {
+            for caps in RHS_CRE.captures_iter(&text.replace("$$", "")) {
+                match usize::from_str(&caps[1]) {
+                    Ok(n) if n > 0 && n <= self.0.right_hand_side.len() => (),
+                    _ => return Some(caps[0].to_string()),
+                }
+            }
+        }
+        None
+    }
 }
 
 fn rhs_associated_precedence(symbols: &[Symbol]) -> Option<(Associativity, u16)> {
diff --git a/lalr1_lib/src/grammar.rs b/lalr1_lib/src/grammar.rs
index 1c51448..72926be 100644
--- a/lalr1_lib/src/grammar.rs
+++ b/lalr1_lib/src/grammar.rs
@@ -111,6 +111,18 @@ impl Specification {
             let start_production = Production::new(0, start_symbol, start_tail);
             self.productions.push(start_production);
         }
+        if let Some(reference) = tail.invalid_rhs_reference() {
+            let location = left_hand_side
+                .first_definition()
+                .expect("should be defined");
+            self.error(
+                &location,
+                &format!(
+                    "\"{reference}\" in a rule for \"{}\" is not on its right hand side",
+                    left_hand_side.name()
+                ),
+            );
+        }
         let ident = self.productions.len();
         self.productions
             .push(Production::new(ident, left_hand_side.clone(), tail.clone()));
diff --git a/lalr1_lib/src/production.rs b/lalr1_lib/src/production.rs
index ffc14db..0eafc21 100644
--- a/lalr1_lib/src/production.rs
+++ b/lalr1_lib/src/production.rs
@@ -51,6 +51,17 @@ impl ProductionTail {
             precedence,
         }))
     }
+
+    /// Returns the first "$<number>" that does not refer to a symbol on the right hand side
+    pub fn invalid_rhs_reference(&self) -> Option<String> {
+        for caps in RHS_CRE.captures_iter(&self.0.action.as_ref()?.replace("$$", "")) {
+            match usize::from_str(&caps[1]) {
+                Ok(n) if n > 0 && n <= self.0.right_hand_side.len() => (),
+                _ => return Some(caps[0].to_string()),
+            }
+        }
+        None
+    }
 }
 
 fn rhs_associated_precedence(symbols: &[Symbol]) -> Option<(Associativity, u16)> {
-- 
2.43.0


From f0a52871d493607ea7d9ee1d245b6d781bc64d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:56 +0000
Subject: [PATCH 17/33] fix: report (don't panic on) rules for a non terminal
 with the same name as a token

---
 alalr1_lib/src/parser.alaps | 10 ++++++----
 alalr1_lib/src/parser.rs    | 10 ++++++----
 lalr1_lib/src/parser.laps   | 10 ++++++----
 lalr1_lib/src/parser.rs     | 10 ++++++----
 4 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/alalr1_lib/src/parser.alaps b/alalr1_lib/src/parser.alaps
index c95b08a..109022d 100644
--- a/alalr1_lib/src/parser.alaps
+++ b/alalr1_lib/src/parser.alaps
@@ -288,10 +288,12 @@ ProductionRules: OptionalInjection ProductionGroup OptionalInjection
 
 ProductionGroup: ProductionGroupHead ProductionTailList "."
         !{
-            let lhs = $1.left_hand_side();
-            let tails = $2.production_tail_list();
-            for tail in tails.iter() {
-                self.new_production(lhs, tail);
+            // NB there's no left hand side if there was a problem with its name
+            if let AttributeData::LeftHandSide(lhs) = &$1 {
+                let tails = $2.production_tail_list();
+                for tail in tails.iter() {
+                    self.new_production(lhs, tail);
+                }
             }
         !}
     .
diff --git a/alalr1_lib/src/parser.rs b/alalr1_lib/src/parser.rs
index c6ce0f9..364511f 100644
--- a/alalr1_lib/src/parser.rs
+++ b/alalr1_lib/src/parser.rs
@@ -1522,10 +1522,12 @@ impl alalr1::Parser<AATerminal, AANonTerminal, AttributeData> for Specification
             42 => {
                 // ProductionGroup: ProductionGroupHead ProductionTailList "." #(NonAssoc, 0)
                 
-            let lhs = aa_rhs[0].left_hand_side();
-            let tails = aa_rhs[1].production_tail_list();
-            for tail in tails.iter() {
-                self.new_production(lhs, tail);
+            // NB there's no left hand side if there was a problem with its name
+            if let AttributeData::LeftHandSide(lhs) = &aa_rhs[0] {
+                let tails = aa_rhs[1].production_tail_list();
+                for tail in tails.iter() {
+                    self.new_production(lhs, tail);
+                }
             }
         
             }
diff --git a/lalr1_lib/src/parser.laps b/lalr1_lib/src/parser.laps
index 7a12830..7115268 100644
--- a/lalr1_lib/src/parser.laps
+++ b/lalr1_lib/src/parser.laps
@@ -292,10 +292,12 @@ ProductionRules: OptionalInjection ProductionGroup OptionalInjection
 
 ProductionGroup: ProductionGroupHead ProductionTailList "."
         !{
-            let lhs = $1.left_hand_side();
-            let tails = $2.production_tail_list();
-            for tail in tails.iter() {
-                self.new_production(lhs, tail);
+            // NB there's no left hand side if there was a problem with its name
+            if let AttributeData::LeftHandSide(lhs) = &$1 {
+                let tails = $2.production_tail_list();
+                for tail in tails.iter() {
+                    self.new_production(lhs, tail);
+                }
             }
         !}
     .
diff --git a/lalr1_lib/src/parser.rs b/lalr1_lib/src/parser.rs
index a61bd30..267c7cb 100644
--- a/lalr1_lib/src/parser.rs
+++ b/lalr1_lib/src/parser.rs
@@ -1443,10 +1443,12 @@ impl lalr1::Parser<AATerminal, AANonTerminal, AttributeData> for Specification {
             41 => {
                 // ProductionGroup: ProductionGroupHead ProductionTailList "." #(NonAssoc, 0)
                 
-            let lhs = aa_rhs[0].left_hand_side();
-            let tails = aa_rhs[1].production_tail_list();
-            for tail in tails.iter() {
-                self.new_production(lhs, tail);
+            // NB there's no left hand side if there was a problem with its name
+            if let AttributeData::LeftHandSide(lhs) = &aa_rhs[0] {
+                let tails = aa_rhs[1].production_tail_list();
+                for tail in tails.iter() {
+                    self.new_production(lhs, tail);
+                }
             }
         
             }
-- 
2.43.0


From 5724800bdd294761b6340ac2514b25df91175c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:57 +0000
Subject: [PATCH 18/33] fix: report (don't panic on) repeated tags in
 precedence declarations

---
 alalr1_lib/src/parser.alaps | 5 ++++-
 alalr1_lib/src/parser.rs    | 5 ++++-
 lalr1_lib/src/parser.laps   | 5 ++++-
 lalr1_lib/src/parser.rs     | 5 ++++-
 4 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/alalr1_lib/src/parser.alaps b/alalr1_lib/src/parser.alaps
index 109022d..c9721c4 100644
--- a/alalr1_lib/src/parser.alaps
+++ b/alalr1_lib/src/parser.alaps
@@ -275,7 +275,10 @@ Tag: Literal
                 };
                 match self.symbol_table.new_tag(name, location) {
                     Ok(tag) => $$ = AttributeData::TagOrToken(TagOrToken::from(&tag)),
-                    Err(err) => self.error(location, &err.to_string()),
+                    Err(err) => {
+                        self.error(location, &err.to_string());
+                        $$ = AttributeData::TagOrToken(TagOrToken::Invalid);
+                    }
                 }
             }
         !}
diff --git a/alalr1_lib/src/parser.rs b/alalr1_lib/src/parser.rs
index 364511f..c4bf270 100644
--- a/alalr1_lib/src/parser.rs
+++ b/alalr1_lib/src/parser.rs
@@ -1514,7 +1514,10 @@ impl alalr1::Parser<AATerminal, AANonTerminal, AttributeData> for Specification
                 };
                 match self.symbol_table.new_tag(name, location) {
                     Ok(tag) => aa_lhs = AttributeData::TagOrToken(TagOrToken::from(&tag)),
-                    Err(err) => self.error(location, &err.to_string()),
+                    Err(err) => {
+                        self.error(location, &err.to_string());
+                        aa_lhs = AttributeData::TagOrToken(TagOrToken::Invalid);
+                    }
                 }
             }
         
diff --git a/lalr1_lib/src/parser.laps b/lalr1_lib/src/parser.laps
index 7115268..5cafb3d 100644
--- a/lalr1_lib/src/parser.laps
+++ b/lalr1_lib/src/parser.laps
@@ -279,7 +279,10 @@ Tag: Literal
                 };
                 match self.symbol_table.new_tag(name, location) {
                     Ok(tag) => $$ = AttributeData::TagOrToken(TagOrToken::from(&tag)),
-                    Err(err) => self.error(location, &err.to_string()),
+                    Err(err) => {
+                        self.error(location, &err.to_string());
+                        $$ = AttributeData::TagOrToken(TagOrToken::Invalid);
+                    }
                 }
             }
         !}
diff --git a/lalr1_lib/src/parser.rs b/lalr1_lib/src/parser.rs
index 267c7cb..27dcbee 100644
--- a/lalr1_lib/src/parser.rs
+++ b/lalr1_lib/src/parser.rs
@@ -1435,7 +1435,10 @@ impl lalr1::Parser<AATerminal, AANonTerminal, AttributeData> for Specification {
                 };
                 match self.symbol_table.new_tag(name, location) {
                     Ok(tag) => aa_lhs = AttributeData::TagOrToken(TagOrToken::from(&tag)),
-                    Err(err) => self.error(location, &err.to_string()),
+                    Err(err) => {
+                        self.error(location, &err.to_string());
+                        aa_lhs = AttributeData::TagOrToken(TagOrToken::Invalid);
+                    }
                 }
             }
         
-- 
2.43.0


From 122794007c62639f105070d3ef7c3f5618109b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:23 +0000
Subject: [PATCH 19/33] fix: refuse token definitions that the generated
 lexical analyzer would choke on

---
 alalr1_lib/src/symbol.rs | 17 +++++++++++++++++
 lalr1_lib/src/symbol.rs  | 17 +++++++++++++++++
 2 files changed, 34 insertions(+)

diff --git a/alalr1_lib/src/symbol.rs b/alalr1_lib/src/symbol.rs
index 1ebb75d..f271133 100644
--- a/alalr1_lib/src/symbol.rs
+++ b/alalr1_lib/src/symbol.rs
@@ -71,6 +71,7 @@ pub enum Error {
     DuplicateTokenDefinition(Token),
     ConflictsWithToken(Token),
     DuplicateSkipRule(String),
+    EmptyLiteral(Token),
 }
 
 impl fmt::Display for Error {
@@ -111,6 +112,9 @@ impl fmt::Display for Error {
             Error::DuplicateSkipRule(string) => {
                 write!(f, "Skip rule \"{string}\" already defined.",)
             }
+            Error::EmptyLiteral(token) => {
+                write!(f, "Token \"{}\" has an empty definition", token.name())
+            }
         }
     }
 }
@@ -192,6 +196,11 @@ impl SymbolTable {
             Err(Error::DuplicateToken(other))
         } else if let Some(other) = self.literal_tokens.insert(text.to_string(), token.clone()) {
             Err(Error::DuplicateTokenDefinition(other))
+        } else if let Some(other) = self.regex_tokens.get(&text[1..text.len() - 1]) {
+            Err(Error::DuplicateTokenDefinition(other.clone()))
+        } else if text.len() == 2 {
+            // i.e. just the quotes
+            Err(Error::EmptyLiteral(token))
         } else {
             Ok(token)
         }
@@ -208,6 +217,8 @@ impl SymbolTable {
             Err(Error::DuplicateToken(other))
         } else if let Some(other) = self.regex_tokens.insert(text.to_string(), token.clone()) {
             Err(Error::DuplicateTokenDefinition(other))
+        } else if let Some(other) = self.literal_tokens.get(&format!("\"{text}\"")) {
+            Err(Error::DuplicateTokenDefinition(other.clone()))
         } else {
             Ok(token)
         }
@@ -295,6 +306,12 @@ impl SymbolTable {
     pub fn add_skip_rule(&mut self, skip_rule: &String) -> Result<(), Error> {
         if self.skip_rules.contains(skip_rule) {
             Err(Error::DuplicateSkipRule(skip_rule.to_string()))
+        } else if let Some(token) = self
+            .regex_tokens
+            .get(skip_rule)
+            .or_else(|| self.literal_tokens.get(&format!("\"{skip_rule}\"")))
+        {
+            Err(Error::DuplicateTokenDefinition(token.clone()))
         } else {
             self.skip_rules.push(skip_rule.to_string());
             Ok(())
diff --git a/lalr1_lib/src/symbol.rs b/lalr1_lib/src/symbol.rs
index ed3d639..40c9364 100644
--- a/lalr1_lib/src/symbol.rs
+++ b/lalr1_lib/src/symbol.rs
@@ -71,6 +71,7 @@ pub enum Error {
     DuplicateTokenDefinition(Token),
     ConflictsWithToken(Token),
     DuplicateSkipRule(String),
+    EmptyLiteral(Token),
 }
 
 impl fmt::Display for Error {
@@ -111,6 +112,9 @@ impl fmt::Display for Error {
             Error::DuplicateSkipRule(string) => {
                 write!(f, "Skip rule \"{string}\" already defined.",)
             }
+            Error::EmptyLiteral(token) => {
+                write!(f, "Token \"{}\" has an empty definition", token.name())
+            }
         }
     }
 }
@@ -192,6 +196,11 @@ impl SymbolTable {
             Err(Error::DuplicateToken(other))
         } else if let Some(other) = self.literal_tokens.insert(text.to_string(), token.clone()) {
             Err(Error::DuplicateTokenDefinition(other))
+        } else if let Some(other) = self.regex_tokens.get(&text[1..text.len() - 1]) {
+            Err(Error::DuplicateTokenDefinition(other.clone()))
+        } else if text.len() == 2 {
+            // i.e. just the quotes
+            Err(Error::EmptyLiteral(token))
         } else {
             Ok(token)
         }
@@ -208,6 +217,8 @@ impl SymbolTable {
             Err(Error::DuplicateToken(other))
         } else if let Some(other) = self.regex_tokens.insert(text.to_string(), token.clone()) {
             Err(Error::DuplicateTokenDefinition(other))
+        } else if let Some(other) = self.literal_tokens.get(&format!("\"{text}\"")) {
+            Err(Error::DuplicateTokenDefinition(other.clone()))
         } else {
             Ok(token)
         }
@@ -295,6 +306,12 @@ impl SymbolTable {
     pub fn add_skip_rule(&mut self, skip_rule: &String) -> Result<(), Error> {
         if self.skip_rules.contains(skip_rule) {
             Err(Error::DuplicateSkipRule(skip_rule.to_string()))
+        } else if let Some(token) = self
+            .regex_tokens
+            .get(skip_rule)
+            .or_else(|| self.literal_tokens.get(&format!("\"{skip_rule}\"")))
+        {
+            Err(Error::DuplicateTokenDefinition(token.clone()))
         } else {
             self.skip_rules.push(skip_rule.to_string());
             Ok(())
-- 
2.43.0


From 70c248a85000524d55afd0cffc128c6dea165cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:25 +0000
Subject: [PATCH 20/33] fix: report specification files that inject themselves
 instead of looping

---
 alalr1_lib/src/grammar.rs   | 4 ++++
 alalr1_lib/src/parser.alaps | 4 ++++
 alalr1_lib/src/parser.rs    | 4 ++++
 lalr1_lib/src/grammar.rs    | 4 ++++
 lalr1_lib/src/parser.laps   | 4 ++++
 lalr1_lib/src/parser.rs     | 4 ++++
 6 files changed, 24 insertions(+)

diff --git a/alalr1_lib/src/grammar.rs b/alalr1_lib/src/grammar.rs
index ec9d312..6307757 100644
--- a/alalr1_lib/src/grammar.rs
+++ b/alalr1_lib/src/grammar.rs
@@ -45,6 +45,7 @@ pub struct Specification {
     pub target_type: String,
     pub error_count: u32,
     pub warning_count: u32,
+    pub injection_count: u32,
     pub expected_rr_conflicts: u32,
     pub expected_sr_conflicts: u32,
 }
@@ -86,6 +87,9 @@ impl Specification {
         }
     }
 
+    /// More injections than any specification needs i.e. a file is injecting itself
+    pub const MAX_INJECTIONS: u32 = 4096;
+
     pub fn is_allowable_name(name: &str) -> bool {
         !(name.starts_with("aa") || name.starts_with("AA"))
     }
diff --git a/alalr1_lib/src/parser.alaps b/alalr1_lib/src/parser.alaps
index c9721c4..81c48e7 100644
--- a/alalr1_lib/src/parser.alaps
+++ b/alalr1_lib/src/parser.alaps
@@ -58,7 +58,11 @@ InjectionHead: "%inject" Literal
         !{
             let (text, location) = $2.text_and_location();
             let file_path = text.trim_matches('"');
+            self.injection_count += 1;
             match File::open(file_path) {
+                Ok(_) if self.injection_count > Self::MAX_INJECTIONS => {
+                    self.error(location, "Injecting: too many injections (is it recursive?)");
+                }
                 Ok(mut file) => {
                     let mut text = String::new();
                     if let Err(err) = file.read_to_string(&mut text) {
diff --git a/alalr1_lib/src/parser.rs b/alalr1_lib/src/parser.rs
index c4bf270..c1a5a02 100644
--- a/alalr1_lib/src/parser.rs
+++ b/alalr1_lib/src/parser.rs
@@ -1316,7 +1316,11 @@ impl alalr1::Parser<AATerminal, AANonTerminal, AttributeData> for Specification
                 
             let (text, location) = aa_rhs[1].text_and_location();
             let file_path = text.trim_matches('"');
+            self.injection_count += 1;
             match File::open(file_path) {
+                Ok(_) if self.injection_count > Self::MAX_INJECTIONS => {
+                    self.error(location, "Injecting: too many injections (is it recursive?)");
+                }
                 Ok(mut file) => {
                     let mut text = String::new();
                     if let Err(err) = file.read_to_string(&mut text) {
diff --git a/lalr1_lib/src/grammar.rs b/lalr1_lib/src/grammar.rs
index 72926be..0a43d79 100644
--- a/lalr1_lib/src/grammar.rs
+++ b/lalr1_lib/src/grammar.rs
@@ -41,6 +41,7 @@ pub struct Specification {
     pub target_type: String,
     pub error_count: u32,
     pub warning_count: u32,
+    pub injection_count: u32,
     pub expected_rr_conflicts: u32,
     pub expected_sr_conflicts: u32,
 }
@@ -82,6 +83,9 @@ impl Specification {
         }
     }
 
+    /// More injections than any specification needs i.e. a file is injecting itself
+    pub const MAX_INJECTIONS: u32 = 4096;
+
     pub fn is_allowable_name(name: &str) -> bool {
         !(name.starts_with("aa") || name.starts_with("AA"))
     }
diff --git a/lalr1_lib/src/parser.laps b/lalr1_lib/src/parser.laps
index 5cafb3d..7ada813 100644
--- a/lalr1_lib/src/parser.laps
+++ b/lalr1_lib/src/parser.laps
@@ -59,7 +59,11 @@ InjectionHead: "%inject" Literal
         !{
             let (text, location) = $2.text_and_location();
             let file_path = text.trim_matches('"');
+            self.injection_count += 1;
             match File::open(file_path) {
+                Ok(_) if self.injection_count > Self::MAX_INJECTIONS => {
+                    self.error(location, "Injecting: too many injections (is it recursive?)");
+                }
                 Ok(mut file) => {
                     let mut text = String::new();
                     if let Err(err) = file.read_to_string(&mut text) {
diff --git a/lalr1_lib/src/parser.rs b/lalr1_lib/src/parser.rs
index 27dcbee..1cd961a 100644
--- a/lalr1_lib/src/parser.rs
+++ b/lalr1_lib/src/parser.rs
@@ -1232,7 +1232,11 @@ impl lalr1::Parser<AATerminal, AANonTerminal, AttributeData> for Specification {
                 
             let (text, location) = aa_rhs[1].text_and_location();
             let file_path = text.trim_matches('"');
+            self.injection_count += 1;
             match File::open(file_path) {
+                Ok(_) if self.injection_count > Self::MAX_INJECTIONS => {
+                    self.error(location, "Injecting: too many injections (is it recursive?)");
+                }
                 Ok(mut file) => {
                     let mut text = String::new();
                     if let Err(err) = file.read_to_string(&mut text) {
-- 
2.43.0


From 01beeab681e76ece2a4d865b0e6ce0b47b4592f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:53 +0000
Subject: [PATCH 21/33] fix: only change the last extension of a file's name

---
 alalr1_gen/src/main.rs | 16 +++-------------
 lalr1_gen/src/main.rs  | 16 +++-------------
 2 files changed, 6 insertions(+), 26 deletions(-)

diff --git a/alalr1_gen/src/main.rs b/alalr1_gen/src/main.rs
index 1f8df60..e4d4d84 100644
--- a/alalr1_gen/src/main.rs
+++ b/alalr1_gen/src/main.rs
@@ -6,21 +6,11 @@ use std::{
     convert::TryFrom,
     fs,
     io::prelude::*,
-    path::{Path, PathBuf},
+    path::PathBuf,
 };
 
 use alalr1_lib::grammar;
 
-fn with_changed_extension(path: &Path, new_extension: &str) -> PathBuf {
-    let mut new_path = PathBuf::new();
-    if let Some(dir) = path.parent() {
-        new_path.push(dir);
-    };
-    new_path.push(path.file_stem().unwrap());
-    new_path.set_extension(new_extension);
-    new_path
-}
-
 #[derive(Debug, StructOpt)]
 #[structopt(
     name = "alalr1_gen",
@@ -50,7 +40,7 @@ fn main() {
     let output_path = if let Some(output_path) = cl_options.output {
         output_path
     } else {
-        with_changed_extension(&cl_options.specification, "rs")
+        cl_options.specification.with_extension("rs")
     };
     if output_path.exists() && !cl_options.force {
         eprintln!(
@@ -122,7 +112,7 @@ fn main() {
         std::process::exit(6);
     }
 
-    let description_file = with_changed_extension(&output_path, "states");
+    let description_file = output_path.with_extension("states");
     if let Err(err) = grammar.write_description(&description_file) {
         eprintln!(
             "{}: problems writing file: {:?}.",
diff --git a/lalr1_gen/src/main.rs b/lalr1_gen/src/main.rs
index 11a1d2b..8805138 100644
--- a/lalr1_gen/src/main.rs
+++ b/lalr1_gen/src/main.rs
@@ -7,21 +7,11 @@ use std::{
     convert::TryFrom,
     fs,
     io::prelude::*,
-    path::{Path, PathBuf},
+    path::PathBuf,
 };
 
 use lalr1_lib::grammar;
 
-fn with_changed_extension(path: &Path, new_extension: &str) -> PathBuf {
-    let mut new_path = PathBuf::new();
-    if let Some(dir) = path.parent() {
-        new_path.push(dir);
-    };
-    new_path.push(path.file_stem().unwrap());
-    new_path.set_extension(new_extension);
-    new_path
-}
-
 #[derive(Debug, StructOpt)]
 #[structopt(
     name = "lalr1_gen",
@@ -51,7 +41,7 @@ fn main() {
     let output_path = if let Some(output_path) = cl_options.output {
         output_path
     } else {
-        with_changed_extension(&cl_options.specification, "rs")
+        cl_options.specification.with_extension("rs")
     };
     if output_path.exists() && !cl_options.force {
         eprintln!(
@@ -123,7 +113,7 @@ fn main() {
         std::process::exit(6);
     }
 
-    let description_file = with_changed_extension(&output_path, "states");
+    let description_file = output_path.with_extension("states");
     if let Err(err) = grammar.write_description(&description_file) {
         eprintln!(
             "{}: problems writing file: {:?}.",
-- 
2.43.0


From 2128d94ec9b860542d8265e8962adfd6d422b0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:53 +0000
Subject: [PATCH 22/33] fix: don't overwrite an existing states file unless
 forced

---
 alalr1_gen/src/main.rs | 15 +++++++--------
 lalr1_gen/src/main.rs  | 15 +++++++--------
 2 files changed, 14 insertions(+), 16 deletions(-)

diff --git a/alalr1_gen/src/main.rs b/alalr1_gen/src/main.rs
index e4d4d84..f417a63 100644
--- a/alalr1_gen/src/main.rs
+++ b/alalr1_gen/src/main.rs
@@ -42,12 +42,12 @@ fn main() {
     } else {
         cl_options.specification.with_extension("rs")
     };
-    if output_path.exists() && !cl_options.force {
-        eprintln!(
-            "{}: output file already exists",
-            output_path.to_string_lossy()
-        );
-        std::process::exit(1);
+    let description_file = output_path.with_extension("states");
+    for path in [&output_path, &description_file] {
+        if path.exists() && !cl_options.force {
+            eprintln!("{}: output file already exists", path.to_string_lossy());
+            std::process::exit(1);
+        }
     }
     let mut file = match fs::File::open(&cl_options.specification) {
         Ok(file) => file,
@@ -112,11 +112,10 @@ fn main() {
         std::process::exit(6);
     }
 
-    let description_file = output_path.with_extension("states");
     if let Err(err) = grammar.write_description(&description_file) {
         eprintln!(
             "{}: problems writing file: {:?}.",
-            output_path.to_string_lossy(),
+            description_file.to_string_lossy(),
             err
         );
         std::process::exit(7);
diff --git a/lalr1_gen/src/main.rs b/lalr1_gen/src/main.rs
index 8805138..9e2515f 100644
--- a/lalr1_gen/src/main.rs
+++ b/lalr1_gen/src/main.rs
@@ -43,12 +43,12 @@ fn main() {
     } else {
         cl_options.specification.with_extension("rs")
     };
-    if output_path.exists() && !cl_options.force {
-        eprintln!(
-            "{}: output file already exists",
-            output_path.to_string_lossy()
-        );
-        std::process::exit(1);
+    let description_file = output_path.with_extension("states");
+    for path in [&output_path, &description_file] {
+        if path.exists() && !cl_options.force {
+            eprintln!("{}: output file already exists", path.to_string_lossy());
+            std::process::exit(1);
+        }
     }
     let mut file = match fs::File::open(&cl_options.specification) {
         Ok(file) => file,
@@ -113,11 +113,10 @@ fn main() {
         std::process::exit(6);
     }
 
-    let description_file = output_path.with_extension("states");
     if let Err(err) = grammar.write_description(&description_file) {
         eprintln!(
             "{}: problems writing file: {:?}.",
-            output_path.to_string_lossy(),
+            description_file.to_string_lossy(),
             err
         );
         std::process::exit(7);
-- 
2.43.0


From ef187abf63e9dd29c76203a815efcb4c4b5c18f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:54 +0000
Subject: [PATCH 23/33] fix: refuse to write a parser over its specification or
 description

---
 alalr1_gen/src/main.rs | 16 ++++++++++------
 lalr1_gen/src/main.rs  | 16 ++++++++++------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/alalr1_gen/src/main.rs b/alalr1_gen/src/main.rs
index f417a63..ea6538e 100644
--- a/alalr1_gen/src/main.rs
+++ b/alalr1_gen/src/main.rs
@@ -2,12 +2,7 @@
 use clap::crate_authors;
 use structopt::StructOpt;
 
-use std::{
-    convert::TryFrom,
-    fs,
-    io::prelude::*,
-    path::PathBuf,
-};
+use std::{convert::TryFrom, fs, io::prelude::*, path::PathBuf};
 
 use alalr1_lib::grammar;
 
@@ -43,6 +38,15 @@ fn main() {
         cl_options.specification.with_extension("rs")
     };
     let description_file = output_path.with_extension("states");
+    if output_path == description_file
+        || [&output_path, &description_file].contains(&&cl_options.specification)
+    {
+        eprintln!(
+            "{}: the specification, the parser and its description must be different files",
+            output_path.to_string_lossy()
+        );
+        std::process::exit(1);
+    }
     for path in [&output_path, &description_file] {
         if path.exists() && !cl_options.force {
             eprintln!("{}: output file already exists", path.to_string_lossy());
diff --git a/lalr1_gen/src/main.rs b/lalr1_gen/src/main.rs
index 9e2515f..0aebfb2 100644
--- a/lalr1_gen/src/main.rs
+++ b/lalr1_gen/src/main.rs
@@ -3,12 +3,7 @@
 use clap::crate_authors;
 use structopt::StructOpt;
 
-use std::{
-    convert::TryFrom,
-    fs,
-    io::prelude::*,
-    path::PathBuf,
-};
+use std::{convert::TryFrom, fs, io::prelude::*, path::PathBuf};
 
 use lalr1_lib::grammar;
 
@@ -44,6 +39,15 @@ fn main() {
         cl_options.specification.with_extension("rs")
     };
     let description_file = output_path.with_extension("states");
+    if output_path == description_file
+        || [&output_path, &description_file].contains(&&cl_options.specification)
+    {
+        eprintln!(
+            "{}: the specification, the parser and its description must be different files",
+            output_path.to_string_lossy()
+        );
+        std::process::exit(1);
+    }
     for path in [&output_path, &description_file] {
         if path.exists() && !cl_options.force {
             eprintln!("{}: output file already exists", path.to_string_lossy());
-- 
2.43.0


From 47a695edd43a0327b14271b86fa429cb3e1ad81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:46 +0000
Subject: [PATCH 24/33] fix: inject a file's text after the injection's full
 stop instead of before it

---
 alalr1_lib/src/parser.alaps | 14 +++++++++-----
 alalr1_lib/src/parser.rs    |  8 +++++++-
 lalr1_lib/src/parser.laps   | 14 +++++++++-----
 lalr1_lib/src/parser.rs     |  8 +++++++-
 4 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/alalr1_lib/src/parser.alaps b/alalr1_lib/src/parser.alaps
index 81c48e7..cce3af4 100644
--- a/alalr1_lib/src/parser.alaps
+++ b/alalr1_lib/src/parser.alaps
@@ -54,9 +54,17 @@ Specification: Preamble Configuration "%%" Definitions "%%" ProductionRules.
 
 OptionalInjection: !{ // no injection so nothing to do !} | Injection .
 
+// NB The file isn't injected until the "." has been read so that its text
+// comes ahead of whatever follows the "."
 InjectionHead: "%inject" Literal
         !{
-            let (text, location) = $2.text_and_location();
+            $$ = $2.clone();
+        !}
+    .
+
+Injection: InjectionHead "."
+        !{
+            let (text, location) = $1.text_and_location();
             let file_path = text.trim_matches('"');
             self.injection_count += 1;
             match File::open(file_path) {
@@ -78,10 +86,6 @@ InjectionHead: "%inject" Literal
         !}
     .
 
-// NB This (including the split) is needed to allow for "look ahead" mechanism.
-// It ensures injection occurs before any meaningful tokens are read
-Injection: InjectionHead "." .
-
 // Preamble
 Preamble:
         !{
diff --git a/alalr1_lib/src/parser.rs b/alalr1_lib/src/parser.rs
index c1a5a02..d5b5d19 100644
--- a/alalr1_lib/src/parser.rs
+++ b/alalr1_lib/src/parser.rs
@@ -1314,7 +1314,13 @@ impl alalr1::Parser<AATerminal, AANonTerminal, AttributeData> for Specification
             4 => {
                 // InjectionHead: "%inject" Literal #(Right, 1)
                 
-            let (text, location) = aa_rhs[1].text_and_location();
+            aa_lhs = aa_rhs[1].clone();
+        
+            }
+            5 => {
+                // Injection: InjectionHead "." #(NonAssoc, 0)
+                
+            let (text, location) = aa_rhs[0].text_and_location();
             let file_path = text.trim_matches('"');
             self.injection_count += 1;
             match File::open(file_path) {
diff --git a/lalr1_lib/src/parser.laps b/lalr1_lib/src/parser.laps
index 7ada813..eea229b 100644
--- a/lalr1_lib/src/parser.laps
+++ b/lalr1_lib/src/parser.laps
@@ -55,9 +55,17 @@ Specification: Preamble Configuration "%%" Definitions "%%" ProductionRules.
 
 OptionalInjection: !{ // no injection so nothing to do !} | Injection .
 
+// NB The file isn't injected until the "." has been read so that its text
+// comes ahead of whatever follows the "."
 InjectionHead: "%inject" Literal
         !{
-            let (text, location) = $2.text_and_location();
+            $$ = $2.clone();
+        !}
+    .
+
+Injection: InjectionHead "."
+        !{
+            let (text, location) = $1.text_and_location();
             let file_path = text.trim_matches('"');
             self.injection_count += 1;
             match File::open(file_path) {
@@ -82,10 +90,6 @@ InjectionHead: "%inject" Literal
         !}
     .
 
-// NB This (including the split) is needed to allow for "look ahead" mechanism.
-// It ensures injection occurs before any meaningful tokens are read
-Injection: InjectionHead "." .
-
 // Preamble
 Preamble:
         !{
diff --git a/lalr1_lib/src/parser.rs b/lalr1_lib/src/parser.rs
index 1cd961a..0f95d80 100644
--- a/lalr1_lib/src/parser.rs
+++ b/lalr1_lib/src/parser.rs
@@ -1230,7 +1230,13 @@ impl lalr1::Parser<AATerminal, AANonTerminal, AttributeData> for Specification {
             4 => {
                 // InjectionHead: "%inject" Literal #(Right, 1)
                 
-            let (text, location) = aa_rhs[1].text_and_location();
+            aa_lhs = aa_rhs[1].clone();
+        
+            }
+            5 => {
+                // Injection: InjectionHead "." #(NonAssoc, 0)
+                
+            let (text, location) = aa_rhs[0].text_and_location();
             let file_path = text.trim_matches('"');
             self.injection_count += 1;
             match File::open(file_path) {
-- 
2.43.0


From f3565d48222fa1ed548f717997cef73d7aae30cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:22 +0000
Subject: [PATCH 25/33] fix: refuse $$<number> in predicates instead of
 panicking

---
 alalr1_lib/src/production.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/alalr1_lib/src/production.rs b/alalr1_lib/src/production.rs
index 940c6a8..d5afa2f 100644
--- a/alalr1_lib/src/production.rs
+++ b/alalr1_lib/src/production.rs
@@ -58,8 +58,10 @@ impl ProductionTail {
 
     /// Returns the first "$<number>" that does not refer to a symbol on the right hand side
     pub fn invalid_rhs_reference(&self) -> Option<String> {
-        for text in [&self.0.action, &self.0.predicate].into_iter().flatten() {
-            for caps in RHS_CRE.captures_iter(&text.replace("$$", "")) {
+        // "$$" is the left hand side in an action but means nothing in a predicate
+        let action = self.0.action.as_ref().map(|text| text.replace("$$", ""));
+        for text in [&action, &self.0.predicate].into_iter().flatten() {
+            for caps in RHS_CRE.captures_iter(text) {
                 match usize::from_str(&caps[1]) {
                     Ok(n) if n > 0 && n <= self.0.right_hand_side.len() => (),
                     _ => return Some(caps[0].to_string()),
-- 
2.43.0


From 0074963dd06d878cbaa8e856ff190057cdc65669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:49 +0000
Subject: [PATCH 26/33] fix: escape characters that the compiler refuses in
 literals and comments

---
 alalr1_lib/src/grammar.rs    | 12 ++++++++++--
 alalr1_lib/src/production.rs |  6 ++++++
 alalr1_lib/src/state.rs      |  4 ++--
 lalr1_lib/src/grammar.rs     | 12 ++++++++++--
 lalr1_lib/src/production.rs  |  6 ++++++
 lalr1_lib/src/state.rs       |  2 +-
 6 files changed, 35 insertions(+), 7 deletions(-)

diff --git a/alalr1_lib/src/grammar.rs b/alalr1_lib/src/grammar.rs
index 6307757..067d45a 100644
--- a/alalr1_lib/src/grammar.rs
+++ b/alalr1_lib/src/grammar.rs
@@ -27,8 +27,16 @@ pub fn report_warning(location: &lexan::Location, what: &str) {
     writeln!(stderr(), "{location}: Warning: {what}.").expect("what?");
 }
 
-/// Returns the Rust code for a raw string literal whose value is `text`
+/// Is `c` one of the characters that the Rust compiler refuses in literals and comments?
+pub fn is_text_direction_control(c: char) -> bool {
+    matches!(c, '\u{202A}'..='\u{202E}' | '\u{2066}'..='\u{2069}')
+}
+
+/// Returns the Rust code for a string literal (raw if possible) whose value is `text`
 fn raw_string_literal(text: &str) -> String {
+    if text.contains(is_text_direction_control) {
+        return format!("\"{}\"", text.escape_unicode());
+    }
     let mut hashes = "###".to_string();
     while text.contains(&format!("\"{hashes}")) {
         hashes.push('#');
@@ -222,7 +230,7 @@ impl Specification {
         for production in self.productions.iter() {
             if let Some(action_code) = production.expanded_action() {
                 wtr.write_fmt(format_args!("            {} => {{\n", production.ident()))?;
-                wtr.write_fmt(format_args!("                // {production}\n"))?;
+                wtr.write_fmt(format_args!("                // {}\n", production.comment()))?;
                 wtr.write_fmt(format_args!("                {action_code}\n"))?;
                 wtr.write_all(b"            }\n")?;
             }
diff --git a/alalr1_lib/src/production.rs b/alalr1_lib/src/production.rs
index d5afa2f..f5e8542 100644
--- a/alalr1_lib/src/production.rs
+++ b/alalr1_lib/src/production.rs
@@ -1,5 +1,6 @@
 // Copyright (c) 2026 Peter Williams <pwil3058@bigpond.net.au> <pwil3058@gmail.com>.
 
+use crate::grammar::is_text_direction_control;
 use crate::symbol::terminal::Token;
 use crate::symbol::{Associativity, Symbol, non_terminal::NonTerminal, terminal::TokenSet};
 
@@ -180,6 +181,11 @@ impl Production {
         }
     }
 
+    /// Returns a description fit for a comment in the generated code
+    pub fn comment(&self) -> String {
+        self.to_string().replace(is_text_direction_control, "?")
+    }
+
     pub fn expanded_action(&self) -> Option<String> {
         // TODO: move action expansion to RHS creation
         if let Some(action) = &self.0.tail.0.action {
diff --git a/alalr1_lib/src/state.rs b/alalr1_lib/src/state.rs
index 1ca739c..abd32df 100644
--- a/alalr1_lib/src/state.rs
+++ b/alalr1_lib/src/state.rs
@@ -295,7 +295,7 @@ impl ParserState {
             // NB this is clumsy but first() for OrderedSet is only experimental
             let production = productions.iter().next().expect("len() > 0");
             if productions.len() == 1 && !production.has_predicate() {
-                wtr.write_fmt(format_args!("{indent}    // {production}\n"))?;
+                wtr.write_fmt(format_args!("{indent}    // {}\n", production.comment()))?;
                 if production.is_start_production() {
                     wtr.write_fmt(format_args!(
                         "{}    {} => alalr1::Action::Accept,\n",
@@ -332,7 +332,7 @@ impl ParserState {
                     } else {
                         wtr.write_fmt(format_args!("{indent}        }} else {{\n",))?;
                     }
-                    wtr.write_fmt(format_args!("{indent}            // {production}\n"))?;
+                    wtr.write_fmt(format_args!("{indent}            // {}\n", production.comment()))?;
                     if production.is_start_production() {
                         wtr.write_fmt(format_args!(
                             "{indent}            alalr1::Action::Accept\n",
diff --git a/lalr1_lib/src/grammar.rs b/lalr1_lib/src/grammar.rs
index 0a43d79..fb1b38b 100644
--- a/lalr1_lib/src/grammar.rs
+++ b/lalr1_lib/src/grammar.rs
@@ -23,8 +23,16 @@ pub fn report_warning(location: &lexan::Location, what: &str) {
     writeln!(stderr(), "{location}: Warning: {what}.").expect("what?");
 }
 
-/// Returns the Rust code for a raw string literal whose value is `text`
+/// Is `c` one of the characters that the Rust compiler refuses in literals and comments?
+pub fn is_text_direction_control(c: char) -> bool {
+    matches!(c, '\u{202A}'..='\u{202E}' | '\u{2066}'..='\u{2069}')
+}
+
+/// Returns the Rust code for a string literal (raw if possible) whose value is `text`
 fn raw_string_literal(text: &str) -> String {
+    if text.contains(is_text_direction_control) {
+        return format!("\"{}\"", text.escape_unicode());
+    }
     let mut hashes = "###".to_string();
     while text.contains(&format!("\"{hashes}")) {
         hashes.push('#');
@@ -218,7 +226,7 @@ impl Specification {
         for production in self.productions.iter() {
             if let Some(action_code) = production.expanded_action() {
                 wtr.write_fmt(format_args!("            {} => {{\n", production.ident()))?;
-                wtr.write_fmt(format_args!("                // {production}\n"))?;
+                wtr.write_fmt(format_args!("                // {}\n", production.comment()))?;
                 wtr.write_fmt(format_args!("                {action_code}\n"))?;
                 wtr.write_all(b"            }\n")?;
             }
diff --git a/lalr1_lib/src/production.rs b/lalr1_lib/src/production.rs
index 0eafc21..e41950e 100644
--- a/lalr1_lib/src/production.rs
+++ b/lalr1_lib/src/production.rs
@@ -1,5 +1,6 @@
 // Copyright (c) 2026 Peter Williams <pwil3058@bigpond.net.au> <pwil3058@gmail.com>.
 
+use crate::grammar::is_text_direction_control;
 use crate::symbol::terminal::Token;
 use crate::symbol::{Associativity, Symbol, non_terminal::NonTerminal, terminal::TokenSet};
 
@@ -150,6 +151,11 @@ impl Production {
         self.0.tail.0.precedence
     }
 
+    /// Returns a description fit for a comment in the generated code
+    pub fn comment(&self) -> String {
+        self.to_string().replace(is_text_direction_control, "?")
+    }
+
     pub fn expanded_action(&self) -> Option<String> {
         // TODO: move action expansion to RHS creation
         if let Some(action) = &self.0.tail.0.action {
diff --git a/lalr1_lib/src/state.rs b/lalr1_lib/src/state.rs
index 3ab164a..35b3b8b 100644
--- a/lalr1_lib/src/state.rs
+++ b/lalr1_lib/src/state.rs
@@ -293,7 +293,7 @@ impl ParserState {
         }
         for (productions, look_ahead_set) in reductions.reductions() {
             for production in productions {
-                wtr.write_fmt(format_args!("{indent}    // {production}\n"))?;
+                wtr.write_fmt(format_args!("{indent}    // {}\n", production.comment()))?;
                 if production.is_start_production() {
                     wtr.write_fmt(format_args!(
                         "{}    {} => lalr1::Action::Accept,\n",
-- 
2.43.0


From 5eb9550b6b2390440eea9fb11dbd49ae5e04f620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:20 +0000
Subject: [PATCH 27/33] fix: allow tokens to be named set

---
 alalr1_lib/src/grammar.rs | 6 +++---
 lalr1_lib/src/grammar.rs  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/alalr1_lib/src/grammar.rs b/alalr1_lib/src/grammar.rs
index 067d45a..036ea10 100644
--- a/alalr1_lib/src/grammar.rs
+++ b/alalr1_lib/src/grammar.rs
@@ -439,9 +439,9 @@ impl Grammar {
         wtr.write_all(b"    () => { lalr1::OrderedSet::new() };\n")?;
         wtr.write_all(b"    ( $( $x:expr ),* ) => {\n")?;
         wtr.write_all(b"        {\n")?;
-        wtr.write_all(b"            let mut set = lalr1::OrderedSet::new();\n")?;
-        wtr.write_all(b"            $( set.insert($x); )*\n")?;
-        wtr.write_all(b"            set\n")?;
+        wtr.write_all(b"            let mut aa_set = lalr1::OrderedSet::new();\n")?;
+        wtr.write_all(b"            $( aa_set.insert($x); )*\n")?;
+        wtr.write_all(b"            aa_set\n")?;
         wtr.write_all(b"        }\n")?;
         wtr.write_all(b"    };\n")?;
         wtr.write_all(b"    ( $( $x:expr ),+ , ) => {\n")?;
diff --git a/lalr1_lib/src/grammar.rs b/lalr1_lib/src/grammar.rs
index fb1b38b..4012397 100644
--- a/lalr1_lib/src/grammar.rs
+++ b/lalr1_lib/src/grammar.rs
@@ -435,9 +435,9 @@ impl Grammar {
         wtr.write_all(b"    () => { lalr1::OrderedSet::new() };\n")?;
         wtr.write_all(b"    ( $( $x:expr ),* ) => {\n")?;
         wtr.write_all(b"        {\n")?;
-        wtr.write_all(b"            let mut set = lalr1::OrderedSet::new();\n")?;
-        wtr.write_all(b"            $( set.insert($x); )*\n")?;
-        wtr.write_all(b"            set\n")?;
+        wtr.write_all(b"            let mut aa_set = lalr1::OrderedSet::new();\n")?;
+        wtr.write_all(b"            $( aa_set.insert($x); )*\n")?;
+        wtr.write_all(b"            aa_set\n")?;
         wtr.write_all(b"        }\n")?;
         wtr.write_all(b"    };\n")?;
         wtr.write_all(b"    ( $( $x:expr ),+ , ) => {\n")?;
-- 
2.43.0


From 0b5fa774cdfeed643c212f8539d44d493293ad17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:21 +0000
Subject: [PATCH 28/33] fix: allow non terminals to be named lhs

---
 alalr1_lib/src/grammar.rs | 4 ++--
 alalr1_lib/src/state.rs   | 4 ++--
 lalr1_lib/src/grammar.rs  | 4 ++--
 lalr1_lib/src/state.rs    | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/alalr1_lib/src/grammar.rs b/alalr1_lib/src/grammar.rs
index 036ea10..a7d2ddd 100644
--- a/alalr1_lib/src/grammar.rs
+++ b/alalr1_lib/src/grammar.rs
@@ -696,13 +696,13 @@ impl Grammar {
     }
 
     fn write_goto_table_code<W: Write>(&self, wtr: &mut W) -> io::Result<()> {
-        wtr.write_all(b"    fn goto_state(lhs: &AANonTerminal, current_state: u32) -> u32 {\n")?;
+        wtr.write_all(b"    fn goto_state(aa_lhs: &AANonTerminal, current_state: u32) -> u32 {\n")?;
         wtr.write_all(b"        match current_state {\n")?;
         for parser_state in self.parser_states.iter() {
             parser_state.write_goto_table_code(wtr, "            ")?;
         }
         wtr.write_all(
-            b"            _ => panic!(\"Malformed goto table: ({lhs}, {current_state})\"),\n",
+            b"            _ => panic!(\"Malformed goto table: ({aa_lhs}, {current_state})\"),\n",
         )?;
         wtr.write_all(b"        }\n")?;
         wtr.write_all(b"    }\n\n")?;
diff --git a/alalr1_lib/src/state.rs b/alalr1_lib/src/state.rs
index abd32df..926cda8 100644
--- a/alalr1_lib/src/state.rs
+++ b/alalr1_lib/src/state.rs
@@ -368,7 +368,7 @@ impl ParserState {
         indent: &str,
     ) -> std::io::Result<()> {
         if !self.0.goto_table.borrow().is_empty() {
-            wtr.write_fmt(format_args!("{}{} => match lhs {{\n", indent, self.ident()))?;
+            wtr.write_fmt(format_args!("{}{} => match aa_lhs {{\n", indent, self.ident()))?;
             for (non_terminal, state) in self.0.goto_table.borrow().iter() {
                 wtr.write_fmt(format_args!(
                     "{}    AANonTerminal::{} => {},\n",
@@ -378,7 +378,7 @@ impl ParserState {
                 ))?;
             }
             wtr.write_fmt(format_args!(
-                "{indent}    _ => panic!(\"Malformed goto table: ({{lhs}}, {{current_state}})\"),\n"
+                "{indent}    _ => panic!(\"Malformed goto table: ({{aa_lhs}}, {{current_state}})\"),\n"
             ))?;
             wtr.write_fmt(format_args!("{indent}}},\n"))?;
         };
diff --git a/lalr1_lib/src/grammar.rs b/lalr1_lib/src/grammar.rs
index 4012397..4a72bd0 100644
--- a/lalr1_lib/src/grammar.rs
+++ b/lalr1_lib/src/grammar.rs
@@ -688,13 +688,13 @@ impl Grammar {
     }
 
     fn write_goto_table_code<W: Write>(&self, wtr: &mut W) -> io::Result<()> {
-        wtr.write_all(b"    fn goto_state(lhs: &AANonTerminal, current_state: u32) -> u32 {\n")?;
+        wtr.write_all(b"    fn goto_state(aa_lhs: &AANonTerminal, current_state: u32) -> u32 {\n")?;
         wtr.write_all(b"        match current_state {\n")?;
         for parser_state in self.parser_states.iter() {
             parser_state.write_goto_table_code(wtr, "            ")?;
         }
         wtr.write_all(
-            b"            _ => panic!(\"Malformed goto table: ({lhs}, {current_state})\"),\n",
+            b"            _ => panic!(\"Malformed goto table: ({aa_lhs}, {current_state})\"),\n",
         )?;
         wtr.write_all(b"        }\n")?;
         wtr.write_all(b"    }\n\n")?;
diff --git a/lalr1_lib/src/state.rs b/lalr1_lib/src/state.rs
index 35b3b8b..2deeb30 100644
--- a/lalr1_lib/src/state.rs
+++ b/lalr1_lib/src/state.rs
@@ -323,7 +323,7 @@ impl ParserState {
         indent: &str,
     ) -> std::io::Result<()> {
         if !self.0.goto_table.borrow().is_empty() {
-            wtr.write_fmt(format_args!("{}{} => match lhs {{\n", indent, self.ident()))?;
+            wtr.write_fmt(format_args!("{}{} => match aa_lhs {{\n", indent, self.ident()))?;
             for (non_terminal, state) in self.0.goto_table.borrow().iter() {
                 wtr.write_fmt(format_args!(
                     "{}    AANonTerminal::{} => {},\n",
@@ -333,7 +333,7 @@ impl ParserState {
                 ))?;
             }
             wtr.write_fmt(format_args!(
-                "{indent}    _ => panic!(\"Malformed goto table: ({{lhs}}, {{current_state}})\"),\n"
+                "{indent}    _ => panic!(\"Malformed goto table: ({{aa_lhs}}, {{current_state}})\"),\n"
             ))?;
             wtr.write_fmt(format_args!("{indent}}},\n"))?;
         };
-- 
2.43.0


From 33ee96d6aa3b716ca6c9f12599d45429fab8c0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:46 +0000
Subject: [PATCH 29/33] fix: allow tokens to be named token

---
 alalr1_lib/src/grammar.rs | 4 ++--
 lalr1_lib/src/grammar.rs  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/alalr1_lib/src/grammar.rs b/alalr1_lib/src/grammar.rs
index a7d2ddd..3d40be8 100644
--- a/alalr1_lib/src/grammar.rs
+++ b/alalr1_lib/src/grammar.rs
@@ -623,9 +623,9 @@ impl Grammar {
             wtr.write_all(b"    }\n\n")?;
         } else {
             wtr.write_all(
-                b"    fn viable_error_recovery_states(token: &AATerminal) -> OrderedSet<u32> {\n",
+                b"    fn viable_error_recovery_states(aa_token: &AATerminal) -> OrderedSet<u32> {\n",
             )?;
-            wtr.write_all(b"        match token {\n")?;
+            wtr.write_all(b"        match aa_token {\n")?;
             for (name, set) in recovery_states {
                 wtr.write_fmt(format_args!(
                     "            AATerminal::{} => {},\n",
diff --git a/lalr1_lib/src/grammar.rs b/lalr1_lib/src/grammar.rs
index 4a72bd0..0ea30f2 100644
--- a/lalr1_lib/src/grammar.rs
+++ b/lalr1_lib/src/grammar.rs
@@ -619,9 +619,9 @@ impl Grammar {
             wtr.write_all(b"    }\n\n")?;
         } else {
             wtr.write_all(
-                b"    fn viable_error_recovery_states(token: &AATerminal) -> OrderedSet<u32> {\n",
+                b"    fn viable_error_recovery_states(aa_token: &AATerminal) -> OrderedSet<u32> {\n",
             )?;
-            wtr.write_all(b"        match token {\n")?;
+            wtr.write_all(b"        match aa_token {\n")?;
             for (name, set) in recovery_states {
                 wtr.write_fmt(format_args!(
                     "            AATerminal::{} => {},\n",
-- 
2.43.0


From 3c4adbc54557c29d9b5b0b8b7bd2f0e06ca8671e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:24 +0000
Subject: [PATCH 30/33] fix: the tools recognise the specification under
 another name before overwriting it

---
 alalr1_gen/src/main.rs | 17 ++++++++++++++---
 lalr1_gen/src/main.rs  | 17 ++++++++++++++---
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/alalr1_gen/src/main.rs b/alalr1_gen/src/main.rs
index ea6538e..0fe96a3 100644
--- a/alalr1_gen/src/main.rs
+++ b/alalr1_gen/src/main.rs
@@ -2,7 +2,12 @@
 use clap::crate_authors;
 use structopt::StructOpt;
 
-use std::{convert::TryFrom, fs, io::prelude::*, path::PathBuf};
+use std::{
+    convert::TryFrom,
+    fs,
+    io::prelude::*,
+    path::{Path, PathBuf},
+};
 
 use alalr1_lib::grammar;
 
@@ -30,6 +35,11 @@ struct CLOptions {
     specification: PathBuf,
 }
 
+/// Whether the paths lead to the same file, however they are written.
+fn same_file(a: &Path, b: &Path) -> bool {
+    a == b || matches!((a.canonicalize(), b.canonicalize()), (Ok(a), Ok(b)) if a == b)
+}
+
 fn main() {
     let cl_options = CLOptions::from_args();
     let output_path = if let Some(output_path) = cl_options.output {
@@ -38,8 +48,9 @@ fn main() {
         cl_options.specification.with_extension("rs")
     };
     let description_file = output_path.with_extension("states");
-    if output_path == description_file
-        || [&output_path, &description_file].contains(&&cl_options.specification)
+    if same_file(&output_path, &description_file)
+        || same_file(&output_path, &cl_options.specification)
+        || same_file(&description_file, &cl_options.specification)
     {
         eprintln!(
             "{}: the specification, the parser and its description must be different files",
diff --git a/lalr1_gen/src/main.rs b/lalr1_gen/src/main.rs
index 0aebfb2..6f53247 100644
--- a/lalr1_gen/src/main.rs
+++ b/lalr1_gen/src/main.rs
@@ -3,7 +3,12 @@
 use clap::crate_authors;
 use structopt::StructOpt;
 
-use std::{convert::TryFrom, fs, io::prelude::*, path::PathBuf};
+use std::{
+    convert::TryFrom,
+    fs,
+    io::prelude::*,
+    path::{Path, PathBuf},
+};
 
 use lalr1_lib::grammar;
 
@@ -31,6 +36,11 @@ struct CLOptions {
     specification: PathBuf,
 }
 
+/// Whether the paths lead to the same file, however they are written.
+fn same_file(a: &Path, b: &Path) -> bool {
+    a == b || matches!((a.canonicalize(), b.canonicalize()), (Ok(a), Ok(b)) if a == b)
+}
+
 fn main() {
     let cl_options = CLOptions::from_args();
     let output_path = if let Some(output_path) = cl_options.output {
@@ -39,8 +49,9 @@ fn main() {
         cl_options.specification.with_extension("rs")
     };
     let description_file = output_path.with_extension("states");
-    if output_path == description_file
-        || [&output_path, &description_file].contains(&&cl_options.specification)
+    if same_file(&output_path, &description_file)
+        || same_file(&output_path, &cl_options.specification)
+        || same_file(&description_file, &cl_options.specification)
     {
         eprintln!(
             "{}: the specification, the parser and its description must be different files",
-- 
2.43.0


From 809a3d96fb1f85a12d6a25995b706fd5a26b8d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:24 +0000
Subject: [PATCH 31/33] fix: keep a comment at the end of the preamble to
 itself

---
 alalr1_lib/src/grammar.rs | 4 ++++
 lalr1_lib/src/grammar.rs  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/alalr1_lib/src/grammar.rs b/alalr1_lib/src/grammar.rs
index 3d40be8..8820847 100644
--- a/alalr1_lib/src/grammar.rs
+++ b/alalr1_lib/src/grammar.rs
@@ -188,6 +188,10 @@ impl Specification {
 
     pub fn write_preamble_text<W: Write>(&self, wtr: &mut W) -> io::Result<()> {
         wtr.write_all(self.preamble.as_bytes())?;
+        // NB the preamble may end with a line comment
+        if !self.preamble.is_empty() && !self.preamble.ends_with('\n') {
+            wtr.write_all(b"\n")?;
+        }
         Ok(())
     }
 
diff --git a/lalr1_lib/src/grammar.rs b/lalr1_lib/src/grammar.rs
index 0ea30f2..93b2c5b 100644
--- a/lalr1_lib/src/grammar.rs
+++ b/lalr1_lib/src/grammar.rs
@@ -184,6 +184,10 @@ impl Specification {
 
     pub fn write_preamble_text<W: Write>(&self, wtr: &mut W) -> io::Result<()> {
         wtr.write_all(self.preamble.as_bytes())?;
+        // NB the preamble may end with a line comment
+        if !self.preamble.is_empty() && !self.preamble.ends_with('\n') {
+            wtr.write_all(b"\n")?;
+        }
         Ok(())
     }
 
-- 
2.43.0


From 417dff702f96a38e984266f57484ba694d10b3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:44 +0000
Subject: [PATCH 32/33] fix: keep a comment at the end of a predicate to itself

---
 alalr1_lib/src/state.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/alalr1_lib/src/state.rs b/alalr1_lib/src/state.rs
index 926cda8..d2d9a63 100644
--- a/alalr1_lib/src/state.rs
+++ b/alalr1_lib/src/state.rs
@@ -318,15 +318,14 @@ impl ParserState {
                 ))?;
                 for (i, production) in productions.iter().enumerate() {
                     if i == 0 {
+                        // NB the predicate may end with a line comment
                         wtr.write_fmt(format_args!(
-                            "{}        if {} {{\n",
-                            indent,
+                            "{indent}        if {}\n{indent}        {{\n",
                             production.expanded_predicate().expect("more than one")
                         ))?;
                     } else if production.has_predicate() {
                         wtr.write_fmt(format_args!(
-                            "{}        }} else if {} {{\n",
-                            indent,
+                            "{indent}        }} else if {}\n{indent}        {{\n",
                             production.expanded_predicate().expect("more than one")
                         ))?;
                     } else {
-- 
2.43.0


From 0cc2958d764fefd88ebddcf8bbd31ab14a348f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:34 +0000
Subject: [PATCH 33/33] fix: allow more than 65535 levels of precedence

---
 alalr1_lib/src/attributes.rs      |  4 ++--
 alalr1_lib/src/production.rs      | 10 +++++-----
 alalr1_lib/src/symbol.rs          |  2 +-
 alalr1_lib/src/symbol/tag.rs      |  6 +++---
 alalr1_lib/src/symbol/terminal.rs |  8 ++++----
 lalr1_lib/src/attributes.rs       |  4 ++--
 lalr1_lib/src/production.rs       | 10 +++++-----
 lalr1_lib/src/symbol.rs           |  2 +-
 lalr1_lib/src/symbol/tag.rs       |  6 +++---
 lalr1_lib/src/symbol/terminal.rs  |  8 ++++----
 10 files changed, 30 insertions(+), 30 deletions(-)

diff --git a/alalr1_lib/src/attributes.rs b/alalr1_lib/src/attributes.rs
index a2965df..27a8a91 100644
--- a/alalr1_lib/src/attributes.rs
+++ b/alalr1_lib/src/attributes.rs
@@ -27,7 +27,7 @@ pub enum AttributeData {
     ProductionTailList(Vec<ProductionTail>),
     Action(String),
     Predicate(String),
-    AssociativityAndPrecedence(Associativity, u16),
+    AssociativityAndPrecedence(Associativity, u32),
     #[default]
     Default,
 }
@@ -163,7 +163,7 @@ impl AttributeData {
         }
     }
 
-    pub fn associativity_and_precedence(&self) -> (Associativity, u16) {
+    pub fn associativity_and_precedence(&self) -> (Associativity, u32) {
         match self {
             AttributeData::AssociativityAndPrecedence(associativity, precedence) => {
                 (*associativity, *precedence)
diff --git a/alalr1_lib/src/production.rs b/alalr1_lib/src/production.rs
index f5e8542..f827806 100644
--- a/alalr1_lib/src/production.rs
+++ b/alalr1_lib/src/production.rs
@@ -21,7 +21,7 @@ pub struct ProductionTailData {
     right_hand_side: Vec<Symbol>,
     predicate: Option<String>,
     associativity: Associativity,
-    precedence: u16,
+    precedence: u32,
     action: Option<String>,
 }
 
@@ -38,7 +38,7 @@ impl ProductionTail {
     pub fn new(
         right_hand_side: &[Symbol],
         o_predicate: Option<&str>,
-        associative_precedence: Option<(Associativity, u16)>,
+        associative_precedence: Option<(Associativity, u32)>,
         o_action: Option<&str>,
     ) -> Self {
         let predicate = o_predicate.map(|predicate| predicate.to_string());
@@ -73,7 +73,7 @@ impl ProductionTail {
     }
 }
 
-fn rhs_associated_precedence(symbols: &[Symbol]) -> Option<(Associativity, u16)> {
+fn rhs_associated_precedence(symbols: &[Symbol]) -> Option<(Associativity, u32)> {
     for symbol in symbols.iter() {
         if let Symbol::Terminal(token) = symbol {
             return Some(token.associativity_and_precedence());
@@ -155,7 +155,7 @@ impl Production {
         self.0.tail.0.associativity
     }
 
-    pub fn precedence(&self) -> u16 {
+    pub fn precedence(&self) -> u32 {
         self.0.tail.0.precedence
     }
 
@@ -362,7 +362,7 @@ impl GrammarItemKey {
         self.production.associativity()
     }
 
-    pub fn precedence(&self) -> u16 {
+    pub fn precedence(&self) -> u32 {
         self.production.precedence()
     }
 
diff --git a/alalr1_lib/src/symbol.rs b/alalr1_lib/src/symbol.rs
index f271133..77358e8 100644
--- a/alalr1_lib/src/symbol.rs
+++ b/alalr1_lib/src/symbol.rs
@@ -127,7 +127,7 @@ pub struct SymbolTable {
     regex_tokens: BTreeMap<String, Token>,
     non_terminals: BTreeMap<String, NonTerminal>,
     skip_rules: Vec<String>,
-    last_precedence: u16,
+    last_precedence: u32,
     start_non_terminal: NonTerminal,
     pub error_non_terminal: NonTerminal,
 }
diff --git a/alalr1_lib/src/symbol/tag.rs b/alalr1_lib/src/symbol/tag.rs
index 8fec117..b5dad40 100644
--- a/alalr1_lib/src/symbol/tag.rs
+++ b/alalr1_lib/src/symbol/tag.rs
@@ -11,7 +11,7 @@ pub struct TagData {
     defined_at: lexan::Location,
     used_at: RefCell<Vec<lexan::Location>>,
     associativity: Cell<Associativity>,
-    precedence: Cell<u16>,
+    precedence: Cell<u32>,
 }
 
 impl TagData {
@@ -50,7 +50,7 @@ impl Tag {
         self.0.associativity.get()
     }
 
-    pub fn precedence(&self) -> u16 {
+    pub fn precedence(&self) -> u32 {
         self.0.precedence.get()
     }
 
@@ -66,7 +66,7 @@ impl Tag {
         self.0.associativity.set(associativity)
     }
 
-    pub fn set_precedence(&self, precedence: u16) {
+    pub fn set_precedence(&self, precedence: u32) {
         self.0.precedence.set(precedence)
     }
 }
diff --git a/alalr1_lib/src/symbol/terminal.rs b/alalr1_lib/src/symbol/terminal.rs
index 338c8c8..5648034 100644
--- a/alalr1_lib/src/symbol/terminal.rs
+++ b/alalr1_lib/src/symbol/terminal.rs
@@ -17,7 +17,7 @@ pub struct TokenData {
     defined_at: lexan::Location,
     used_at: RefCell<Vec<lexan::Location>>,
     associativity: Cell<Associativity>,
-    precedence: Cell<u16>,
+    precedence: Cell<u32>,
 }
 
 impl TokenData {
@@ -115,7 +115,7 @@ impl Token {
         }
     }
 
-    pub fn precedence(&self) -> u16 {
+    pub fn precedence(&self) -> u32 {
         match self {
             Token::Literal(token_data) | Token::Regex(token_data) => token_data.precedence.get(),
             Token::End => 0,
@@ -131,7 +131,7 @@ impl Token {
         }
     }
 
-    pub fn associativity_and_precedence(&self) -> (Associativity, u16) {
+    pub fn associativity_and_precedence(&self) -> (Associativity, u32) {
         match self {
             Token::Literal(token_data) | Token::Regex(token_data) => {
                 (token_data.associativity.get(), token_data.precedence.get())
@@ -158,7 +158,7 @@ impl Token {
         }
     }
 
-    pub fn set_precedence(&self, precedence: u16) {
+    pub fn set_precedence(&self, precedence: u32) {
         debug_assert!(precedence > 0);
         match self {
             Token::Literal(token_data) | Token::Regex(token_data) => {
diff --git a/lalr1_lib/src/attributes.rs b/lalr1_lib/src/attributes.rs
index c4e034d..253c76d 100644
--- a/lalr1_lib/src/attributes.rs
+++ b/lalr1_lib/src/attributes.rs
@@ -22,7 +22,7 @@ pub enum AttributeData {
     ProductionTail(ProductionTail),
     ProductionTailList(Vec<ProductionTail>),
     Action(String),
-    AssociativityAndPrecedence(Associativity, u16),
+    AssociativityAndPrecedence(Associativity, u32),
     #[default]
     Default,
 }
@@ -151,7 +151,7 @@ impl AttributeData {
         }
     }
 
-    pub fn associativity_and_precedence(&self) -> (Associativity, u16) {
+    pub fn associativity_and_precedence(&self) -> (Associativity, u32) {
         match self {
             AttributeData::AssociativityAndPrecedence(associativity, precedence) => {
                 (*associativity, *precedence)
diff --git a/lalr1_lib/src/production.rs b/lalr1_lib/src/production.rs
index e41950e..709422c 100644
--- a/lalr1_lib/src/production.rs
+++ b/lalr1_lib/src/production.rs
@@ -20,7 +20,7 @@ use std::str::FromStr;
 pub struct ProductionTailData {
     right_hand_side: Vec<Symbol>,
     associativity: Associativity,
-    precedence: u16,
+    precedence: u32,
     action: Option<String>,
 }
 
@@ -36,7 +36,7 @@ impl Clone for ProductionTail {
 impl ProductionTail {
     pub fn new(
         right_hand_side: &[Symbol],
-        associative_precedence: Option<(Associativity, u16)>,
+        associative_precedence: Option<(Associativity, u32)>,
         o_action: Option<&str>,
     ) -> Self {
         let action = o_action.map(|action| action.to_string());
@@ -65,7 +65,7 @@ impl ProductionTail {
     }
 }
 
-fn rhs_associated_precedence(symbols: &[Symbol]) -> Option<(Associativity, u16)> {
+fn rhs_associated_precedence(symbols: &[Symbol]) -> Option<(Associativity, u32)> {
     for symbol in symbols.iter() {
         if let Symbol::Terminal(token) = symbol {
             return Some(token.associativity_and_precedence());
@@ -147,7 +147,7 @@ impl Production {
         self.0.tail.0.associativity
     }
 
-    pub fn precedence(&self) -> u16 {
+    pub fn precedence(&self) -> u32 {
         self.0.tail.0.precedence
     }
 
@@ -325,7 +325,7 @@ impl GrammarItemKey {
         self.production.associativity()
     }
 
-    pub fn precedence(&self) -> u16 {
+    pub fn precedence(&self) -> u32 {
         self.production.precedence()
     }
 
diff --git a/lalr1_lib/src/symbol.rs b/lalr1_lib/src/symbol.rs
index 40c9364..e6ffee1 100644
--- a/lalr1_lib/src/symbol.rs
+++ b/lalr1_lib/src/symbol.rs
@@ -127,7 +127,7 @@ pub struct SymbolTable {
     regex_tokens: BTreeMap<String, Token>,
     non_terminals: BTreeMap<String, NonTerminal>,
     skip_rules: Vec<String>,
-    last_precedence: u16,
+    last_precedence: u32,
     start_non_terminal: NonTerminal,
     pub error_non_terminal: NonTerminal,
 }
diff --git a/lalr1_lib/src/symbol/tag.rs b/lalr1_lib/src/symbol/tag.rs
index 8fec117..b5dad40 100644
--- a/lalr1_lib/src/symbol/tag.rs
+++ b/lalr1_lib/src/symbol/tag.rs
@@ -11,7 +11,7 @@ pub struct TagData {
     defined_at: lexan::Location,
     used_at: RefCell<Vec<lexan::Location>>,
     associativity: Cell<Associativity>,
-    precedence: Cell<u16>,
+    precedence: Cell<u32>,
 }
 
 impl TagData {
@@ -50,7 +50,7 @@ impl Tag {
         self.0.associativity.get()
     }
 
-    pub fn precedence(&self) -> u16 {
+    pub fn precedence(&self) -> u32 {
         self.0.precedence.get()
     }
 
@@ -66,7 +66,7 @@ impl Tag {
         self.0.associativity.set(associativity)
     }
 
-    pub fn set_precedence(&self, precedence: u16) {
+    pub fn set_precedence(&self, precedence: u32) {
         self.0.precedence.set(precedence)
     }
 }
diff --git a/lalr1_lib/src/symbol/terminal.rs b/lalr1_lib/src/symbol/terminal.rs
index f5a6ad8..fb82639 100644
--- a/lalr1_lib/src/symbol/terminal.rs
+++ b/lalr1_lib/src/symbol/terminal.rs
@@ -17,7 +17,7 @@ pub struct TokenData {
     defined_at: lexan::Location,
     used_at: RefCell<Vec<lexan::Location>>,
     associativity: Cell<Associativity>,
-    precedence: Cell<u16>,
+    precedence: Cell<u32>,
 }
 
 impl TokenData {
@@ -115,7 +115,7 @@ impl Token {
         }
     }
 
-    pub fn precedence(&self) -> u16 {
+    pub fn precedence(&self) -> u32 {
         match self {
             Token::Literal(token_data) | Token::Regex(token_data) => token_data.precedence.get(),
             Token::End => 0,
@@ -131,7 +131,7 @@ impl Token {
         }
     }
 
-    pub fn associativity_and_precedence(&self) -> (Associativity, u16) {
+    pub fn associativity_and_precedence(&self) -> (Associativity, u32) {
         match self {
             Token::Literal(token_data) | Token::Regex(token_data) => {
                 (token_data.associativity.get(), token_data.precedence.get())
@@ -158,7 +158,7 @@ impl Token {
         }
     }
 
-    pub fn set_precedence(&self, precedence: u16) {
+    pub fn set_precedence(&self, precedence: u32) {
         debug_assert!(precedence > 0);
         match self {
             Token::Literal(token_data) | Token::Regex(token_data) => {
-- 
2.43.0

