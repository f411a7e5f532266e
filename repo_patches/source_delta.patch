From 897143bfe52c76c200b9ee4fd529eee75c9c9455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:06 +0000
Subject: [PATCH 01/38] fix: end literal text patterns at their closing
 backtick

---
 crates/localiser/src/tree.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/crates/localiser/src/tree.rs b/crates/localiser/src/tree.rs
index 07e2716..2455e25 100644
--- a/crates/localiser/src/tree.rs
+++ b/crates/localiser/src/tree.rs
@@ -164,7 +164,9 @@ impl Tree {
         let mut patterns = HashMap::<String, usize>::new();
 
         // Process the tokens
-        let mut lexer = LexerIterator::try_new(string, grammar, icu_data_provider)?.enumerate();
+        let mut lexer = LexerIterator::try_new(string, grammar, icu_data_provider)?
+            .enumerate()
+            .peekable();
         while let Some((current, token)) = lexer.next() {
             if token.token_type == TokenType::Grammar {
                 has_grammar = true;
@@ -385,13 +387,18 @@ impl Tree {
                     if tokens[current].token_type == TokenType::Grammar
                         && tokens[current].string.as_str() == "`"
                     {
-                        // Skip over 1st ` token.
-                        let Some((next, token)) = lexer.next() else {
+                        // Only a second ` token makes it a literal `, any other token is left for
+                        // the state that follows the literal text.
+                        let Some((_, peeked)) = lexer.peek() else {
                             return Err(TreeError::EndedAbruptly);
                         };
-                        Tree::push_token(&mut tokens, &mut lengths, token);
-                        if tokens[current].string.as_str() == "`" {
+                        if peeked.token_type == TokenType::Grammar && peeked.string.as_str() == "`"
+                        {
                             // Literal 2nd ` found.
+                            let Some((next, token)) = lexer.next() else {
+                                return Err(TreeError::EndedAbruptly);
+                            };
+                            Tree::push_token(&mut tokens, &mut lengths, token);
                             Tree::add_token(&mut nodes, &mut parser, NodeType::Text, &next);
                         } else {
                             Tree::end_nested_state(&mut nodes, &mut parser);
@@ -408,7 +415,8 @@ impl Tree {
                     if tokens[current].token_type == TokenType::Grammar
                         && tokens[current].string.as_str() == "}"
                     {
-                        Tree::end_nested_state(&mut nodes, &mut parser);
+                        // The literal text already moved to its container.
+                        parser.state = parser.nested_states.pop().unwrap_or(ParserState::String);
                         continue;
                     }
                     return Err(TreeError::InvalidToken(
-- 
2.43.0


From 98f3eb6aecadf46f9ec10faf0c65c68244601476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:06 +0000
Subject: [PATCH 02/38] fix: allow empty literal text as command parameter

---
 crates/localiser/src/tree.rs | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/crates/localiser/src/tree.rs b/crates/localiser/src/tree.rs
index 2455e25..34d31c3 100644
--- a/crates/localiser/src/tree.rs
+++ b/crates/localiser/src/tree.rs
@@ -452,17 +452,8 @@ impl Tree {
                             }
                             Tree::end_nested_state(&mut nodes, &mut parser);
                         } else if token_str == "`" {
-                            // Skip over ` token as next token is a literal.
-                            let Some((next, token)) = lexer.next() else {
-                                return Err(TreeError::EndedAbruptly);
-                            };
-                            Tree::push_token(&mut tokens, &mut lengths, token);
-                            Tree::create_node_add_token(
-                                &mut nodes,
-                                &mut parser,
-                                NodeType::Text,
-                                &next,
-                            );
+                            // Skip over ` token as it marks start of literal text.
+                            Tree::create_node(&mut nodes, &mut parser, NodeType::Text);
                             parser.nested_states.push(ParserState::Command);
                             parser.state = ParserState::LiteralText;
                         } else if token_str == "#" {
-- 
2.43.0


From 5c952d142353dddd54b0a3827f0c51f56961a6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:06 +0000
Subject: [PATCH 03/38] fix: return to the command after its delay marker

---
 crates/localiser/src/tree.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/localiser/src/tree.rs b/crates/localiser/src/tree.rs
index 34d31c3..cd21725 100644
--- a/crates/localiser/src/tree.rs
+++ b/crates/localiser/src/tree.rs
@@ -473,6 +473,7 @@ impl Tree {
                                 NodeType::NumberSign,
                                 &current,
                             );
+                            Tree::move_to_container(&mut nodes, &mut parser);
                         } else {
                             return Err(TreeError::InvalidToken(
                                 parser.state,
-- 
2.43.0


From 27737d2fefff00bc03c4b7f263517c4e75f21e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:06 +0000
Subject: [PATCH 04/38] fix: accept named strings that start with a pattern

---
 crates/localiser/src/tree.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/localiser/src/tree.rs b/crates/localiser/src/tree.rs
index cd21725..9226b76 100644
--- a/crates/localiser/src/tree.rs
+++ b/crates/localiser/src/tree.rs
@@ -574,21 +574,21 @@ impl Tree {
                                     tokens[current].string.to_string(),
                                 ));
                             }
-                            let Some((_currrent, token)) = lexer.next() else {
-                                // Skip the next token
+                            // Skip over { token as it marks start of pattern.
+                            let Some((next, token)) = lexer.next() else {
                                 return Err(TreeError::EndedAbruptly);
                             };
                             Tree::push_token(&mut tokens, &mut lengths, token);
-                            match Tree::pattern_start(
+                            Tree::create_node(&mut nodes, &mut parser, NodeType::String);
+                            parser.nested_states.push(ParserState::NamedString);
+                            parser.state = ParserState::SubString;
+                            Tree::pattern_start(
                                 &mut nodes,
                                 &mut parser,
                                 &mut tokens,
-                                &current,
+                                &next,
                                 &mut patterns,
-                            ) {
-                                Ok(_) => {}
-                                Err(error) => return Err(error),
-                            };
+                            )?;
                         } else if token_str == "`" {
                             // ` may only appear after Identifier node indicating start of SubString.
                             let children =
-- 
2.43.0


From c4ab7e0c00f3b01b4a689f8b88efbc7f5f9c1237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:06 +0000
Subject: [PATCH 05/38] fix: accept named strings that start with an escape or
 syntax character

---
 crates/localiser/src/tree.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/localiser/src/tree.rs b/crates/localiser/src/tree.rs
index 9226b76..05b96d1 100644
--- a/crates/localiser/src/tree.rs
+++ b/crates/localiser/src/tree.rs
@@ -612,6 +612,7 @@ impl Tree {
                                 NodeType::Text,
                                 &current,
                             );
+                            parser.state = ParserState::SubString;
                         } else {
                             return Err(TreeError::InvalidToken(
                                 parser.state,
@@ -637,6 +638,7 @@ impl Tree {
                             NodeType::Text,
                             &current,
                         );
+                        parser.state = ParserState::SubString;
                     } else if tokens[current].token_type == TokenType::WhiteSpace {
                         // Valid WhiteSpace is only a separator between Identifier and Substring.
                         let children = nodes[parser.current.unwrap()].children.as_ref().unwrap();
-- 
2.43.0


From 8a17ba4b18b4a0c2064fe99df0414c1d4e10fe8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:06 +0000
Subject: [PATCH 06/38] fix: reject stray grammar characters among pattern
 options

---
 crates/localiser/src/tree.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/localiser/src/tree.rs b/crates/localiser/src/tree.rs
index 05b96d1..6a395ca 100644
--- a/crates/localiser/src/tree.rs
+++ b/crates/localiser/src/tree.rs
@@ -368,9 +368,14 @@ impl Tree {
                         parser.current = nodes.get(parser.current.take().unwrap()).unwrap().parent;
                     } else if tokens[current].token_type == TokenType::WhiteSpace {
                     } else if tokens[current].token_type == TokenType::Grammar {
-                        if tokens[current].string.as_str() == "}" {
-                            Tree::end_nested_state(&mut nodes, &mut parser);
+                        if tokens[current].string.as_str() != "}" {
+                            return Err(TreeError::InvalidToken(
+                                parser.state,
+                                tokens[current].start_grapheme,
+                                tokens[current].string.to_string(),
+                            ));
                         }
+                        Tree::end_nested_state(&mut nodes, &mut parser);
                     } else {
                         return Err(TreeError::InvalidToken(
                             parser.state,
-- 
2.43.0


From dfdc942290e485d5902843abd068a10d59091022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:29 +0000
Subject: [PATCH 07/38] fix: use the value of a pattern option or selector

---
 crates/localiser/src/formatter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index bf3c916..b312a0a 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -1347,7 +1347,7 @@ fn pattern_selectors(
             return Err(FormatterError::NodeNotFound(NodeType::Identifier));
         }
         let first_token = tree.token(&tree.tokens(first).unwrap()[0]);
-        let last = tree.first(selector).unwrap();
+        let last = tree.last(selector).unwrap();
         if tree.node_type(last) != &NodeType::Identifier {
             return Err(FormatterError::NodeNotFound(NodeType::Identifier));
         }
-- 
2.43.0


From 0a878f2d549e7fe31c220326d4d19b3ecb796b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:29 +0000
Subject: [PATCH 08/38] fix: do not allow a selector to refer to the main
 pattern

---
 crates/localiser/src/formatter.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index b312a0a..84695d4 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -77,7 +77,6 @@ impl Formatter {
         }
         let icu_language = localiser.language_tag_registry().icu_language(language_tag);
         let mut patterns = HashMap::<String, Vec<PatternPart>>::new();
-        patterns.insert("_".to_string(), Vec::<PatternPart>::new()); // Insert empty main pattern.
         let mut numbers = Vec::<String>::new();
         let mut selectors = Vec::<HashMap<String, String>>::new();
         let option_selectors = OptionSelectors {
@@ -112,7 +111,9 @@ impl Formatter {
 
                 // Two children: Identifier, String
                 let identifier_token = tree.token(&tree.tokens(identifier).unwrap()[0]);
-                if patterns.contains_key(identifier_token.string.as_str()) {
+                if identifier_token.string.as_str() == "_" // Reserved for main pattern.
+                    || patterns.contains_key(identifier_token.string.as_str())
+                {
                     return Err(FormatterError::NamedStringIdentifier(
                         identifier_token.string.as_str().to_string(),
                     ));
-- 
2.43.0


From 32af6a6f467b7b8b81da49c094b430abffd90c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:29 +0000
Subject: [PATCH 09/38] fix: do not reuse number strings of previous formatting

---
 crates/localiser/src/formatter.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index 84695d4..f369f0e 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -193,6 +193,10 @@ impl Formatter {
         localiser: &Localiser,
         values: &HashMap<String, PlaceholderValue>,
     ) -> Result<(String, &RefCount<LanguageTag>), FormatterError> {
+        // Number strings of a previous formatting must not be reused.
+        for number_string in self.numbers.iter_mut() {
+            number_string.clear();
+        }
         let pattern_string = self.format_pattern(localiser, values, "_")?;
         Ok((pattern_string, &self.language_tag))
     }
-- 
2.43.0


From 9d5d0eb8652409a666bf48bdbe8065b485bbfdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:29 +0000
Subject: [PATCH 10/38] fix: use the other selector when there is no specific
 selector

---
 crates/localiser/src/formatter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index f369f0e..3d0db8c 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -605,7 +605,7 @@ impl Formatter {
             let Some(selectors) = self.selectors.get(selectors_index) else {
                 return Err(FormatterError::SelectorsIndex(selectors_index));
             };
-            let Some(named) = selectors.get(&category) else {
+            let Some(named) = selectors.get(&category).or(selectors.get("other")) else {
                 return Err(FormatterError::SelectorsIndexNamed(
                     category,
                     selectors_index,
@@ -653,7 +653,7 @@ impl Formatter {
         let Some(selectors) = self.selectors.get(selectors_index) else {
             return Err(FormatterError::SelectorsIndex(selectors_index));
         };
-        let Some(named) = selectors.get(string_value) else {
+        let Some(named) = selectors.get(string_value).or(selectors.get("other")) else {
             return Err(FormatterError::SelectorsIndexNamed(
                 string_value.to_string(),
                 selectors_index,
-- 
2.43.0


From e6df6d13c7792ed7641e8152c4f16b63cccbb435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:29 +0000
Subject: [PATCH 11/38] fix: accept ISO times without nanoseconds

---
 crates/localiser/src/formatter.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index 3d0db8c..9662322 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -1014,7 +1014,9 @@ pub fn decompose_iso_time(string: &str) -> Result<Time, FormatterError> {
                 // try nanosecond
                 let mut no_second = &no_minute[2..];
                 no_second = no_second.trim_start_matches('.');
-                nano = NanoSecond::from_str(no_second)?;
+                if !no_second.is_empty() {
+                    nano = NanoSecond::from_str(no_second)?;
+                }
             }
         }
     }
-- 
2.43.0


From 8eabbc2fc242467e824ee3239b9854013699d7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:29 +0000
Subject: [PATCH 12/38] fix: ignore the UTC designator of ISO times

---
 crates/localiser/src/formatter.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index 9662322..548b9e5 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -980,10 +980,11 @@ pub fn decompose_iso_time(string: &str) -> Result<Time, FormatterError> {
         None => no_t,
         Some(pos) => &no_t[..pos],
     };
-    let trimmed = match no_plus.find('-') {
+    let no_minus = match no_plus.find('-') {
         None => no_plus,
         Some(pos) => &no_plus[..pos],
     };
+    let trimmed = no_minus.trim_end_matches('Z');
     if trimmed.is_empty() {
         return Ok(Time::new(
             IsoHour::zero(),
-- 
2.43.0


From b5991c7d056d3b0ee678a61c50d9bb52c4f497bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:29 +0000
Subject: [PATCH 13/38] fix: do not truncate or ignore the year of ISO dates

---
 crates/localiser/src/formatter.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index 548b9e5..46ecc32 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -908,7 +908,10 @@ pub fn decompose_iso_date(string: &str) -> Result<Date<Iso>, FormatterError> {
         return Ok(date);
     }
     let parts: Vec<&str> = no_plus.split('-').collect();
-    if parts.len() == 1 {
+    if parts.len() == 1 && string.starts_with('+') {
+        // +YYYYY
+        year = i32::from_str(parts[0])?;
+    } else if parts.len() == 1 {
         // YYYYMMDD or YYYY. ISO 8601 may re-add YYYYMM in the future, once most historical data has been
         // converted from YYMMDD.
         if let Some(slice) = parts[0].get(..4) {
@@ -923,6 +926,8 @@ pub fn decompose_iso_date(string: &str) -> Result<Date<Iso>, FormatterError> {
                     day = u8::from_str(slice)?;
                 }
             }
+        } else {
+            year = i32::from_str(parts[0])?;
         }
     } else {
         let mut index = 0usize;
-- 
2.43.0


From 4cec0bbe74b6f154cef9d076fc8ae742a232bd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:29 +0000
Subject: [PATCH 14/38] fix: do not panic in bundled commands for missing or
 empty parameters

---
 crates/localiser/src/command.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/crates/localiser/src/command.rs b/crates/localiser/src/command.rs
index 9b0291f..143be23 100644
--- a/crates/localiser/src/command.rs
+++ b/crates/localiser/src/command.rs
@@ -177,7 +177,13 @@ impl Default for CommandRegistry {
 /// Requires 1 parameter having type of [`PlaceholderValue`]`::String`.
 /// Additional parameters are simply ignored.
 pub fn file_path(parameters: Vec<PlaceholderValue>) -> Result<String, CommandError> {
-    let command = match &parameters[0] {
+    let Some(first) = parameters.first() else {
+        return Err(CommandError::ParameterMissing(
+            "command identifier".to_string(),
+            0,
+        ));
+    };
+    let command = match first {
         PlaceholderValue::String(string) => string,
 
         // When called from within the `Formatter` methods, this branch is never reached.
@@ -203,7 +209,13 @@ pub fn file_path(parameters: Vec<PlaceholderValue>) -> Result<String, CommandErr
 /// Requires 1 parameter having type of [`PlaceholderValue`]`::String`.
 /// Additional parameters are simply ignored.
 pub fn english_a_or_an(parameters: Vec<PlaceholderValue>) -> Result<String, CommandError> {
-    let command = match &parameters[0] {
+    let Some(first) = parameters.first() else {
+        return Err(CommandError::ParameterMissing(
+            "command identifier".to_string(),
+            0,
+        ));
+    };
+    let command = match first {
         PlaceholderValue::String(string) => string,
 
         // When called from within the `Formatter` methods, this branch is never reached.
@@ -222,8 +234,8 @@ pub fn english_a_or_an(parameters: Vec<PlaceholderValue>) -> Result<String, Comm
         _ => return Err(CommandError::InvalidType(command.clone(), 1)),
     };
     let mut chars = string.chars();
-    match chars.next().unwrap() {
-        'a' | 'e' | 'i' | 'o' | 'u' => Ok("an".to_string()),
+    match chars.next() {
+        Some('a' | 'e' | 'i' | 'o' | 'u') => Ok("an".to_string()),
         _ => Ok("a".to_string()),
     }
 }
-- 
2.43.0


From 9cdd6eddca343694c96cc3d3e5c07d1a4db5c2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:29 +0000
Subject: [PATCH 15/38] fix: cache strings for the requested language tag

---
 crates/localiser/src/localiser.rs | 33 ++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/crates/localiser/src/localiser.rs b/crates/localiser/src/localiser.rs
index c96ac04..14e9827 100644
--- a/crates/localiser/src/localiser.rs
+++ b/crates/localiser/src/localiser.rs
@@ -1036,7 +1036,13 @@ impl Localiser {
         if localised.0.is_empty() {
             let string = RefCount::new(localised.0);
             if caching {
-                self.add_string_to_cache(_language_entry, combined, &string, &localised.1);
+                self.add_string_to_cache(
+                    _language_entry,
+                    combined,
+                    &string,
+                    language_tag,
+                    &localised.1,
+                );
                 return Ok((string, localised.1));
             }
             return Ok((string, localised.1));
@@ -1048,7 +1054,13 @@ impl Localiser {
                     // No grammar syntax was found, thus a literal string.
                     let string = RefCount::new(localised.0);
                     if caching {
-                        self.add_string_to_cache(_language_entry, combined, &string, &localised.1);
+                        self.add_string_to_cache(
+                    _language_entry,
+                    combined,
+                    &string,
+                    language_tag,
+                    &localised.1,
+                );
                         return Ok((string, localised.1));
                     }
                     return Ok((string, localised.1));
@@ -1207,7 +1219,13 @@ impl Localiser {
         // Since pattern string is treated as literal, simply cache (if allowed) and return the string.
         let string = RefCount::new(localised.0);
         if caching {
-            self.add_string_to_cache(_language_entry, combined, &string, &localised.1);
+            self.add_string_to_cache(
+                    _language_entry,
+                    combined,
+                    &string,
+                    language_tag,
+                    &localised.1,
+                );
         }
         Ok((string, RefCount::clone(&localised.1)))
     }
@@ -1264,7 +1282,8 @@ impl Localiser {
         language_exists: bool,
         combined: String,
         string: &RefCount<String>,
-        tag: &RefCount<LanguageTag>,
+        language_tag: &RefCount<LanguageTag>, // Requested language tag
+        tag: &RefCount<LanguageTag>,          // Language tag of the string
     ) {
         #[cfg(feature = "logging")]
         debug!("Caching literal string.");
@@ -1280,13 +1299,13 @@ impl Localiser {
             #[cfg(not(feature = "sync"))]
             self.cache
                 .borrow_mut()
-                .insert(RefCount::clone(tag), data_entry);
+                .insert(RefCount::clone(language_tag), data_entry);
 
             #[cfg(feature = "sync")]
             self.cache
                 .write()
                 .unwrap()
-                .insert(RefCount::clone(tag), data_entry);
+                .insert(RefCount::clone(language_tag), data_entry);
         } else {
             // Language tag does exist in cache
             #[cfg(not(feature = "sync"))]
@@ -1295,7 +1314,7 @@ impl Localiser {
             #[cfg(feature = "sync")]
             let mut binding = self.cache.write().unwrap();
 
-            let data_entry = binding.get_mut(tag);
+            let data_entry = binding.get_mut(language_tag);
             data_entry.unwrap().insert(
                 combined,
                 CacheData::Localised(RefCount::clone(string), RefCount::clone(tag)),
-- 
2.43.0


From e374326f38c9217ac29862e4fbc1e06e1b3ee379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:29 +0000
Subject: [PATCH 16/38] fix: cache literal strings separately from formatted
 strings

---
 crates/localiser/src/localiser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/localiser/src/localiser.rs b/crates/localiser/src/localiser.rs
index 14e9827..c431759 100644
--- a/crates/localiser/src/localiser.rs
+++ b/crates/localiser/src/localiser.rs
@@ -1151,7 +1151,7 @@ impl Localiser {
         caching: bool, // true = cache the resultant Formatter for repeating use with different values.
     ) -> Result<(RefCount<String>, RefCount<LanguageTag>), LocaliserError> {
         let mut combined = component.to_string();
-        combined.push('/');
+        combined.push_str("//"); // Literal strings are cached separately from formatted strings.
         combined.push_str(identifier);
         let mut _language_entry = false;
         {
-- 
2.43.0


From 0062679f1bcb10760d386b87f4c6d4f342b04280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:29 +0000
Subject: [PATCH 17/38] fix: do not return cached fallback strings when
 fallback is off

---
 crates/localiser/src/localiser.rs | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/crates/localiser/src/localiser.rs b/crates/localiser/src/localiser.rs
index c431759..a55a54b 100644
--- a/crates/localiser/src/localiser.rs
+++ b/crates/localiser/src/localiser.rs
@@ -950,6 +950,9 @@ impl Localiser {
         let mut combined = component.to_string();
         combined.push('/');
         combined.push_str(identifier.as_ref());
+        if fallback {
+            combined.push('/'); // Strings of fallback language are cached separately.
+        }
         let mut _language_entry = false;
         {
             #[cfg(not(feature = "sync"))]
@@ -1055,12 +1058,12 @@ impl Localiser {
                     let string = RefCount::new(localised.0);
                     if caching {
                         self.add_string_to_cache(
-                    _language_entry,
-                    combined,
-                    &string,
-                    language_tag,
-                    &localised.1,
-                );
+                            _language_entry,
+                            combined,
+                            &string,
+                            language_tag,
+                            &localised.1,
+                        );
                         return Ok((string, localised.1));
                     }
                     return Ok((string, localised.1));
@@ -1153,6 +1156,9 @@ impl Localiser {
         let mut combined = component.to_string();
         combined.push_str("//"); // Literal strings are cached separately from formatted strings.
         combined.push_str(identifier);
+        if fallback {
+            combined.push('/'); // Strings of fallback language are cached separately.
+        }
         let mut _language_entry = false;
         {
             #[cfg(not(feature = "sync"))]
@@ -1220,12 +1226,12 @@ impl Localiser {
         let string = RefCount::new(localised.0);
         if caching {
             self.add_string_to_cache(
-                    _language_entry,
-                    combined,
-                    &string,
-                    language_tag,
-                    &localised.1,
-                );
+                _language_entry,
+                combined,
+                &string,
+                language_tag,
+                &localised.1,
+            );
         }
         Ok((string, RefCount::clone(&localised.1)))
     }
-- 
2.43.0


From b6686ca9f6da7c4c9154845f543f1fc1740ea91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:31 +0000
Subject: [PATCH 18/38] fix: do not search parent language tags for an exact
 match

---
 crates/provider/sqlite3/src/provider.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/provider/sqlite3/src/provider.rs b/crates/provider/sqlite3/src/provider.rs
index 539671c..3b80eed 100644
--- a/crates/provider/sqlite3/src/provider.rs
+++ b/crates/provider/sqlite3/src/provider.rs
@@ -451,6 +451,9 @@ impl LocalisationProviderSqlite3 {
 
                 return Ok(strings);
             }
+            if exact {
+                break; // Only the requested tag is allowed to match.
+            }
             tag = match tag.rsplit_once('-') {
                 None => String::new(),
                 Some(value) => value.0.to_owned(),
-- 
2.43.0


From 2c6e9d46921a81ca057fd32f076a613a308e65dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:49 +0000
Subject: [PATCH 19/38] fix: match the language tag before its sub-tags and not
 other languages

---
 crates/provider/sqlite3/src/provider.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/crates/provider/sqlite3/src/provider.rs b/crates/provider/sqlite3/src/provider.rs
index 3b80eed..a30d06e 100644
--- a/crates/provider/sqlite3/src/provider.rs
+++ b/crates/provider/sqlite3/src/provider.rs
@@ -407,9 +407,6 @@ impl LocalisationProviderSqlite3 {
         let mut strings = Vec::<(String, RefCount<LanguageTag>)>::new();
         let mut tag = language_tag.as_str().to_string();
         while !tag.is_empty() {
-            if !exact {
-                tag.push('%');
-            }
             let mut rows = match statement.query([identifier, tag.as_str(), component]) {
                 Ok(value) => value,
                 Err(error) => {
@@ -2162,17 +2159,18 @@ fn columns_check(
 fn query_pattern(schema_version: &str, only_one: bool, exact: bool) -> String {
     match schema_version {
         "1.0" => {
-            let mut query = "SELECT string, languageTag FROM pattern WHERE identifier = ?1 AND \
-            languageTag "
-                .to_string();
+            let mut query =
+                "SELECT string, languageTag FROM pattern WHERE identifier = ?1 AND ".to_string();
             if exact {
-                query.push_str("= ?2")
+                query.push_str("languageTag = ?2")
             } else {
-                query.push_str("LIKE ?2")
+                // The tag itself, or any of its sub-tags, thus `en` does not match `enm`.
+                query.push_str("( languageTag LIKE ?2 OR languageTag LIKE ?2 || '-%' )")
             }
             query.push_str(" AND component = ?3");
             if only_one {
-                query.push_str(" LIMIT 1")
+                // The tag itself is preferred above its sub-tags.
+                query.push_str(" ORDER BY length( languageTag ) LIMIT 1")
             }
             query
         }
-- 
2.43.0


From d19e597861ac14e89f1e126edd242811aea39b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:53 +0000
Subject: [PATCH 20/38] fix: list the identifier languages of all the component
 files

---
 crates/provider/sqlite3/src/provider.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/crates/provider/sqlite3/src/provider.rs b/crates/provider/sqlite3/src/provider.rs
index a30d06e..618c45f 100644
--- a/crates/provider/sqlite3/src/provider.rs
+++ b/crates/provider/sqlite3/src/provider.rs
@@ -1434,9 +1434,19 @@ impl LocalisationProviderTrait for LocalisationProviderSqlite3 {
         match components.get(component) {
             None => Err(ProviderError::ComponentNotFound(component.to_string())),
             Some(component_details) => {
-                let mut languages = self.identifier_languages(component, identifier, true)?;
-                if languages.is_empty() {
-                    languages = self.identifier_languages(component, identifier, false)?;
+                let component_files = self.components.get(component).unwrap();
+                let mut languages = Vec::<RefCount<LanguageTag>>::new();
+                if component_files.0 {
+                    // In __all_in_one__.sqlite3
+                    languages = self.identifier_languages(component, identifier, true)?;
+                }
+                if component_files.1 {
+                    // Has own <component>.sqlite3
+                    for language in self.identifier_languages(component, identifier, false)? {
+                        if !languages.contains(&language) {
+                            languages.push(language);
+                        }
+                    }
                 }
                 Ok(IdentifierDetails {
                     languages,
-- 
2.43.0


From 819ad765e0753fa80bd1352b440082c7fe731316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:26 +0000
Subject: [PATCH 21/38] fix: do not mix up cached strings whose component or
 identifier has a slash

---
 crates/localiser/src/localiser.rs | 41 +++++++++++++++++--------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/crates/localiser/src/localiser.rs b/crates/localiser/src/localiser.rs
index a55a54b..2f38a55 100644
--- a/crates/localiser/src/localiser.rs
+++ b/crates/localiser/src/localiser.rs
@@ -46,7 +46,7 @@ pub struct Localiser {
     expander: LocaleExpander,
     fallback: MutCell<bool>,
     caching: MutCell<bool>,
-    cache: MutCell<HashMap<RefCount<LanguageTag>, HashMap<String, CacheData>>>,
+    cache: MutCell<HashMap<RefCount<LanguageTag>, HashMap<CacheKey, CacheData>>>,
     language_tag: MutCell<RefCount<LanguageTag>>,
     language_script_data: MutCell<Option<ScriptData>>,
 }
@@ -151,7 +151,7 @@ impl Localiser {
             fallback: MutCell::new(fallback),
             caching: MutCell::new(caching),
             cache: MutCell::new(
-                HashMap::<RefCount<LanguageTag>, HashMap<String, CacheData>>::new(),
+                HashMap::<RefCount<LanguageTag>, HashMap<CacheKey, CacheData>>::new(),
             ),
             language_tag: MutCell::new(tag),
             language_script_data: MutCell::new(language_script_data),
@@ -947,12 +947,13 @@ impl Localiser {
         fallback: bool, // true = fallback to default language.
         caching: bool, // true = cache the resultant Formatter for repeating use with different values.
     ) -> Result<(RefCount<String>, RefCount<LanguageTag>), LocaliserError> {
-        let mut combined = component.to_string();
-        combined.push('/');
-        combined.push_str(identifier.as_ref());
-        if fallback {
-            combined.push('/'); // Strings of fallback language are cached separately.
-        }
+        // Formatted strings, and strings of the fallback language are cached separately.
+        let combined = (
+            component.to_string(),
+            identifier.to_string(),
+            false,
+            fallback,
+        );
         let mut _language_entry = false;
         {
             #[cfg(not(feature = "sync"))]
@@ -1084,7 +1085,7 @@ impl Localiser {
             debug!("Caching formatting string.");
 
             if !_language_entry {
-                let mut data_entry = HashMap::<String, CacheData>::new();
+                let mut data_entry = HashMap::<CacheKey, CacheData>::new();
                 data_entry.insert(
                     combined.clone(),
                     CacheData::Formatter(MutCell::new(formatter)),
@@ -1153,12 +1154,13 @@ impl Localiser {
         fallback: bool, // true = fallback to default language, None = use the Localiser default.
         caching: bool, // true = cache the resultant Formatter for repeating use with different values.
     ) -> Result<(RefCount<String>, RefCount<LanguageTag>), LocaliserError> {
-        let mut combined = component.to_string();
-        combined.push_str("//"); // Literal strings are cached separately from formatted strings.
-        combined.push_str(identifier);
-        if fallback {
-            combined.push('/'); // Strings of fallback language are cached separately.
-        }
+        // Literal strings, and strings of the fallback language are cached separately.
+        let combined = (
+            component.to_string(),
+            identifier.to_string(),
+            true,
+            fallback,
+        );
         let mut _language_entry = false;
         {
             #[cfg(not(feature = "sync"))]
@@ -1286,7 +1288,7 @@ impl Localiser {
     fn add_string_to_cache(
         &self,
         language_exists: bool,
-        combined: String,
+        combined: CacheKey,
         string: &RefCount<String>,
         language_tag: &RefCount<LanguageTag>, // Requested language tag
         tag: &RefCount<LanguageTag>,          // Language tag of the string
@@ -1296,9 +1298,9 @@ impl Localiser {
 
         if !language_exists {
             // Language tag does not exist in cache
-            let mut data_entry = HashMap::<String, CacheData>::new();
+            let mut data_entry = HashMap::<CacheKey, CacheData>::new();
             data_entry.insert(
-                combined.to_string(),
+                combined,
                 CacheData::Localised(RefCount::clone(string), RefCount::clone(tag)),
             );
 
@@ -1331,6 +1333,9 @@ impl Localiser {
 
 // Internal structs, enums, etc
 
+// Component, identifier, literal, fallback
+type CacheKey = (String, String, bool, bool);
+
 enum CacheData {
     Localised(RefCount<String>, RefCount<LanguageTag>),
     Formatter(MutCell<Formatter>),
-- 
2.43.0


From bd35632893b29726403b26948a9d6e40d88ed9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:46 +0000
Subject: [PATCH 22/38] fix: reject month and day zero of ISO dates

---
 crates/localiser/src/formatter.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/localiser/src/formatter.rs b/crates/localiser/src/formatter.rs
index 46ecc32..f00f6a5 100644
--- a/crates/localiser/src/formatter.rs
+++ b/crates/localiser/src/formatter.rs
@@ -12,7 +12,7 @@ use i18n_lexer::{DataProvider, IcuDataProvider, Token, TokenType};
 use i18n_utility::{LanguageTag, PlaceholderValue};
 use icu_calendar::{
     types::{IsoHour, IsoMinute, IsoSecond, NanoSecond, Time},
-    Date, DateTime, Iso,
+    CalendarError, Date, DateTime, Iso,
 };
 use icu_datetime::{
     options::length::{Bag, Date as DateLength, Time as TimeLength},
@@ -952,6 +952,10 @@ pub fn decompose_iso_date(string: &str) -> Result<Date<Iso>, FormatterError> {
             }
         }
     }
+    if month == 0 || day == 0 {
+        // ICU4X `Date` only checks the upper limits.
+        return Err(FormatterError::Calendar(CalendarError::OutOfRange));
+    }
     let result = Date::try_new_iso_date(year, month, day)?;
     Ok(result)
 }
-- 
2.43.0


From d29567e79eaba7edbb09db89532fbb9dc8d4981e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:46 +0000
Subject: [PATCH 23/38] fix: reject repository files with missing columns

---
 crates/provider/sqlite3/src/provider.rs | 62 +++++++++++++++++++++++++
 1 file changed, 62 insertions(+)

diff --git a/crates/provider/sqlite3/src/provider.rs b/crates/provider/sqlite3/src/provider.rs
index 618c45f..a9f7d15 100644
--- a/crates/provider/sqlite3/src/provider.rs
+++ b/crates/provider/sqlite3/src/provider.rs
@@ -1596,7 +1596,9 @@ pub fn verify_schema(connection: &Connection) -> Result<String, SchemaError> {
             let mut statement =
                 connection.prepare("SELECT * FROM pragma_table_info('contributor');")?;
             let mut rows = statement.query([])?;
+            let mut columns = 0usize;
             while let Some(row) = rows.next()? {
+                columns += 1;
                 let cid: usize = row.get(0)?;
                 match cid {
                     0 => {
@@ -1679,12 +1681,27 @@ pub fn verify_schema(connection: &Connection) -> Result<String, SchemaError> {
                     _ => {}
                 }
             }
+            columns_exist(
+                "contributor",
+                columns,
+                &[
+                    "rowID",
+                    "component",
+                    "languageTag",
+                    "contributor",
+                    "substituteFor",
+                    "comment",
+                    "verified",
+                ],
+            )?;
 
             // Table: language
             let mut statement =
                 connection.prepare("SELECT * FROM pragma_table_info('language');")?;
             let mut rows = statement.query([])?;
+            let mut columns = 0usize;
             while let Some(row) = rows.next()? {
+                columns += 1;
                 let cid: usize = row.get(0)?;
                 match cid {
                     0 => {
@@ -1718,12 +1735,19 @@ pub fn verify_schema(connection: &Connection) -> Result<String, SchemaError> {
                     _ => {}
                 }
             }
+            columns_exist(
+                "language",
+                columns,
+                &["rowID", "tag", "englishName", "added"],
+            )?;
 
             // Table: pattern
             let mut statement =
                 connection.prepare("SELECT * FROM pragma_table_info('pattern');")?;
             let mut rows = statement.query([])?;
+            let mut columns = 0usize;
             while let Some(row) = rows.next()? {
+                columns += 1;
                 let cid: usize = row.get(0)?;
                 match cid {
                     0 => {
@@ -1790,12 +1814,27 @@ pub fn verify_schema(connection: &Connection) -> Result<String, SchemaError> {
                     _ => {}
                 }
             }
+            columns_exist(
+                "pattern",
+                columns,
+                &[
+                    "rowID",
+                    "component",
+                    "identifier",
+                    "languageTag",
+                    "string",
+                    "comment",
+                    "verified",
+                ],
+            )?;
 
             // Table: component
             let mut statement =
                 connection.prepare("SELECT * FROM pragma_table_info('component');")?;
             let mut rows = statement.query([])?;
+            let mut columns = 0usize;
             while let Some(row) = rows.next()? {
+                columns += 1;
                 let cid: usize = row.get(0)?;
                 match cid {
                     0 => {
@@ -1848,12 +1887,19 @@ pub fn verify_schema(connection: &Connection) -> Result<String, SchemaError> {
                     _ => {}
                 }
             }
+            columns_exist(
+                "component",
+                columns,
+                &["rowID", "identifier", "languageTag", "comment", "added"],
+            )?;
 
             // Table: languageData
             let mut statement =
                 connection.prepare("SELECT * FROM pragma_table_info('languageData');")?;
             let mut rows = statement.query([])?;
+            let mut columns = 0usize;
             while let Some(row) = rows.next()? {
+                columns += 1;
                 let cid: usize = row.get(0)?;
                 match cid {
                     0 => {
@@ -1914,6 +1960,11 @@ pub fn verify_schema(connection: &Connection) -> Result<String, SchemaError> {
                     _ => {}
                 }
             }
+            columns_exist(
+                "languageData",
+                columns,
+                &["rowID", "component", "languageTag", "count", "ratio"],
+            )?;
         }
         _ => {
             return Err(SchemaError::Version(
@@ -1941,6 +1992,17 @@ fn table_exists(table_list: &Vec<String>, name: &str) -> Result<(), SchemaError>
     Ok(())
 }
 
+// The columns that are present are already checked to be the first ones of the required columns.
+fn columns_exist(table: &str, count: usize, required: &[&str]) -> Result<(), SchemaError> {
+    if count < required.len() {
+        return Err(SchemaError::MissingColumn(
+            table.to_string(),
+            required[count].to_string(),
+        ));
+    }
+    Ok(())
+}
+
 /// Holds the default value of the column.
 #[allow(dead_code)]
 enum DefaultValue {
-- 
2.43.0


From 5c1a8f3d3cd7ba404a7b645cb3288c44cd436a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:50 +0000
Subject: [PATCH 24/38] fix: do not panic for repository file names that are
 not unicode

---
 crates/provider/sqlite3/src/provider.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/provider/sqlite3/src/provider.rs b/crates/provider/sqlite3/src/provider.rs
index a9f7d15..b588014 100644
--- a/crates/provider/sqlite3/src/provider.rs
+++ b/crates/provider/sqlite3/src/provider.rs
@@ -139,7 +139,10 @@ impl LocalisationProviderSqlite3 {
             if let Some(extension) = entry_data.path().extension() {
                 if extension == "sqlite3" {
                     let path = entry_data.path();
-                    let component = path.file_stem().unwrap().to_str().unwrap().to_string();
+                    let Some(component) = path.file_stem().unwrap().to_str() else {
+                        return Err(ProviderSqlite3Error::PathConversion); // Not valid unicode.
+                    };
+                    let component = component.to_string();
 
                     #[cfg(logging)]
                     trace!("Sqlite3 file: {}", component);
-- 
2.43.0


From 2fbd5769c14f5957e0805cc684a7c02b7d6d4040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:17 +0000
Subject: [PATCH 25/38] fix: a wrong schema version in a directory with a
 non-unicode name is an error, not a panic

Connection::path() is None when the path is not valid unicode.
---
 crates/provider/sqlite3/src/provider.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/provider/sqlite3/src/provider.rs b/crates/provider/sqlite3/src/provider.rs
index b588014..4030bee 100644
--- a/crates/provider/sqlite3/src/provider.rs
+++ b/crates/provider/sqlite3/src/provider.rs
@@ -1971,7 +1971,7 @@ pub fn verify_schema(connection: &Connection) -> Result<String, SchemaError> {
         }
         _ => {
             return Err(SchemaError::Version(
-                connection.path().unwrap().to_string(),
+                connection.path().unwrap_or_default().to_string(),
                 "1.0".to_string(),
             ))
         }
-- 
2.43.0


From d8e3c656936033ab0ba1b9a7dc21abc1f010e4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:05 +0000
Subject: [PATCH 26/38] fix: a relative directory path beginning with `file:`
 was taken for an URI by SQLite

---
 crates/provider/sqlite3/src/provider.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/provider/sqlite3/src/provider.rs b/crates/provider/sqlite3/src/provider.rs
index 4030bee..5c99afa 100644
--- a/crates/provider/sqlite3/src/provider.rs
+++ b/crates/provider/sqlite3/src/provider.rs
@@ -138,7 +138,7 @@ impl LocalisationProviderSqlite3 {
             let entry_data = entry?; // If IO error is returned, usually it is a permission issue.
             if let Some(extension) = entry_data.path().extension() {
                 if extension == "sqlite3" {
-                    let path = entry_data.path();
+                    let path = PathBuf::from(".").join(entry_data.path()); // Else `file:` begins an URI for Sqlite3.
                     let Some(component) = path.file_stem().unwrap().to_str() else {
                         return Err(ProviderSqlite3Error::PathConversion); // Not valid unicode.
                     };
-- 
2.43.0


From 41c5541b0e4047486b6116fe43e122877176111b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:13 +0000
Subject: [PATCH 27/38] fix: name the type and variant of the error in its
 localisation data

---
 crates/lexer/src/error.rs     | 4 ++--
 crates/localiser/src/error.rs | 4 ++--
 crates/utility/src/error.rs   | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/lexer/src/error.rs b/crates/lexer/src/error.rs
index 370003c..e0819b4 100644
--- a/crates/lexer/src/error.rs
+++ b/crates/lexer/src/error.rs
@@ -155,7 +155,7 @@ impl LocalisationTrait for IcuError {
                 values.insert("type".to_string(), type_string);
                 values.insert(
                     "variant".to_string(),
-                    PlaceholderValue::String("Grapheme".to_string()),
+                    PlaceholderValue::String("Syntax".to_string()),
                 );
                 values.insert(
                     "message".to_string(),
@@ -177,7 +177,7 @@ impl LocalisationTrait for IcuError {
                 values.insert("type".to_string(), type_string);
                 values.insert(
                     "variant".to_string(),
-                    PlaceholderValue::String("Grapheme".to_string()),
+                    PlaceholderValue::String("WhiteSpace".to_string()),
                 );
                 values.insert(
                     "message".to_string(),
diff --git a/crates/localiser/src/error.rs b/crates/localiser/src/error.rs
index eb598b1..4a86b53 100644
--- a/crates/localiser/src/error.rs
+++ b/crates/localiser/src/error.rs
@@ -63,7 +63,7 @@ impl LocalisationTrait for TreeError {
                 values.insert("type".to_string(), type_string);
                 values.insert(
                     "variant".to_string(),
-                    PlaceholderValue::String("LexerError".to_string()),
+                    PlaceholderValue::String("Lexer".to_string()),
                 );
                 values.insert(
                     "error".to_string(),
@@ -290,7 +290,7 @@ impl LocalisationTrait for CommandError {
                 values.insert("type".to_string(), type_string);
                 values.insert(
                     "variant".to_string(),
-                    PlaceholderValue::String("Registry".to_string()),
+                    PlaceholderValue::String("Custom".to_string()),
                 );
                 values.insert(
                     "error".to_string(),
diff --git a/crates/utility/src/error.rs b/crates/utility/src/error.rs
index e9afd00..70d251c 100644
--- a/crates/utility/src/error.rs
+++ b/crates/utility/src/error.rs
@@ -31,7 +31,7 @@ impl LocalisationErrorTrait for RegistryError {}
 
 impl LocalisationTrait for RegistryError {
     fn localisation_data(&self) -> LocalisationData {
-        let type_string = PlaceholderValue::String("IcuError".to_string());
+        let type_string = PlaceholderValue::String("RegistryError".to_string());
         match self {
             #[cfg(not(feature = "extend"))]
             RegistryError::LanguageIdentifier(error) => {
-- 
2.43.0


From de59dc51dd9a777d352765aadce14bc7ed5faad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:13 +0000
Subject: [PATCH 28/38] fix: refer to the components and identifiers of the
 supplied error strings

---
 crates/lexer/src/error.rs     |  8 ++++----
 crates/localiser/src/error.rs | 18 +++++++++---------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/crates/lexer/src/error.rs b/crates/lexer/src/error.rs
index e0819b4..b03fb42 100644
--- a/crates/lexer/src/error.rs
+++ b/crates/lexer/src/error.rs
@@ -125,7 +125,7 @@ impl LocalisationTrait for IcuError {
 
             IcuError::Grapheme => {
                 let message = LocalisationData {
-                    component: "i18n_icu".to_string(),
+                    component: "i18n_lexer".to_string(),
                     identifier: "grapheme".to_string(),
                     values: None,
                 };
@@ -147,7 +147,7 @@ impl LocalisationTrait for IcuError {
             }
             IcuError::Syntax => {
                 let message = LocalisationData {
-                    component: "i18n_icu".to_string(),
+                    component: "i18n_lexer".to_string(),
                     identifier: "syntax".to_string(),
                     values: None,
                 };
@@ -169,7 +169,7 @@ impl LocalisationTrait for IcuError {
             }
             IcuError::WhiteSpace => {
                 let message = LocalisationData {
-                    component: "i18n_icu".to_string(),
+                    component: "i18n_lexer".to_string(),
                     identifier: "white_space".to_string(),
                     values: None,
                 };
@@ -272,7 +272,7 @@ impl LocalisationTrait for LexerError {
             LexerError::NoGrammar => {
                 let message = LocalisationData {
                     component: "i18n_lexer".to_string(),
-                    identifier: "no_grammar_syntax".to_string(),
+                    identifier: "no_grammar".to_string(),
                     values: None,
                 };
                 let mut values = HashMap::<String, PlaceholderValue>::new();
diff --git a/crates/localiser/src/error.rs b/crates/localiser/src/error.rs
index 4a86b53..df64e75 100644
--- a/crates/localiser/src/error.rs
+++ b/crates/localiser/src/error.rs
@@ -77,7 +77,7 @@ impl LocalisationTrait for TreeError {
             }
             TreeError::EndedAbruptly => {
                 let message = LocalisationData {
-                    component: "i18n_pattern".to_string(),
+                    component: "i18n_localiser".to_string(),
                     identifier: "string_ended_abruptly".to_string(),
                     values: None,
                 };
@@ -109,7 +109,7 @@ impl LocalisationTrait for TreeError {
                 );
                 message_values.insert("token".to_string(), PlaceholderValue::String(token.clone()));
                 let message = LocalisationData {
-                    component: "i18n_pattern".to_string(),
+                    component: "i18n_localiser".to_string(),
                     identifier: "invalid_token".to_string(),
                     values: Some(message_values),
                 };
@@ -136,7 +136,7 @@ impl LocalisationTrait for TreeError {
                     PlaceholderValue::String(identifier.clone()),
                 );
                 let message = LocalisationData {
-                    component: "i18n_pattern".to_string(),
+                    component: "i18n_localiser".to_string(),
                     identifier: "unique_pattern".to_string(),
                     values: Some(message_values),
                 };
@@ -163,7 +163,7 @@ impl LocalisationTrait for TreeError {
                     PlaceholderValue::Unsigned(*position as u128),
                 );
                 let message = LocalisationData {
-                    component: "i18n_pattern".to_string(),
+                    component: "i18n_localiser".to_string(),
                     identifier: "multi_number_sign".to_string(),
                     values: Some(message_values),
                 };
@@ -190,7 +190,7 @@ impl LocalisationTrait for TreeError {
                     PlaceholderValue::String(identifier.clone()),
                 );
                 let message = LocalisationData {
-                    component: "i18n_pattern".to_string(),
+                    component: "i18n_localiser".to_string(),
                     identifier: "unique_named".to_string(),
                     values: Some(message_values),
                 };
@@ -309,7 +309,7 @@ impl LocalisationTrait for CommandError {
                     PlaceholderValue::String(command.to_string()),
                 );
                 let message = LocalisationData {
-                    component: "i18n_pattern".to_string(),
+                    component: "i18n_localiser".to_string(),
                     identifier: "already_exists".to_string(),
                     values: Some(message_values),
                 };
@@ -336,7 +336,7 @@ impl LocalisationTrait for CommandError {
                     PlaceholderValue::String(command.to_string()),
                 );
                 let message = LocalisationData {
-                    component: "i18n_pattern".to_string(),
+                    component: "i18n_localiser".to_string(),
                     identifier: "command_not_found".to_string(),
                     values: Some(message_values),
                 };
@@ -367,7 +367,7 @@ impl LocalisationTrait for CommandError {
                     PlaceholderValue::Unsigned(*index as u128),
                 );
                 let message = LocalisationData {
-                    component: "i18n_pattern".to_string(),
+                    component: "i18n_localiser".to_string(),
                     identifier: "parameter_missing".to_string(),
                     values: Some(message_values),
                 };
@@ -398,7 +398,7 @@ impl LocalisationTrait for CommandError {
                     PlaceholderValue::Unsigned(*index as u128),
                 );
                 let message = LocalisationData {
-                    component: "i18n_pattern".to_string(),
+                    component: "i18n_localiser".to_string(),
                     identifier: "invalid_type".to_string(),
                     values: Some(message_values),
                 };
-- 
2.43.0


From 516ae24482606f67ecec5c1b549971336e66fed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:13 +0000
Subject: [PATCH 29/38] fix: name the values of error messages as the supplied
 error strings do

---
 crates/localiser/src/error.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/crates/localiser/src/error.rs b/crates/localiser/src/error.rs
index df64e75..dceaac3 100644
--- a/crates/localiser/src/error.rs
+++ b/crates/localiser/src/error.rs
@@ -305,7 +305,7 @@ impl LocalisationTrait for CommandError {
             CommandError::AlreadyExists(command) => {
                 let mut message_values = HashMap::<String, PlaceholderValue>::new();
                 message_values.insert(
-                    "command".to_string(),
+                    "identifier".to_string(),
                     PlaceholderValue::String(command.to_string()),
                 );
                 let message = LocalisationData {
@@ -332,7 +332,7 @@ impl LocalisationTrait for CommandError {
             CommandError::NotFound(command) => {
                 let mut message_values = HashMap::<String, PlaceholderValue>::new();
                 message_values.insert(
-                    "command".to_string(),
+                    "identifier".to_string(),
                     PlaceholderValue::String(command.to_string()),
                 );
                 let message = LocalisationData {
@@ -359,11 +359,11 @@ impl LocalisationTrait for CommandError {
             CommandError::ParameterMissing(command, index) => {
                 let mut message_values = HashMap::<String, PlaceholderValue>::new();
                 message_values.insert(
-                    "command".to_string(),
+                    "identifier".to_string(),
                     PlaceholderValue::String(command.to_string()),
                 );
                 message_values.insert(
-                    "index".to_string(),
+                    "parameter".to_string(),
                     PlaceholderValue::Unsigned(*index as u128),
                 );
                 let message = LocalisationData {
@@ -390,11 +390,11 @@ impl LocalisationTrait for CommandError {
             CommandError::InvalidType(command, index) => {
                 let mut message_values = HashMap::<String, PlaceholderValue>::new();
                 message_values.insert(
-                    "command".to_string(),
+                    "identifier".to_string(),
                     PlaceholderValue::String(command.to_string()),
                 );
                 message_values.insert(
-                    "index".to_string(),
+                    "parameter".to_string(),
                     PlaceholderValue::Unsigned(*index as u128),
                 );
                 let message = LocalisationData {
@@ -1323,7 +1323,7 @@ impl LocalisationTrait for FormatterError {
                     PlaceholderValue::String(keyword.to_string()),
                 );
                 message_values.insert(
-                    "placeholder".to_string(),
+                    "identifier".to_string(),
                     PlaceholderValue::String(placeholder.to_string()),
                 );
                 let message = LocalisationData {
@@ -1389,7 +1389,7 @@ impl LocalisationTrait for FormatterError {
                     PlaceholderValue::String(keyword.to_string()),
                 );
                 message_values.insert(
-                    "placeholder".to_string(),
+                    "identifier".to_string(),
                     PlaceholderValue::String(placeholder.to_string()),
                 );
                 let message = LocalisationData {
@@ -1451,7 +1451,7 @@ impl LocalisationTrait for FormatterError {
                     PlaceholderValue::String(keyword.to_string()),
                 );
                 message_values.insert(
-                    "placeholder".to_string(),
+                    "identifier".to_string(),
                     PlaceholderValue::String(placeholder.to_string()),
                 );
                 let message = LocalisationData {
@@ -1478,7 +1478,7 @@ impl LocalisationTrait for FormatterError {
             FormatterError::InvalidSelector(option, keyword, placeholder) => {
                 let mut message_values = HashMap::<String, PlaceholderValue>::new();
                 message_values.insert(
-                    "option".to_string(),
+                    "selector".to_string(),
                     PlaceholderValue::String(option.to_string()),
                 );
                 message_values.insert(
@@ -1486,7 +1486,7 @@ impl LocalisationTrait for FormatterError {
                     PlaceholderValue::String(keyword.to_string()),
                 );
                 message_values.insert(
-                    "placeholder".to_string(),
+                    "identifier".to_string(),
                     PlaceholderValue::String(placeholder.to_string()),
                 );
                 let message = LocalisationData {
-- 
2.43.0


From 146ebf80b7eab8572ac388386151d9539a7ca8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:13 +0000
Subject: [PATCH 30/38] fix: give the numbers of error messages as text, as
 their string patterns require

---
 crates/localiser/src/error.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/localiser/src/error.rs b/crates/localiser/src/error.rs
index dceaac3..192e959 100644
--- a/crates/localiser/src/error.rs
+++ b/crates/localiser/src/error.rs
@@ -105,7 +105,7 @@ impl LocalisationTrait for TreeError {
                 );
                 message_values.insert(
                     "position".to_string(),
-                    PlaceholderValue::Unsigned(*position as u128),
+                    PlaceholderValue::String(position.to_string()),
                 );
                 message_values.insert("token".to_string(), PlaceholderValue::String(token.clone()));
                 let message = LocalisationData {
@@ -160,7 +160,7 @@ impl LocalisationTrait for TreeError {
                 let mut message_values = HashMap::<String, PlaceholderValue>::new();
                 message_values.insert(
                     "position".to_string(),
-                    PlaceholderValue::Unsigned(*position as u128),
+                    PlaceholderValue::String(position.to_string()),
                 );
                 let message = LocalisationData {
                     component: "i18n_localiser".to_string(),
@@ -364,7 +364,7 @@ impl LocalisationTrait for CommandError {
                 );
                 message_values.insert(
                     "parameter".to_string(),
-                    PlaceholderValue::Unsigned(*index as u128),
+                    PlaceholderValue::String(index.to_string()),
                 );
                 let message = LocalisationData {
                     component: "i18n_localiser".to_string(),
@@ -395,7 +395,7 @@ impl LocalisationTrait for CommandError {
                 );
                 message_values.insert(
                     "parameter".to_string(),
-                    PlaceholderValue::Unsigned(*index as u128),
+                    PlaceholderValue::String(index.to_string()),
                 );
                 let message = LocalisationData {
                     component: "i18n_localiser".to_string(),
@@ -1258,7 +1258,7 @@ impl LocalisationTrait for FormatterError {
                 );
                 message_values.insert(
                     "index".to_string(),
-                    PlaceholderValue::Unsigned(*index as u128),
+                    PlaceholderValue::String(index.to_string()),
                 );
                 let message = LocalisationData {
                     component: "i18n_localiser".to_string(),
@@ -1514,7 +1514,7 @@ impl LocalisationTrait for FormatterError {
                 let mut message_values = HashMap::<String, PlaceholderValue>::new();
                 message_values.insert(
                     "index".to_string(),
-                    PlaceholderValue::Unsigned(*index as u128),
+                    PlaceholderValue::String(index.to_string()),
                 );
                 let message = LocalisationData {
                     component: "i18n_localiser".to_string(),
@@ -1541,7 +1541,7 @@ impl LocalisationTrait for FormatterError {
                 let mut message_values = HashMap::<String, PlaceholderValue>::new();
                 message_values.insert(
                     "index".to_string(),
-                    PlaceholderValue::Unsigned(*index as u128),
+                    PlaceholderValue::String(index.to_string()),
                 );
                 let message = LocalisationData {
                     component: "i18n_localiser".to_string(),
@@ -1572,7 +1572,7 @@ impl LocalisationTrait for FormatterError {
                 );
                 message_values.insert(
                     "index".to_string(),
-                    PlaceholderValue::Unsigned(*index as u128),
+                    PlaceholderValue::String(index.to_string()),
                 );
                 let message = LocalisationData {
                     component: "i18n_localiser".to_string(),
-- 
2.43.0


From e83bf28f73a74f248eeecb85e58536f98e4eb077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:27 +0000
Subject: [PATCH 31/38] fix: correct the component and placeholder names of the
 supplied error strings

---
 crates/lexer/l10n/i18n_lexer.sqlite3         | Bin 57344 -> 57344 bytes
 crates/localiser/l10n/i18n_localiser.sqlite3 | Bin 73728 -> 73728 bytes
 2 files changed, 0 insertions(+), 0 deletions(-)

diff --git a/crates/lexer/l10n/i18n_lexer.sqlite3 b/crates/lexer/l10n/i18n_lexer.sqlite3
index 624a48a3165869a6e5610ccba24c16fc99d7c62a..fc57b914ba34c6ecba04aef4e82e47f07ada1639 100644
GIT binary patch
delta 265
zcmZoTz}#?vd4e<}`$QRMR(1xxvd)bu@$!s$n~%tw3IM5J`ZIvM$&>x{8S@q&_6G`0
zJ`%44lz1M0!yiZ;Sg#EdJFs44(}7dmK-PnMB9rf*wgR&L-xHr~c*YaRsy>qrBp;v2
z0g?e{bAjZ(v&npU@j0m#sYU5Ui3J&{xswyl8cdEqXAG3wa9?cl%5xyaV&_YNcJ!PN
z<_B^f+>-;6|L-XRNyYmzK+^6$$Zc`=Wr1YPeF+&<6H_xwSQJ<lmBkq|4J|;XDgc#T
Pye}<+rYtp2H_8zJQl4yQ

delta 265
zcmZoTz}#?vd4e<}+e8^>RyGE`v{xHb;^i5WHXo5U6#!Dd^k)EhlPCM@GbSxQ><<*0
zd?a28DDgc0hCh%xuwEM^c3{28rUR$AfvgAjL?+)qZ3Sfgzb8J~@Qf#rRedHMNIpK3
z10(~^<^sumXOsDo;&W0fQj5}y5(_d?b0;U9HJBWK&KM}U;l9}9mFGZ;#m<)k?dUll
z%n#%|xF-iB|KC#tl8X0bfTZ1hklW(!%L2)o`w}v!CZ=YVuqd!9DvL8_8d`u%RRAix
PcwbrsO<8K5Zj>Vc>*H%?

diff --git a/crates/localiser/l10n/i18n_localiser.sqlite3 b/crates/localiser/l10n/i18n_localiser.sqlite3
index 631fa164db468629e47c614e5d5f0a7b958ff301..7cf83f9f42e15d84346763655328f420eda0968e 100644
GIT binary patch
delta 146
zcmZoTz|wGlWr8##`$QRMR(1xxvd)bui{CS{Z07jD!N{p>z{#MgE7+Jj`QS&1$%a78
z^M!Xh6Cb1K<lK*5ObiU0w|`v6!{sLlQYPLQpFRB`FQfS6wtq^KJr40s-u|xvsAjVH
w{|k(aTR9llGIExC09EP>HVRMQ$H*8o{QwiAIES&Wfw``M3Bz`MCdP}h0JXL)+5i9m

delta 153
zcmZoTz|wGlWr8##+e8^>RyGE`v{xHb7Qbg?*v#>PgOO9!fRjN}SFo{g^1+W1lMR8G
z^Bn)=u#fSZw|`v6!xbP2k``}F&Ypgdmr;Cj+drkr>}UBWZ~fOW+5G<nMux2%jB6P=
zD?EV8^aUG5r|)BA43e+P%+E`$RY*zA$w^cwE-A{)OHb4@GB7gMH89sTFxjrp#CTB_
E04#nqR{#J2

-- 
2.43.0


From b1d8fc220c1ba2d81550698c6e06d03d066889ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:13 +0000
Subject: [PATCH 32/38] fix: localise the errors of the localiser and of the
 parser within formatting errors

---
 crates/localiser/src/error.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/localiser/src/error.rs b/crates/localiser/src/error.rs
index 192e959..8f11319 100644
--- a/crates/localiser/src/error.rs
+++ b/crates/localiser/src/error.rs
@@ -812,7 +812,6 @@ impl LocalisationTrait for FormatterError {
         let type_string = PlaceholderValue::String("FormatterError".to_string());
         match self {
             FormatterError::Localiser(ref error) => {
-                // Currently no localisation is available for this error type: ParserError.
                 let mut values = HashMap::<String, PlaceholderValue>::new();
                 values.insert("type".to_string(), type_string);
                 values.insert(
@@ -821,7 +820,7 @@ impl LocalisationTrait for FormatterError {
                 );
                 values.insert(
                     "error".to_string(),
-                    PlaceholderValue::String(error.to_string()),
+                    PlaceholderValue::LocalisationData(error.localisation_data()),
                 );
                 LocalisationData {
                     component: "i18n_localiser".to_string(),
@@ -830,7 +829,6 @@ impl LocalisationTrait for FormatterError {
                 }
             }
             FormatterError::Tree(ref error) => {
-                // Currently no localisation is available for this error type: ParserError.
                 let mut values = HashMap::<String, PlaceholderValue>::new();
                 values.insert("type".to_string(), type_string);
                 values.insert(
@@ -839,7 +837,7 @@ impl LocalisationTrait for FormatterError {
                 );
                 values.insert(
                     "error".to_string(),
-                    PlaceholderValue::String(error.to_string()),
+                    PlaceholderValue::LocalisationData(error.localisation_data()),
                 );
                 LocalisationData {
                     component: "i18n_localiser".to_string(),
-- 
2.43.0


From 4e5fcb569482d8a756d3a90c8e4866dc0617e4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:13 +0000
Subject: [PATCH 33/38] fix: Armenian, Khojki, Kannada, Kaithi and Todhri are
 written from left to right

---
 crates/localiser/src/script.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/localiser/src/script.rs b/crates/localiser/src/script.rs
index cbc06da..314b999 100644
--- a/crates/localiser/src/script.rs
+++ b/crates/localiser/src/script.rs
@@ -55,7 +55,7 @@ impl DataProvider {
             "Armn".to_string(),
             ScriptData {
                 category: Category::Alphabetic,
-                directions: vec![ScriptDirection::TopToBottomRightToLeft],
+                directions: vec![ScriptDirection::TopToBottomLeftToRight],
                 historic: false,
             },
         );
@@ -655,7 +655,7 @@ impl DataProvider {
             "Khoj".to_string(),
             ScriptData {
                 category: Category::Abugida,
-                directions: vec![ScriptDirection::TopToBottomRightToLeft],
+                directions: vec![ScriptDirection::TopToBottomLeftToRight],
                 historic: true,
             },
         );
@@ -671,7 +671,7 @@ impl DataProvider {
             "Knda".to_string(),
             ScriptData {
                 category: Category::Abugida,
-                directions: vec![ScriptDirection::TopToBottomRightToLeft],
+                directions: vec![ScriptDirection::TopToBottomLeftToRight],
                 historic: true,
             },
         );
@@ -699,7 +699,7 @@ impl DataProvider {
             "Kthi".to_string(),
             ScriptData {
                 category: Category::Abugida,
-                directions: vec![ScriptDirection::TopToBottomRightToLeft],
+                directions: vec![ScriptDirection::TopToBottomLeftToRight],
                 historic: true,
             },
         );
@@ -1484,7 +1484,7 @@ impl DataProvider {
             "Todr".to_string(),
             ScriptData {
                 category: Category::Alphabetic,
-                directions: vec![ScriptDirection::TopToBottomRightToLeft],
+                directions: vec![ScriptDirection::TopToBottomLeftToRight],
                 historic: false,
             },
         );
-- 
2.43.0


From 3ffef4377a92b8daef9a4841eece1f92da3f40d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:13 +0000
Subject: [PATCH 34/38] fix: script data of Yi was missing, its entry replaced
 the one of Yezidi

---
 crates/localiser/src/script.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/localiser/src/script.rs b/crates/localiser/src/script.rs
index 314b999..77f37f1 100644
--- a/crates/localiser/src/script.rs
+++ b/crates/localiser/src/script.rs
@@ -1569,10 +1569,10 @@ impl DataProvider {
             },
         );
         data.insert(
-            "Yezi".to_string(),
+            "Yiii".to_string(),
             ScriptData {
                 category: Category::Syllabic,
-                directions: vec![ScriptDirection::TopToBottomRightToLeft],
+                directions: vec![ScriptDirection::TopToBottomLeftToRight],
                 historic: false,
             },
         );
-- 
2.43.0


From 988c25a131234d7a642d28577eab8f17d0fe808f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:13 +0000
Subject: [PATCH 35/38] fix: tag registry gave different instances of a tag to
 threads requesting it at the same time

---
 crates/utility/src/language.rs | 39 +++++++---------------------------
 1 file changed, 8 insertions(+), 31 deletions(-)

diff --git a/crates/utility/src/language.rs b/crates/utility/src/language.rs
index e2a3033..b495127 100644
--- a/crates/utility/src/language.rs
+++ b/crates/utility/src/language.rs
@@ -180,29 +180,18 @@ impl LanguageTagRegistry {
         // Requested tag is not in registry, validate the supplied tag.
         let new_tag = IcuLanguage::canonicalize(language_tag)?;
 
-        // Check if requested tag is just another deprecated tag of already registered tag.
-        {
+        // Add the tag to the registry, unless the requested tag is just another deprecated tag of
+        // already registered tag, or another thread has added the tag since the search.
+        let rc_new_tag = {
             #[cfg(not(feature = "sync"))]
-            if let Some(result) = self.tags.borrow().get(&new_tag) {
-                self.deprecated
-                    .borrow_mut()
-                    .insert(language_tag.to_string(), RefCount::clone(result));
-                return Ok(RefCount::clone(result));
-            }
+            let mut binding = self.tags.borrow_mut();
 
             #[cfg(feature = "sync")]
-            if let Some(result) = self.tags.lock().unwrap().get(&new_tag) {
-                self.deprecated
-                    .lock()
-                    .unwrap()
-                    .insert(language_tag.to_string(), RefCount::clone(result));
-                return Ok(RefCount::clone(result));
-            }
-        }
+            let mut binding = self.tags.lock().unwrap();
 
-        // Requested tag is not in tags or deprecated, add to registry and return reference counted
-        // tag.
-        let rc_new_tag = RefCount::new(LanguageTag { tag: new_tag });
+            let tag = RefCount::new(LanguageTag { tag: new_tag });
+            RefCount::clone(binding.entry(tag.as_str().to_string()).or_insert(tag))
+        };
         if language_tag != rc_new_tag.as_str() {
             #[cfg(not(feature = "sync"))]
             self.deprecated
@@ -216,18 +205,6 @@ impl LanguageTagRegistry {
                 .insert(language_tag.to_string(), RefCount::clone(&rc_new_tag));
         }
 
-        #[cfg(not(feature = "sync"))]
-        self.tags.borrow_mut().insert(
-            rc_new_tag.as_str().to_string(),
-            RefCount::clone(&rc_new_tag),
-        );
-
-        #[cfg(feature = "sync")]
-        self.tags.lock().unwrap().insert(
-            rc_new_tag.as_str().to_string(),
-            RefCount::clone(&rc_new_tag),
-        );
-
         Ok(RefCount::clone(&rc_new_tag))
     }
 
-- 
2.43.0


From 6750d11ab05abbf63edce500e8e3705c40f31ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:13 +0000
Subject: [PATCH 36/38] fix: command registry could not be shared between
 threads with feature sync

---
 crates/localiser/src/command.rs | 41 ++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/crates/localiser/src/command.rs b/crates/localiser/src/command.rs
index 143be23..862d9f8 100644
--- a/crates/localiser/src/command.rs
+++ b/crates/localiser/src/command.rs
@@ -3,12 +3,17 @@
 
 use crate::CommandError;
 use i18n_utility::PlaceholderValue;
-use std::cell::RefCell;
+#[cfg(not(feature = "sync"))]
+use std::cell::RefCell as MutCell;
 use std::collections::HashMap;
 use std::iter::FromIterator;
 use std::path::PathBuf;
 use std::str::FromStr;
 
+#[cfg(feature = "sync")]
+#[cfg(target_has_atomic = "ptr")]
+use std::sync::Mutex as MutCell;
+
 /// Registry for pattern commands callback functions.
 ///
 /// # Examples
@@ -32,7 +37,7 @@ use std::str::FromStr;
 /// ```
 #[allow(clippy::type_complexity)]
 pub struct CommandRegistry {
-    registry: RefCell<HashMap<String, fn(Vec<PlaceholderValue>) -> Result<String, CommandError>>>,
+    registry: MutCell<HashMap<String, fn(Vec<PlaceholderValue>) -> Result<String, CommandError>>>,
 }
 
 impl CommandRegistry {
@@ -59,7 +64,7 @@ impl CommandRegistry {
     /// ```
     pub fn new() -> Self {
         CommandRegistry {
-            registry: RefCell::new(HashMap::<
+            registry: MutCell::new(HashMap::<
                 String,
                 fn(Vec<PlaceholderValue>) -> Result<String, CommandError>,
             >::new()),
@@ -97,14 +102,17 @@ impl CommandRegistry {
         command: &str, //T,
         function: fn(Vec<PlaceholderValue>) -> Result<String, CommandError>,
     ) -> Result<(), CommandError> {
-        {
-            if self.registry.borrow().contains_key(command) {
-                return Err(CommandError::AlreadyExists(command.to_string()));
-            }
+        #[cfg(not(feature = "sync"))]
+        let mut binding = self.registry.borrow_mut();
+
+        // The lock is held till the command is inserted, as another thread may insert the same command.
+        #[cfg(feature = "sync")]
+        let mut binding = self.registry.lock().unwrap();
+
+        if binding.contains_key(command) {
+            return Err(CommandError::AlreadyExists(command.to_string()));
         }
-        self.registry
-            .borrow_mut()
-            .insert(command.to_string(), function);
+        binding.insert(command.to_string(), function);
         Ok(())
     }
 
@@ -135,7 +143,12 @@ impl CommandRegistry {
         &self,
         command: &str, //T,
     ) -> Result<fn(Vec<PlaceholderValue>) -> Result<String, CommandError>, CommandError> {
+        #[cfg(not(feature = "sync"))]
         let binding = self.registry.borrow();
+
+        #[cfg(feature = "sync")]
+        let binding = self.registry.lock().unwrap();
+
         let Some(result) = binding.get(command) else {
             return Err(CommandError::NotFound(command.to_string()));
         };
@@ -159,7 +172,13 @@ impl CommandRegistry {
     /// }
     /// ```
     pub fn list(&self) -> Vec<String> {
-        Vec::from_iter(self.registry.borrow().keys().map(|x| x.to_string()))
+        #[cfg(not(feature = "sync"))]
+        let binding = self.registry.borrow();
+
+        #[cfg(feature = "sync")]
+        let binding = self.registry.lock().unwrap();
+
+        Vec::from_iter(binding.keys().map(|x| x.to_string()))
     }
 }
 
-- 
2.43.0


From fa5e88985f7eb76119a5b4597167d59de66ef87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:13 +0000
Subject: [PATCH 37/38] fix: localiser could not be shared between threads with
 feature sync

---
 crates/provider/core/src/provider.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/crates/provider/core/src/provider.rs b/crates/provider/core/src/provider.rs
index 5a20351..eeae40c 100644
--- a/crates/provider/core/src/provider.rs
+++ b/crates/provider/core/src/provider.rs
@@ -12,6 +12,20 @@ use std::rc::Rc as RefCount;
 #[cfg(target_has_atomic = "ptr")]
 use std::sync::Arc as RefCount;
 
+/// Bounds of the provider: with the feature `sync` a provider must be shareable between threads.
+#[cfg(feature = "sync")]
+pub trait ProviderBounds: Send + Sync {}
+
+#[cfg(feature = "sync")]
+impl<T: Send + Sync> ProviderBounds for T {}
+
+/// Bounds of the provider: with the feature `sync` a provider must be shareable between threads.
+#[cfg(not(feature = "sync"))]
+pub trait ProviderBounds {}
+
+#[cfg(not(feature = "sync"))]
+impl<T> ProviderBounds for T {}
+
 /// A trait for retrieving language strings from a localisation data repository via a provider that implements the
 /// trait methods: `strings()` and `string()`. In addition, there are other trait methods for retrieving the default
 /// language for a component, and supported languages for entire repository, component and identifier
@@ -31,7 +45,7 @@ use std::sync::Arc as RefCount;
 /// data store.
 ///
 /// [UAX #31]: https://www.unicode.org/reports/tr31/
-pub trait LocalisationProviderTrait {
+pub trait LocalisationProviderTrait: ProviderBounds {
     fn string(
         &self,
         component: &str,
-- 
2.43.0


From 155137e09bf5690d196a84130326d45955f8b4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:13 +0000
Subject: [PATCH 38/38] fix: caching threads replaced the cache of a language
 of each other, and panicked

---
 crates/localiser/src/localiser.rs | 111 +++++++-----------------------
 1 file changed, 25 insertions(+), 86 deletions(-)

diff --git a/crates/localiser/src/localiser.rs b/crates/localiser/src/localiser.rs
index 2f38a55..8e48333 100644
--- a/crates/localiser/src/localiser.rs
+++ b/crates/localiser/src/localiser.rs
@@ -954,7 +954,6 @@ impl Localiser {
             false,
             fallback,
         );
-        let mut _language_entry = false;
         {
             #[cfg(not(feature = "sync"))]
             let binding = self.cache.borrow();
@@ -963,7 +962,6 @@ impl Localiser {
             let binding = self.cache.read().unwrap();
 
             if let Some(result) = binding.get(language_tag) {
-                _language_entry = true;
                 if let Some(result2) = result.get(&combined) {
                     return match result2 {
                         CacheData::Localised(string, tag) => {
@@ -1040,13 +1038,7 @@ impl Localiser {
         if localised.0.is_empty() {
             let string = RefCount::new(localised.0);
             if caching {
-                self.add_string_to_cache(
-                    _language_entry,
-                    combined,
-                    &string,
-                    language_tag,
-                    &localised.1,
-                );
+                self.add_string_to_cache(combined, &string, language_tag, &localised.1);
                 return Ok((string, localised.1));
             }
             return Ok((string, localised.1));
@@ -1058,13 +1050,7 @@ impl Localiser {
                     // No grammar syntax was found, thus a literal string.
                     let string = RefCount::new(localised.0);
                     if caching {
-                        self.add_string_to_cache(
-                            _language_entry,
-                            combined,
-                            &string,
-                            language_tag,
-                            &localised.1,
-                        );
+                        self.add_string_to_cache(combined, &string, language_tag, &localised.1);
                         return Ok((string, localised.1));
                     }
                     return Ok((string, localised.1));
@@ -1084,36 +1070,18 @@ impl Localiser {
             #[cfg(feature = "logging")]
             debug!("Caching formatting string.");
 
-            if !_language_entry {
-                let mut data_entry = HashMap::<CacheKey, CacheData>::new();
-                data_entry.insert(
-                    combined.clone(),
-                    CacheData::Formatter(MutCell::new(formatter)),
-                );
-
-                #[cfg(not(feature = "sync"))]
-                self.cache
-                    .borrow_mut()
-                    .insert(RefCount::clone(language_tag), data_entry);
-
-                #[cfg(feature = "sync")]
-                self.cache
-                    .write()
-                    .unwrap()
-                    .insert(RefCount::clone(language_tag), data_entry);
-            } else {
-                #[cfg(not(feature = "sync"))]
-                let mut binding = self.cache.borrow_mut();
-
-                #[cfg(feature = "sync")]
-                let mut binding = self.cache.write().unwrap();
-
-                let data_entry = binding.get_mut(language_tag);
-                data_entry.unwrap().insert(
-                    combined.clone(),
-                    CacheData::Formatter(MutCell::new(formatter)),
-                );
-            }
+            #[cfg(not(feature = "sync"))]
+            let mut binding = self.cache.borrow_mut();
+
+            #[cfg(feature = "sync")]
+            let mut binding = self.cache.write().unwrap();
+
+            // Another thread may have added the language since the search.
+            let data_entry = binding.entry(RefCount::clone(language_tag)).or_default();
+            data_entry.insert(
+                combined.clone(),
+                CacheData::Formatter(MutCell::new(formatter)),
+            );
         }
 
         // Get `Formatter` and use it to get the (String, RefCount<LanguageTag>).
@@ -1161,7 +1129,6 @@ impl Localiser {
             true,
             fallback,
         );
-        let mut _language_entry = false;
         {
             #[cfg(not(feature = "sync"))]
             let binding = self.cache.borrow();
@@ -1170,7 +1137,6 @@ impl Localiser {
             let binding = self.cache.read().unwrap();
 
             if let Some(result) = binding.get(language_tag) {
-                _language_entry = true;
                 if let Some(result2) = result.get(&combined) {
                     return match result2 {
                         CacheData::Localised(string, tag) => {
@@ -1227,13 +1193,7 @@ impl Localiser {
         // Since pattern string is treated as literal, simply cache (if allowed) and return the string.
         let string = RefCount::new(localised.0);
         if caching {
-            self.add_string_to_cache(
-                _language_entry,
-                combined,
-                &string,
-                language_tag,
-                &localised.1,
-            );
+            self.add_string_to_cache(combined, &string, language_tag, &localised.1);
         }
         Ok((string, RefCount::clone(&localised.1)))
     }
@@ -1287,7 +1247,6 @@ impl Localiser {
 
     fn add_string_to_cache(
         &self,
-        language_exists: bool,
         combined: CacheKey,
         string: &RefCount<String>,
         language_tag: &RefCount<LanguageTag>, // Requested language tag
@@ -1296,38 +1255,18 @@ impl Localiser {
         #[cfg(feature = "logging")]
         debug!("Caching literal string.");
 
-        if !language_exists {
-            // Language tag does not exist in cache
-            let mut data_entry = HashMap::<CacheKey, CacheData>::new();
-            data_entry.insert(
-                combined,
-                CacheData::Localised(RefCount::clone(string), RefCount::clone(tag)),
-            );
-
-            #[cfg(not(feature = "sync"))]
-            self.cache
-                .borrow_mut()
-                .insert(RefCount::clone(language_tag), data_entry);
-
-            #[cfg(feature = "sync")]
-            self.cache
-                .write()
-                .unwrap()
-                .insert(RefCount::clone(language_tag), data_entry);
-        } else {
-            // Language tag does exist in cache
-            #[cfg(not(feature = "sync"))]
-            let mut binding = self.cache.borrow_mut();
+        #[cfg(not(feature = "sync"))]
+        let mut binding = self.cache.borrow_mut();
 
-            #[cfg(feature = "sync")]
-            let mut binding = self.cache.write().unwrap();
+        #[cfg(feature = "sync")]
+        let mut binding = self.cache.write().unwrap();
 
-            let data_entry = binding.get_mut(language_tag);
-            data_entry.unwrap().insert(
-                combined,
-                CacheData::Localised(RefCount::clone(string), RefCount::clone(tag)),
-            );
-        }
+        // Another thread may have added the language since the search.
+        let data_entry = binding.entry(RefCount::clone(language_tag)).or_default();
+        data_entry.insert(
+            combined,
+            CacheData::Localised(RefCount::clone(string), RefCount::clone(tag)),
+        );
     }
 }
 
-- 
2.43.0

