From ae17e4e38d4852302c7daeaa392dfa24a2450fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:09 +0000
Subject: [PATCH 01/93] fix: a 'use strict' directive puts the parser into
 strict mode

---
 src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 803564b..03f6023 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -527,8 +527,12 @@ where
         let expr = self.parse_expression()?;
         if let Expr::Literal(lit) = expr {
             if let Literal::String(s) = lit {
-                if !self.context.allow_strict_directive && s == "use strict" {
-                    return self.unexpected_token_error(&orig, "use strict in an invalid location");
+                if s == "'use strict'" || s == "\"use strict\"" {
+                    if !self.context.allow_strict_directive {
+                        return self
+                            .unexpected_token_error(&orig, "use strict in an invalid location");
+                    }
+                    self.context.strict = true;
                 }
                 self.consume_semicolon()?;
                 return Ok(ProgramPart::Dir(Dir {
-- 
2.43.0


From 987d5da2b041ab830dd6d9e06512d67621d0664d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:09 +0000
Subject: [PATCH 02/93] fix: function expressions restore
 allow_strict_directive on exit

---
 src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 03f6023..8157a27 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2761,7 +2761,8 @@ where
         let formal_params = self.parse_formal_params()?;
         found_restricted = found_restricted || formal_params.found_restricted;
         let prev_strict = self.context.strict;
-        let prev_strict_dir = formal_params.simple;
+        let prev_allow_strict = self.context.allow_strict_directive;
+        self.context.allow_strict_directive = formal_params.simple;
         let start = self.look_ahead.clone();
         let body = self.parse_function_source_el()?;
         if self.context.strict && found_restricted {
@@ -2771,7 +2772,7 @@ where
             }
         }
         self.context.strict = prev_strict;
-        self.context.allow_strict_directive = prev_strict_dir;
+        self.context.allow_strict_directive = prev_allow_strict;
         self.context.allow_yield = prev_yield;
         self.context.r#await = prev_await;
         let func = Function {
-- 
2.43.0


From 7e4e35d60061379db48f3c70f2a540938f296c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:09 +0000
Subject: [PATCH 03/93] fix: a line terminator after return ends the statement

---
 src/lib.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8157a27..1a2d74e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1138,9 +1138,8 @@ where
         }
         self.expect_keyword(Keyword::Return)?;
         // if we are at a semi-colon,or close curly brace or eof
-        //the return doesn't have an arg. If we are at a line term
-        //we need to account for a string literal or template literal
-        //since they both can have new lines
+        //the return doesn't have an arg. A line terminator
+        //after `return` always ends the statement
 
         let ret = if self.at_return_arg() {
             Some(self.parse_expression()?)
@@ -4261,10 +4260,8 @@ where
     }
 
     fn at_return_arg(&self) -> bool {
-        if self.context.has_line_term {
-            return self.look_ahead.is_string() || self.look_ahead.is_template();
-        }
-        !self.at_punct(Punct::SemiColon)
+        !self.context.has_line_term
+            && !self.at_punct(Punct::SemiColon)
             && !self.at_punct(Punct::CloseBrace)
             && !self.look_ahead.is_eof()
     }
-- 
2.43.0


From b8a4b1511fccab5519a646ae1527c84e24841c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:09 +0000
Subject: [PATCH 04/93] fix: reject a line terminator between throw and its
 argument

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1a2d74e..4ac735d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1067,7 +1067,8 @@ where
         debug!("parse_throw_stmt");
         self.expect_keyword(Keyword::Throw)?;
         if self.context.has_line_term {
-            //error: no new line allowed after throw
+            return self
+                .unexpected_token_error(&self.look_ahead, "no new line allowed after throw");
         }
         let arg = self.parse_expression()?;
         self.consume_semicolon()?;
-- 
2.43.0


From 2b49f55e1d1a0ba309d5c0ae6f7663dae40eb6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:09 +0000
Subject: [PATCH 05/93] fix: reject a try statement with neither catch nor
 finally

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4ac735d..332fac7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1029,7 +1029,7 @@ where
             None
         };
         if handler.is_none() && finalizer.is_none() {
-            //error: one or the other must be declared
+            return self.expected_token_error(&self.look_ahead, &["catch", "finally"]);
         }
         Ok(TryStmt {
             block,
-- 
2.43.0


From 88d37206d8b6fd7ef0831c1af7d78cc228c0c90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:09 +0000
Subject: [PATCH 06/93] fix: propagate token errors after `as` in import
 specifiers

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 332fac7..220149f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -700,7 +700,7 @@ where
         let (imported, local) = if self.look_ahead.token.is_ident() {
             let imported = self.parse_var_ident(false)?;
             let local = if self.at_contextual_keyword("as") {
-                let _ = self.next_item();
+                let _ = self.next_item()?;
                 Some(self.parse_var_ident(false)?)
             } else {
                 None
-- 
2.43.0


From 4f0f91ee45699aaa22622243c2efe48d0cf387b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:03 +0000
Subject: [PATCH 07/93] fix: keep the superclass of an anonymous class

---
 src/lib.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 220149f..8752a86 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1800,15 +1800,13 @@ where
         } else {
             Some(self.parse_var_ident(false)?)
         };
-        super_class = if super_class.is_none() && self.at_contextual_keyword("extends") {
+        if super_class.is_none() && self.at_contextual_keyword("extends") {
             let _ = self.next_item()?;
             let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
-            let super_class = self.parse_left_hand_side_expr()?;
+            let expr = self.parse_left_hand_side_expr()?;
             self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
-            Some(Box::new(super_class))
-        } else {
-            None
-        };
+            super_class = Some(Box::new(expr));
+        }
         let body = self.parse_class_body()?;
 
         self.context.strict = prev_strict;
-- 
2.43.0


From d367d4a811a0c2a80418cdf6ac5d382f10a2b584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:03 +0000
Subject: [PATCH 08/93] fix: class getters restore allow_yield on exit

---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 8752a86..3e9b504 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1901,9 +1901,11 @@ where
             if at_get {
                 kind = Some(PropertyKind::Get);
                 computed = self.at_punct(Punct::OpenBracket);
+                let prev_yield = self.context.allow_yield;
                 self.context.allow_yield = false;
                 key = Some(self.parse_object_property_key()?);
                 value = Some(self.parse_getter_method()?);
+                self.context.allow_yield = prev_yield;
             } else if at_set {
                 kind = Some(PropertyKind::Set);
                 computed = self.at_punct(Punct::OpenBracket);
-- 
2.43.0


From 2923a8d36287ada8606814f26f8e180eca37c124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:03 +0000
Subject: [PATCH 09/93] fix: a line terminator before a comment still counts
 for the next token

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3e9b504..6e47049 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4164,8 +4164,9 @@ where
     /// and return the last token
     fn next_item(&mut self) -> Res<Item> {
         let mut look_ahead_span = self.look_ahead.span;
+        self.context.has_line_term = false;
         loop {
-            self.context.has_line_term = self.scanner.pending_new_line;
+            self.context.has_line_term |= self.scanner.pending_new_line;
             if let Some(look_ahead) = self.scanner.next() {
                 if cfg!(feature = "debug_look_ahead") {
                     self._look_ahead = format!("{:?}: {:?}", look_ahead.token, self.scanner.string_for(&look_ahead.span));
-- 
2.43.0


From c83a4120281cf37c21843ef68f225998308b558a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:34 +0000
Subject: [PATCH 10/93] fix: peeking past the look-ahead leaves the scanner as
 it was found

---
 src/lib.rs | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6e47049..198020b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4268,18 +4268,28 @@ where
             && !self.look_ahead.is_eof()
     }
 
+    /// the first non-comment token after `look_ahead`,
+    /// the scanner is left exactly as it was found
+    fn peek_item(&mut self) -> Option<Item> {
+        let state = self.scanner.get_state();
+        let eof = self.scanner.eof;
+        let pending_new_line = self.scanner.pending_new_line;
+        self.scanner.skip_comments();
+        let next = self.scanner.next();
+        self.scanner.set_state(state);
+        self.scanner.eof = eof;
+        self.scanner.pending_new_line = pending_new_line;
+        next
+    }
+
     fn at_import_call(&mut self) -> bool {
         debug!("at_import_call");
         if self.at_keyword(Keyword::Import) {
-            let state = self.scanner.get_state();
-            self.scanner.skip_comments();
-            let ret = if let Some(next) = self.scanner.next() {
+            if let Some(next) = self.peek_item() {
                 next.token.matches_punct(&Punct::OpenParen)
             } else {
                 false
-            };
-            self.scanner.set_state(state);
-            ret
+            }
         } else {
             false
         }
@@ -4303,9 +4313,7 @@ where
     /// must be an identifier, `let`, `yield`
     /// `{`, or `[`
     fn at_lexical_decl(&mut self) -> bool {
-        let state = self.scanner.get_state();
-        self.scanner.skip_comments();
-        let ret = if let Some(next) = self.scanner.next() {
+        if let Some(next) = self.peek_item() {
             next.token.is_ident()
                 || next.token.matches_punct(&Punct::OpenBracket)
                 || next.token.matches_punct(&Punct::OpenBrace)
@@ -4313,9 +4321,7 @@ where
                 || next.token.matches_keyword(&Keyword::Yield)
         } else {
             false
-        };
-        self.scanner.set_state(state);
-        ret
+        }
     }
     /// Test for if the next token is a specific punct
     fn at_punct(&self, p: Punct) -> bool {
@@ -4361,7 +4367,7 @@ where
     fn at_async_function(&mut self) -> bool {
         debug!("at_async_function");
         if self.at_contextual_keyword("async") {
-            if let Some(peek) = self.scanner.look_ahead() {
+            if let Some(peek) = self.peek_item() {
                 debug!("peeking ahead {:?}", peek);
                 let pos = self.look_ahead_position;
                 let next_pos = self.get_item_position(&peek);
-- 
2.43.0


From 3d4781502a7dae750dc7dabb9eab1671b832530b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:34 +0000
Subject: [PATCH 11/93] fix: export * requires from before the module specifier

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 198020b..0e68316 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -775,7 +775,7 @@ where
         } else if self.at_punct(Punct::Asterisk) {
             let _ = self.next_item()?;
             if !self.at_contextual_keyword("from") {
-                //error
+                return self.expected_token_error(&self.look_ahead, &["from"]);
             }
             let _ = self.next_item()?;
             let source = self.parse_module_specifier()?;
-- 
2.43.0


From 7308f06c9107c89da17551501a3353a4911ab2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:32 +0000
Subject: [PATCH 12/93] fix: the iterator ends after the first error

---
 src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0e68316..d248ac1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -304,6 +304,9 @@ where
     /// to make sure we don't miss the eof
     /// by using this flag
     found_eof: bool,
+    /// If an error has been returned by the iterator,
+    /// after which there is nothing left to yield
+    failed: bool,
     /// a possible container for tokens, currently
     /// it is unused
     _tokens: Vec<Item>,
@@ -451,6 +454,7 @@ where
             look_ahead,
             lines,
             found_eof: false,
+            failed: false,
             config,
             context,
             _tokens: vec![],
@@ -4565,10 +4569,12 @@ where
 {
     type Item = Res<ProgramPart>;
     fn next(&mut self) -> Option<Self::Item> {
-        if self.look_ahead.token.is_eof() {
+        if self.failed || self.look_ahead.token.is_eof() {
             None
         } else {
-            Some(self.next_part())
+            let part = self.next_part();
+            self.failed = part.is_err();
+            Some(part)
         }
     }
 }
-- 
2.43.0


From 14cf9471d26f21009acd2ba90c8b4913dc419dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:16 +0000
Subject: [PATCH 13/93] fix: the text of a directive loses only its own quotes

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index d248ac1..8f7cc91 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -540,7 +540,7 @@ where
                 }
                 self.consume_semicolon()?;
                 return Ok(ProgramPart::Dir(Dir {
-                    dir: s.trim_matches(|c| c == '\'' || c == '"').to_string(),
+                    dir: s[1..s.len() - 1].to_string(),
                     expr: Literal::String(s),
                 }));
             } else {
-- 
2.43.0


From a27544485105db48969ced60115af2e157ad6f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:16 +0000
Subject: [PATCH 14/93] fix: an object literal can be the argument of yield

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8f7cc91..a931d57 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4434,7 +4434,7 @@ where
         if token.is_punct() {
             ret = token.matches_punct(&Punct::OpenBracket)
                 || token.matches_punct(&Punct::OpenParen)
-                || token.matches_punct(&Punct::OpenBracket)
+                || token.matches_punct(&Punct::OpenBrace)
                 || token.matches_punct(&Punct::Plus)
                 || token.matches_punct(&Punct::Minus)
                 || token.matches_punct(&Punct::Not)
-- 
2.43.0


From 073e4bd06a2973b2a70d3c42bf705d2babc2ef6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:16 +0000
Subject: [PATCH 15/93] fix: a dynamic import can be the argument of yield

---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index a931d57..9cde164 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4446,6 +4446,7 @@ where
             ret = token.matches_keyword(&Keyword::Class)
                 || token.matches_keyword(&Keyword::Delete)
                 || token.matches_keyword(&Keyword::Function)
+                || token.matches_keyword(&Keyword::Import)
                 || token.matches_keyword(&Keyword::Let)
                 || token.matches_keyword(&Keyword::New)
                 || token.matches_keyword(&Keyword::Super)
-- 
2.43.0


From b45d05c4e1936411fba901bfb508218c7fe6fe14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:17 +0000
Subject: [PATCH 16/93] fix: count a CRLF inside a token as one line terminator

---
 src/lib.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9cde164..fe654c6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4215,11 +4215,9 @@ where
 
     fn update_positions(&mut self, look_ahead_span: Span, next_look_ahead_start: usize) -> Res<()> {
         let prev_text = &self.scanner.stream[look_ahead_span.start..next_look_ahead_start];
-        let whitespace = &self.scanner.stream[look_ahead_span.end..next_look_ahead_start];
-        
         let old_look_ahead_pos = self.look_ahead_position;
         self.current_position = old_look_ahead_pos;
-        let line_counts = prev_text.chars().filter(|c| c == &'\n' || c == &'\r' || c == &'\u{2028}' || c == &'\u{2029}').count() - whitespace.matches("\r\n").count();
+        let line_counts = prev_text.chars().filter(|c| c == &'\n' || c == &'\r' || c == &'\u{2028}' || c == &'\u{2029}').count() - prev_text.matches("\r\n").count();
         if line_counts == 0 {
             self.look_ahead_position.column += prev_text.len();
             return Ok(())
-- 
2.43.0


From d9065fe477769013c176902b3c641aa8fc9c039e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:31 +0000
Subject: [PATCH 17/93] fix: a carriage return before a multi-byte character
 ends the line

---
 src/lib.rs | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index fe654c6..e47912b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -347,19 +347,15 @@ fn get_lines(text: &str) -> Vec<Line> {
                     // look ahead 1 char to see if it is a newline pair
                     // if so, don't include it, it will get included in the next
                     // iteration
-                    if let Some(next) = text.get(byte_position..byte_position + 2) {
-                        if next == "\r\n" {
-                            None
-                        } else {
-                            let ret = Line {
-                                start: line_start,
-                                end: byte_position,
-                            };
-                            line_start = byte_position + 1;
-                            Some(ret)
-                        }
-                    } else {
+                    if text[byte_position + 1..].starts_with('\n') {
                         None
+                    } else {
+                        let ret = Line {
+                            start: line_start,
+                            end: byte_position,
+                        };
+                        line_start = byte_position + 1;
+                        Some(ret)
                     }
                 }
                 '\n' => {
-- 
2.43.0


From b7bcef8859b80fb3d8f995e50d0b5c1492996f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:05 +0000
Subject: [PATCH 18/93] fix: the heritage of a class can be a call

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index e47912b..f4c5709 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1789,7 +1789,7 @@ where
         let mut super_class = if self.at_contextual_keyword("extends") {
             let _ = self.next_item()?;
             let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
-            let super_class = self.parse_left_hand_side_expr()?;
+            let super_class = self.parse_left_hand_side_expr_allow_call()?;
             self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
             Some(Box::new(super_class))
         } else {
@@ -1803,7 +1803,7 @@ where
         if super_class.is_none() && self.at_contextual_keyword("extends") {
             let _ = self.next_item()?;
             let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
-            let expr = self.parse_left_hand_side_expr()?;
+            let expr = self.parse_left_hand_side_expr_allow_call()?;
             self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
             super_class = Some(Box::new(expr));
         }
-- 
2.43.0


From 8b89d0671cbca28fbcb2a4b89354e238811d5247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:05 +0000
Subject: [PATCH 19/93] fix: an object property can be named async

---
 src/lib.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index f4c5709..da0bd06 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2538,11 +2538,9 @@ where
             let id = self.scanner.string_for(&start.span).unwrap_or(String::new());
             let _ = self.next_item()?;
             let computed = self.at_punct(Punct::OpenBracket);
-            let is_async = /*self.context.has_line_term
-                && */id == "async"/*
-                && !self.at_punct(Punct::Colon)
-                && !self.at_punct(Punct::Asterisk)
-                && !self.at_punct(Punct::Comma)*/;
+            let is_async = id == "async"
+                && !self.context.has_line_term
+                && self.at_qualified_prop_key();
             let key = if is_async {
                 self.parse_object_property_key()?
             } else {
-- 
2.43.0


From 7696a7ec2612d9470ff71896baa7e1fa98035003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:06 +0000
Subject: [PATCH 20/93] fix: an object property value can be an assignment
 after any other value

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index da0bd06..f04b6ff 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2603,7 +2603,7 @@ where
                         has_proto = true;
                     }
                     let _ = self.next_item()?;
-                    let (prev_bind, prev_assign, prev_first) = self.get_cover_grammar_state();
+                    let (prev_bind, prev_assign, prev_first) = self.inherit_cover_grammar();
                     let value = self.parse_assignment_expr()?;
                     self.set_inherit_cover_grammar_state(prev_bind, prev_assign, prev_first);
                     ObjectProperty::Property(Property {
-- 
2.43.0


From b71321712f32c542d9ac449a02ba7b1c6b049316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:24 +0000
Subject: [PATCH 21/93] fix: class elements named async and static async
 methods

---
 src/lib.rs | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index f04b6ff..a89e332 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1845,10 +1845,16 @@ where
         let mut is_static = false;
         let mut is_async = false;
         if self.at_contextual_keyword("async") {
-            let _async = self.next_item()?;
-            is_async = true;
+            let name = self.next_item()?;
+            is_async =
+                !self.context.has_line_term && Self::qualified_prop_name(&self.look_ahead.token);
+            if !is_async {
+                key = Some(PropertyKey::Expr(Expr::Ident(self.get_string(&name.span)?)));
+            }
         }
-        if self.at_punct(Punct::Asterisk) {
+        if key.is_some() {
+            debug!("found an element named async");
+        } else if self.at_punct(Punct::Asterisk) {
             debug!("found leading asterisk");
             let _ = self.next_item()?;
         } else {
@@ -1871,16 +1877,17 @@ where
             } else {
                 key = Some(new_key);
             }
-            if token.is_ident()
+            let static_async = match key {
+                Some(ref k) => is_static && token.is_ident() && Self::is_key(k, "async"),
+                None => false,
+            };
+            if static_async
                 && !self.context.has_line_term
-                && self.at_contextual_keyword("async")
+                && Self::qualified_prop_name(&self.look_ahead.token)
             {
-                if !self.look_ahead.token.matches_punct(&Punct::Colon)
-                    && !self.look_ahead.token.matches_punct(&Punct::OpenParen)
-                    && !self.look_ahead.token.matches_punct(&Punct::Asterisk)
-                {
-                    return self.expected_token_error(&self.look_ahead, &[":", "(", "*"]);
-                }
+                is_async = true;
+                computed = self.at_punct(Punct::OpenBracket);
+                key = Some(self.parse_object_property_key()?);
             }
         }
 
-- 
2.43.0


From 4e5faceb83a9596110857c2a9e7865d926c86a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:25 +0000
Subject: [PATCH 22/93] fix: a class element named by a string is compared
 without its quotes

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index a89e332..2561677 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2000,7 +2000,7 @@ where
     fn is_key(key: &PropertyKey, other: &str) -> bool {
         match key {
             PropertyKey::Literal(ref l) => match l {
-                Literal::String(ref s) => s == other,
+                Literal::String(ref s) => &s[1..s.len() - 1] == other,
                 _ => false,
             },
             PropertyKey::Expr(ref e) => match e {
-- 
2.43.0


From b32384a8c6e0d677ab48285590bb6de8bfb836f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:55 +0000
Subject: [PATCH 23/93] fix: an arrow function has its own yield, await and
 strict context

---
 src/lib.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 2561677..69fbc61 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3096,6 +3096,13 @@ where
                 let is_async = Self::is_async(&current);
                 if let Some(params) = self.reinterpret_as_cover_formals_list(current.clone())? {
                     self.expect_punct(Punct::FatArrow)?;
+                    let prev_yield = self.context.allow_yield;
+                    let prev_await = self.context.r#await;
+                    let prev_strict = self.context.strict;
+                    let prev_allow_strict = self.context.allow_strict_directive;
+                    self.context.allow_yield = true;
+                    self.context.r#await = is_async;
+                    self.context.allow_strict_directive = params.iter().all(Self::is_simple);
                     if self.at_punct(Punct::OpenBrace) {
                         let prev_in = self.context.allow_in;
                         self.context.allow_in = true;
@@ -3122,6 +3129,10 @@ where
                             body: ArrowFunctionBody::Expr(Box::new(a)),
                         });
                     };
+                    self.context.allow_yield = prev_yield;
+                    self.context.r#await = prev_await;
+                    self.context.strict = prev_strict;
+                    self.context.allow_strict_directive = prev_allow_strict;
                 }
             } else {
                 if self.at_assign() {
-- 
2.43.0


From 681fc23c3db7a7f3b0cda30f22c3f96f323266a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:55 +0000
Subject: [PATCH 24/93] fix: methods have their own yield and await context

---
 src/lib.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 69fbc61..8ee03be 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1908,11 +1908,8 @@ where
             if at_get {
                 kind = Some(PropertyKind::Get);
                 computed = self.at_punct(Punct::OpenBracket);
-                let prev_yield = self.context.allow_yield;
-                self.context.allow_yield = false;
                 key = Some(self.parse_object_property_key()?);
                 value = Some(self.parse_getter_method()?);
-                self.context.allow_yield = prev_yield;
             } else if at_set {
                 kind = Some(PropertyKind::Set);
                 computed = self.at_punct(Punct::OpenBracket);
@@ -2046,7 +2043,7 @@ where
         debug!("parse_property_method_async_fn");
         let prev_yield = self.context.allow_yield;
         let prev_await = self.context.r#await;
-        self.context.allow_yield = false;
+        self.context.allow_yield = true;
         self.context.r#await = true;
         let params = self.parse_formal_params()?;
         let body = self.parse_property_method_body(params.simple, params.found_restricted)?;
@@ -2065,10 +2062,13 @@ where
     fn parse_property_method(&mut self) -> Res<PropertyValue> {
         debug!("parse_property_method");
         let prev_yield = self.context.allow_yield;
-        self.context.allow_yield = false;
+        let prev_await = self.context.r#await;
+        self.context.allow_yield = true;
+        self.context.r#await = false;
         let params = self.parse_formal_params()?;
         let body = self.parse_property_method_body(params.simple, params.found_restricted)?;
         self.context.allow_yield = prev_yield;
+        self.context.r#await = prev_await;
         let func = Function {
             id: None,
             params: params.params,
@@ -2082,11 +2082,14 @@ where
     fn parse_generator_method(&mut self) -> Res<PropertyValue> {
         debug!("pares_generator_method");
         let prev_yield = self.context.allow_yield;
+        let prev_await = self.context.r#await;
         self.context.allow_yield = true;
+        self.context.r#await = false;
         let params = self.parse_formal_params()?;
         self.context.allow_yield = false;
         let body = self.parse_method_body(params.simple, params.found_restricted)?;
         self.context.allow_yield = prev_yield;
+        self.context.r#await = prev_await;
         let func = Function {
             id: None,
             params: params.params,
@@ -2101,6 +2104,9 @@ where
         debug!("parse_getter_method");
         let is_gen = false;
         let prev_yield = self.context.allow_yield;
+        let prev_await = self.context.r#await;
+        self.context.allow_yield = true;
+        self.context.r#await = false;
         let start_position = self.look_ahead_position;
         let formal_params = self.parse_formal_params()?;
         if formal_params.params.len() > 0 {
@@ -2108,6 +2114,7 @@ where
         }
         let body = self.parse_method_body(formal_params.simple, formal_params.found_restricted)?;
         self.context.allow_yield = prev_yield;
+        self.context.r#await = prev_await;
         Ok(PropertyValue::Expr(Expr::Function(Function {
             id: None,
             params: formal_params.params,
@@ -2139,10 +2146,11 @@ where
     fn parse_setter_method(&mut self) -> Res<PropertyValue> {
         debug!("parse_setter_method");
         let prev_allow = self.context.allow_yield;
+        let prev_await = self.context.r#await;
         self.context.allow_yield = true;
+        self.context.r#await = false;
         let start_position = self.look_ahead_position;
         let params = self.parse_formal_params()?;
-        self.context.allow_yield = prev_allow;
         if params.params.len() != 1 {
             self.tolerate_error(Error::InvalidSetterParams(start_position))?;
         } else if let Some(ref param) = params.params.get(0) {
@@ -2151,6 +2159,8 @@ where
             }
         }
         let body = self.parse_property_method_body(params.simple, params.found_restricted)?;
+        self.context.allow_yield = prev_allow;
+        self.context.r#await = prev_await;
         let func = Function {
             id: None,
             params: params.params,
-- 
2.43.0


From 50aa2279a332a3c6036f99221126152b84d88910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:13 +0000
Subject: [PATCH 25/93] fix: a group that can only be arrow parameters must be
 followed by an arrow

---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 8ee03be..9ecb7f8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2442,6 +2442,9 @@ where
                         let _ = self.next_item()?;
                         if self.at_punct(Punct::CloseParen) {
                             let _ = self.next_item()?;
+                            if !self.at_punct(Punct::FatArrow) {
+                                self.expect_punct(Punct::FatArrow)?;
+                            }
                             return Ok(Expr::ArrowParamPlaceHolder(
                                 exprs.into_iter().map(|e| FunctionArg::Expr(e)).collect(),
                                 false,
@@ -2455,6 +2458,9 @@ where
                                 exprs.into_iter().map(|e| FunctionArg::Expr(e)).collect();
                             args.push(FunctionArg::Pat(rest));
                             self.expect_punct(Punct::CloseParen)?;
+                            if !self.at_punct(Punct::FatArrow) {
+                                self.expect_punct(Punct::FatArrow)?;
+                            }
                             return Ok(Expr::ArrowParamPlaceHolder(args, false));
                         } else {
                             let (prev_bind, prev_assign, prev_first) = self.inherit_cover_grammar();
-- 
2.43.0


From da1e50515d4de686278515f94ee947cfdd057ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:13 +0000
Subject: [PATCH 26/93] fix: no line terminator between the parameters of an
 arrow function and the arrow

---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 9ecb7f8..78bd7b7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3111,6 +3111,12 @@ where
                 self.context.is_binding_element = false;
                 let is_async = Self::is_async(&current);
                 if let Some(params) = self.reinterpret_as_cover_formals_list(current.clone())? {
+                    if self.context.has_line_term && !self.config.tolerant {
+                        return self.unexpected_token_error(
+                            &self.look_ahead,
+                            "line terminator before `=>`",
+                        );
+                    }
                     self.expect_punct(Punct::FatArrow)?;
                     let prev_yield = self.context.allow_yield;
                     let prev_await = self.context.r#await;
-- 
2.43.0


From fcfa091f0ab2a229306256696d305764b31ff5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:14 +0000
Subject: [PATCH 27/93] fix: module code is strict

---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 78bd7b7..13fbc97 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -428,6 +428,8 @@ where
         };
         let context = Context {
             is_module,
+            // module code is always strict
+            strict: is_module,
             ..Default::default()
         };
         Self::_new(scanner, lines, config, context, comment_handler)
-- 
2.43.0


From 08be2fbf9ea1a4229b25f49a01790ac0f0fd0798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:13 +0000
Subject: [PATCH 28/93] fix: only identifier names where an identifier name is
 expected

---
 src/lib.rs | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 13fbc97..90e0173 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2819,21 +2819,13 @@ where
 
     fn parse_ident_name(&mut self) -> Res<Identifier> {
         debug!("parse_ident_name");
-        let lh = self.get_string(&self.look_ahead.span);
-        debug!("lh: {:?}", lh);
-        let ident = self.next_item()?; 
-        let ret = self.get_string(&ident.span)?;
-        debug!("ident: {:?}", ret);
-        Ok(ret)
-
-        // let ret = match ident.token {
-        //     Token::Ident => Ok(self.scanner.string_for(&ident.span).unwrap_or(String::new())),
-        //     Token::Keyword(k) => Ok(k.to_string()),
-        //     Token::Boolean(b) => Ok(b.to_string()),
-        //     Token::Null => Ok("null".to_string()),
-        //     _ => self.expected_token_error(&ident, &["identifier name"]),
-        // };
-        // ret
+        let ident = self.next_item()?;
+        match &ident.token {
+            Token::Ident | Token::Keyword(_) | Token::Boolean(_) | Token::Null => {
+                self.get_string(&ident.span)
+            }
+            _ => self.expected_token_error(&ident, &["identifier name"]),
+        }
     }
 
     fn parse_var_ident(&mut self, is_var: bool) -> Res<Identifier> {
-- 
2.43.0


From 51534ee560fafc890780e0566038ecf3c212f37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:40 +0000
Subject: [PATCH 29/93] fix: only identifiers and sloppy mode reserved words as
 binding names

---
 src/lib.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 90e0173..afcf97e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2835,17 +2835,17 @@ where
             if self.context.strict || !self.context.allow_yield {
                 return self.expected_token_error(&ident, &["variable identifier"]);
             }
+        } else if ident.token.matches_keyword(&Keyword::Await) {
+            if self.context.is_module || self.context.r#await {
+                return self.expected_token_error(&ident, &["variable identifier"]);
+            }
         } else if !ident.token.is_ident() {
-            if self.context.strict && ident.token.is_strict_reserved() {
+            if self.context.strict || !ident.token.is_strict_reserved() {
                 return self.expected_token_error(&ident, &["variable identifier"]);
             }
-            if self.context.strict || ident.token.matches_keyword(&Keyword::Let) || !is_var {
+            if ident.token.matches_keyword(&Keyword::Let) && !is_var {
                 return self.expected_token_error(&ident, &["variable identifier"]);
             }
-        } else if (self.context.is_module || self.context.r#await)
-            && &self.scanner.stream[ident.span.start..ident.span.end] == "await"
-        {
-            return self.expected_token_error(&ident, &["variable identifier"]);
         }
         let i = match &ident.token {
             &Token::Ident => self.scanner.string_for(&ident.span).unwrap_or(String::new()),
-- 
2.43.0


From fc5843a3d596032f13aa95621428af435d9f5ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:23 +0000
Subject: [PATCH 30/93] fix: an exported lexical declaration ends with one
 semicolon

---
 src/lib.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index afcf97e..19f5e26 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -789,7 +789,6 @@ where
             {
                 let lex = self.parse_lexical_decl(false)?;
                 let decl = NamedExportDecl::Decl(lex);
-                self.consume_semicolon()?;
                 Ok(ModExport::Named(decl))
             } else if self.look_ahead.token.matches_keyword(&Keyword::Var) {
                 let _ = self.next_item()?;
-- 
2.43.0


From b76b04d84444f5a7118bb9b91c14284dd96c81da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:26 +0000
Subject: [PATCH 31/93] fix: a named export of a function or class needs its
 name

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 19f5e26..0d9618e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -797,12 +797,12 @@ where
                 self.consume_semicolon()?;
                 Ok(ModExport::Named(decl))
             } else if self.look_ahead.token.matches_keyword(&Keyword::Class) {
-                let class = self.parse_class_decl(true)?;
+                let class = self.parse_class_decl(false)?;
                 let decl = Decl::Class(class);
                 let decl = NamedExportDecl::Decl(decl);
                 Ok(ModExport::Named(decl))
             } else if self.look_ahead.token.matches_keyword(&Keyword::Function) {
-                let func = self.parse_function_decl(true)?;
+                let func = self.parse_function_decl(false)?;
                 let decl = Decl::Function(func);
                 let decl = NamedExportDecl::Decl(decl);
                 Ok(ModExport::Named(decl))
-- 
2.43.0


From db76ed3c6d0433f2280484daf6cfbb09f6346260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:44 +0000
Subject: [PATCH 32/93] fix: a default export takes a whole assignment
 expression and ends with a semicolon

---
 src/lib.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0d9618e..8f9f38d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -756,22 +756,16 @@ where
                     DefaultExportDecl::Decl(decl)
                 } else {
                     let expr = self.parse_assignment_expr()?;
+                    self.consume_semicolon()?;
                     DefaultExportDecl::Expr(expr)
                 }
             } else {
                 if self.at_contextual_keyword("from") {
                     //error
                 }
-                if self.at_punct(Punct::OpenBrace) {
-                    let expr = self.parse_obj_init()?;
-                    DefaultExportDecl::Expr(expr)
-                } else if self.at_punct(Punct::OpenBracket) {
-                    let expr = self.parse_array_init()?;
-                    DefaultExportDecl::Expr(expr)
-                } else {
-                    let expr = self.parse_assignment_expr()?;
-                    DefaultExportDecl::Expr(expr)
-                }
+                let expr = self.parse_assignment_expr()?;
+                self.consume_semicolon()?;
+                DefaultExportDecl::Expr(expr)
             };
             Ok(ModExport::Default(decl))
         } else if self.at_punct(Punct::Asterisk) {
-- 
2.43.0


From 422c4c49b96eab69dcdb9d4f11d97ebdc396216b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:09 +0000
Subject: [PATCH 33/93] fix: imports bind identifiers, not identifier names

---
 src/lib.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8f9f38d..76441aa 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -710,12 +710,11 @@ where
             (imported, local)
         } else {
             let imported = self.parse_ident_name()?;
-            let local = if self.at_contextual_keyword("as") {
-                let _ = self.next_item()?;
-                Some(self.parse_var_ident(false)?)
-            } else {
-                None
-            };
+            if !self.at_contextual_keyword("as") {
+                return self.expected_token_error(&self.look_ahead, &["as"]);
+            }
+            let _ = self.next_item()?;
+            let local = Some(self.parse_var_ident(false)?);
             (imported, local)
         };
         Ok(ImportSpecifier::Normal(imported, local))
@@ -727,12 +726,12 @@ where
             return self.expected_token_error(&self.look_ahead, &["as"]);
         }
         let _ = self.next_item()?;
-        let ident = self.parse_ident_name()?;
+        let ident = self.parse_var_ident(false)?;
         Ok(ImportSpecifier::Namespace(ident))
     }
 
     fn parse_import_default_specifier(&mut self) -> Res<ImportSpecifier> {
-        let ident = self.parse_ident_name()?;
+        let ident = self.parse_var_ident(false)?;
         Ok(ImportSpecifier::Default(ident))
     }
 
-- 
2.43.0


From 95318a46865d908961b3ad71292bf7d752ac28b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:13 +0000
Subject: [PATCH 34/93] fix: a reserved word is no local name to export

---
 src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 76441aa..1095a5c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -813,10 +813,10 @@ where
         } else {
             self.expect_punct(Punct::OpenBrace)?;
             let mut specifiers = vec![];
-            let mut found_default = false;
+            let mut found_reserved = false;
             while !self.at_punct(Punct::CloseBrace) {
-                if self.at_keyword(Keyword::Default) {
-                    found_default = true;
+                if !self.look_ahead.token.is_ident() {
+                    found_reserved = true;
                 }
                 specifiers.push(self.parse_export_specifier()?);
                 if !self.at_punct(Punct::CloseBrace) {
@@ -830,7 +830,7 @@ where
                 self.consume_semicolon()?;
                 let decl = NamedExportDecl::Specifier(specifiers, Some(source));
                 Ok(ModExport::Named(decl))
-            } else if found_default {
+            } else if found_reserved {
                 self.expected_token_error(&self.look_ahead, &[""])
             } else {
                 self.consume_semicolon()?;
-- 
2.43.0


From 72c12ef4148235ebcf1c6d3f1a156339e120e878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:14 +0000
Subject: [PATCH 35/93] fix: await, yield, new.target and templates are no
 assignment targets

---
 src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 1095a5c..47708ff 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2320,6 +2320,8 @@ where
             Ok(Expr::Literal(lit))
         } else if self.look_ahead.is_template() {
             let lit = self.parse_template_literal()?;
+            self.context.is_assignment_target = false;
+            self.context.is_binding_element = false;
             Ok(Expr::Literal(Literal::Template(lit)))
         } else if self.look_ahead.token.is_punct() {
             let (prev_bind, prev_assign, prev_first) = self.inherit_cover_grammar();
@@ -3433,6 +3435,8 @@ where
             }
             self.context.allow_yield = prev_yield;
         }
+        self.context.is_assignment_target = false;
+        self.context.is_binding_element = false;
         let y = YieldExpr {
             argument: arg,
             delegate,
@@ -3702,6 +3706,8 @@ where
         debug!("parse_await_expr");
         let _await = self.next_item()?;
         let arg = self.parse_unary_expression()?;
+        self.context.is_assignment_target = false;
+        self.context.is_binding_element = false;
         Ok(Expr::Await(Box::new(arg)))
     }
 
@@ -3939,6 +3945,8 @@ where
                 expr = Expr::Member(member);
             } else if self.look_ahead.token.is_template_head() {
                 let quasi = self.parse_template_literal()?;
+                self.context.is_assignment_target = false;
+                self.context.is_binding_element = false;
                 let temp = TaggedTemplateExpr {
                     tag: Box::new(expr),
                     quasi,
@@ -4054,6 +4062,8 @@ where
         if self.at_punct(Punct::Period) {
             let _ = self.next_item()?;
             if self.at_contextual_keyword("target") && self.context.in_function_body {
+                self.context.is_assignment_target = false;
+                self.context.is_binding_element = false;
                 let property = self.parse_ident_name()?;
                 Ok(Expr::MetaProperty(MetaProperty {
                     meta: String::from("new"),
-- 
2.43.0


From 46420cfc3071bde421e582bf1f805e7786a5da8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:17 +0000
Subject: [PATCH 36/93] fix: a parenthesised expression is only a target when
 it is a reference, and never binds

---
 src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 47708ff..1b8b759 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2492,6 +2492,11 @@ where
                         ));
                     }
                 }
+                self.context.is_binding_element = false;
+                match &ex {
+                    Expr::Ident(_) | Expr::Member(_) => (),
+                    _ => self.context.is_assignment_target = false,
+                }
                 Ok(ex)
             }
         }
-- 
2.43.0


From 27386afdf9d94c177e53440b73716bfa70278059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:20 +0000
Subject: [PATCH 37/93] fix: array and object patterns are only targets of =

---
 src/lib.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1b8b759..60ea0a8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3151,7 +3151,9 @@ where
                 }
             } else {
                 if self.at_assign() {
-                    if !self.context.is_assignment_target {
+                    if !self.context.is_assignment_target
+                        || (!self.at_punct(Punct::Assign) && Self::is_cover_pattern(&current))
+                    {
                         if !self.config.tolerant {
                             return self.unexpected_token_error(
                                 &self.look_ahead,
@@ -3746,7 +3748,9 @@ where
                     _ => (),
                 }
             }
-            if !self.context.is_assignment_target && !self.config.tolerant {
+            if (!self.context.is_assignment_target || Self::is_cover_pattern(&ex))
+                && !self.config.tolerant
+            {
                 return self
                     .unexpected_token_error(&op, "Cannot increment when not at assignment target");
             }
@@ -3776,7 +3780,9 @@ where
                         }
                     }
                     let op = self.next_item()?;
-                    if !self.context.is_assignment_target && !self.config.tolerant {
+                    if (!self.context.is_assignment_target || Self::is_cover_pattern(&expr))
+                        && !self.config.tolerant
+                    {
                         return self.unexpected_token_error(
                             &op,
                             "Cannot increment when not at assignment target",
@@ -3803,6 +3809,15 @@ where
         }
     }
 
+    /// Array and object literals are only valid targets
+    /// of a plain `=`
+    fn is_cover_pattern(expr: &Expr) -> bool {
+        match expr {
+            Expr::Array(_) | Expr::Object(_) => true,
+            _ => false,
+        }
+    }
+
     fn is_ident(expr: &Expr) -> bool {
         match expr {
             Expr::Ident(_) => true,
-- 
2.43.0


From ec648824551138f676ceefadee39748654f17f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:24 +0000
Subject: [PATCH 38/93] fix: the head of a for-in or for-of loop must be a
 target

---
 src/lib.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 60ea0a8..bff512c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1306,9 +1306,14 @@ where
             self.context.allow_in = false;
             let (prev_bind, prev_assign, prev_first) = self.inherit_cover_grammar();
             let init = self.parse_assignment_expr()?;
+            let is_target = self.context.is_assignment_target && !Self::is_assignment_expr(&init);
             self.set_inherit_cover_grammar_state(prev_bind, prev_assign, prev_first);
             self.context.allow_in = prev_in;
             if self.at_keyword(Keyword::In) {
+                if !is_target && !self.config.tolerant {
+                    return self
+                        .unexpected_token_error(&self.look_ahead, "Not at assignment target");
+                }
                 let _ = self.next_item()?;
                 let left = LoopLeft::Expr(init);
                 let right = self.parse_expression()?;
@@ -1318,6 +1323,10 @@ where
                     body: Box::new(self.parse_loop_body()?),
                 }));
             } else if self.at_contextual_keyword("of") {
+                if !is_target && !self.config.tolerant {
+                    return self
+                        .unexpected_token_error(&self.look_ahead, "Not at assignment target");
+                }
                 let _ = self.next_item()?;
                 let left = LoopLeft::Expr(init);
                 let right = self.parse_assignment_expr()?;
@@ -3809,6 +3818,13 @@ where
         }
     }
 
+    fn is_assignment_expr(expr: &Expr) -> bool {
+        match expr {
+            Expr::Assignment(_) => true,
+            _ => false,
+        }
+    }
+
     /// Array and object literals are only valid targets
     /// of a plain `=`
     fn is_cover_pattern(expr: &Expr) -> bool {
-- 
2.43.0


From a343479127b7aae5a75d0535f1ee70f53b0efe62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:44 +0000
Subject: [PATCH 39/93] fix: no in operator in any expression of a for head

---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index bff512c..4dd9744 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1340,12 +1340,14 @@ where
             } else {
                 let init = if self.at_punct(Punct::Comma) {
                     let mut seq = vec![init];
+                    self.context.allow_in = false;
                     while self.at_punct(Punct::Comma) {
                         let _comma = self.next_item()?;
                         let (prev_bind, prev_assign, prev_first) = self.inherit_cover_grammar();
                         seq.push(self.parse_assignment_expr()?);
                         self.set_inherit_cover_grammar_state(prev_bind, prev_assign, prev_first);
                     }
+                    self.context.allow_in = prev_in;
                     LoopInit::Expr(Expr::Sequence(seq))
                 } else {
                     LoopInit::Expr(init)
-- 
2.43.0


From 1f1938968b20d8c70de3bc93026ce8ef45816a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:48 +0000
Subject: [PATCH 40/93] fix: const is no variable to loop over

---
 src/lib.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4dd9744..66167df 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1252,15 +1252,13 @@ where
                 },
                 _ => return self.expected_token_error(&kind, &["const", "let"]),
             };
-            if !self.context.strict && self.look_ahead.token.matches_keyword(&Keyword::In) {
+            if kind == VariableKind::Let
+                && !self.context.strict
+                && self.look_ahead.token.matches_keyword(&Keyword::In)
+            {
                 let _in = self.next_item()?;
-                //const or let becomes an ident
-                let k = match kind {
-                    VariableKind::Var => String::from("var"),
-                    VariableKind::Let => String::from("let"),
-                    VariableKind::Const => String::from("const"),
-                };
-                let left = LoopLeft::Expr(Expr::Ident(k));
+                //let becomes an ident
+                let left = LoopLeft::Expr(Expr::Ident(String::from("let")));
                 let right = self.parse_expression()?;
                 Ok(Stmt::ForIn(ForInStmt {
                     left,
-- 
2.43.0


From 020102d78636aea5d835c0bb9457304c9897e942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:51 +0000
Subject: [PATCH 41/93] fix: only a for head may leave out the initialiser of a
 const

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 66167df..11fb830 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1654,7 +1654,7 @@ where
             }
         }
         let init = if kind == VariableKind::Const {
-            if !self.at_keyword(Keyword::In) && !self.at_contextual_keyword("of") {
+            if !in_for || !self.at_keyword(Keyword::In) && !self.at_contextual_keyword("of") {
                 if self.at_punct(Punct::Assign) {
                     let _ = self.next_item()?;
                     let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
-- 
2.43.0


From dc8e31b24885583b46c252d967bb53cc07b83031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:41 +0000
Subject: [PATCH 42/93] fix: await is an identifier outside of modules and
 async functions

---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 11fb830..e5ae8ee 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2372,6 +2372,12 @@ where
             } else if !self.context.strict && self.look_ahead.token.is_strict_reserved() {
                 let ident = self.parse_ident_name()?;
                 Ok(Expr::Ident(ident))
+            } else if self.at_keyword(Keyword::Await)
+                && !self.context.is_module
+                && !self.context.r#await
+            {
+                let ident = self.parse_ident_name()?;
+                Ok(Expr::Ident(ident))
             } else {
                 self.context.is_assignment_target = false;
                 self.context.is_binding_element = false;
-- 
2.43.0


From e9cb9dcf9c7b4b3de266e4836bb250140e887a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:46 +0000
Subject: [PATCH 43/93] fix: contextual keywords can be labels

---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index e5ae8ee..aca8f9c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -913,6 +913,8 @@ where
                 Keyword::Var => self.parse_var_stmt()?,
                 Keyword::While => Stmt::While(self.parse_while_stmt()?),
                 Keyword::With => Stmt::With(self.parse_with_stmt()?),
+                Keyword::Await => self.parse_labelled_statement()?,
+                _ if k.is_strict_reserved() => self.parse_labelled_statement()?,
                 _ => Stmt::Expr(self.parse_expression_statement()?),
             },
             _ => return self.expected_token_error(&self.look_ahead, &[]),
-- 
2.43.0


From c87753f9a5d4ce9d2bae4954ac53661c62a7c0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:49 +0000
Subject: [PATCH 44/93] fix: let declares variables named by contextual
 keywords

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index aca8f9c..bfd8c4d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4393,8 +4393,8 @@ where
             next.token.is_ident()
                 || next.token.matches_punct(&Punct::OpenBracket)
                 || next.token.matches_punct(&Punct::OpenBrace)
-                || next.token.matches_keyword(&Keyword::Let)
-                || next.token.matches_keyword(&Keyword::Yield)
+                || next.token.matches_keyword(&Keyword::Await)
+                || next.token.is_strict_reserved()
         } else {
             false
         }
-- 
2.43.0


From 65d05d0926a62d5ad785a249f132969341b3d8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:52 +0000
Subject: [PATCH 45/93] fix: contextual keywords can be shorthand properties

---
 src/lib.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index bfd8c4d..01020fc 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2668,7 +2668,7 @@ where
                         method: true,
                         short_hand: false,
                     })
-                } else if start.token.is_ident() {
+                } else if self.is_ident_reference(&start.token) {
                     if self.at_punct(Punct::Assign) {
                         self.context.first_covert_initialized_name_error =
                             Some(self.look_ahead.clone());
@@ -2714,6 +2714,18 @@ where
         }
     }
 
+    /// Contextual keywords can be references to variables
+    /// where their special meaning doesn't apply
+    fn is_ident_reference(&self, token: &Token) -> bool {
+        if token.matches_keyword(&Keyword::Await) {
+            !self.context.is_module && !self.context.r#await
+        } else if token.matches_keyword(&Keyword::Yield) {
+            !self.context.strict && self.context.allow_yield
+        } else {
+            token.is_ident() || (!self.context.strict && token.is_strict_reserved())
+        }
+    }
+
     fn at_possible_ident(&self) -> bool {
         self.look_ahead.token.is_ident()
             || self.look_ahead.token.is_keyword()
@@ -3059,7 +3071,9 @@ where
         let mut computed = false;
         let mut short_hand = false;
         let method = false;
-        let (key, value) = if self.look_ahead.token.is_ident() {
+        let (key, value) = if self.is_ident_reference(&self.look_ahead.token)
+            && !self.at_keyword(Keyword::Let)
+        {
             let key = PropertyKey::Expr(Expr::Ident(self.parse_var_ident(false)?));
             let value = if self.at_punct(Punct::Assign) {
                 self.expect_punct(Punct::Assign)?;
-- 
2.43.0


From 1f32d11b61c1d0345bf59bddb384f1c9950d43df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:14 +0000
Subject: [PATCH 46/93] fix: jumps can name labels that are contextual keywords

---
 src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 01020fc..db56bc6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1463,7 +1463,9 @@ where
     fn parse_optionally_labeled_statement(&mut self, k: Keyword) -> Res<Option<Identifier>> {
         debug!("parse_optionally_labeled_statement");
         self.expect_keyword(k)?;
-        let ret = if self.look_ahead.token.is_ident() && !self.context.has_line_term {
+        let ret = if self.is_ident_reference(&self.look_ahead.token)
+            && !self.context.has_line_term
+        {
             let id = self.parse_var_ident(false)?;
             if !self.context.label_set.contains(&id) {
                 //error: unknown label
-- 
2.43.0


From 82437a867c2cce97099b8a50b3d5f4c6a981e8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:17 +0000
Subject: [PATCH 47/93] fix: null is a literal

---
 src/lib.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index db56bc6..3d6fec6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2290,7 +2290,12 @@ where
 
     fn parse_primary_expression(&mut self) -> Res<Expr> {
         debug!("parse_primary_expression");
-        if self.look_ahead.token.is_ident() {
+        if self.at_null() {
+            self.context.is_assignment_target = false;
+            self.context.is_binding_element = false;
+            let _ = self.next_item()?;
+            Ok(Expr::Literal(Literal::Null))
+        } else if self.look_ahead.token.is_ident() {
             if (self.context.is_module || self.context.r#await) && self.at_keyword(Keyword::Await) {
                 if !self.config.tolerant {
                     return self.unexpected_token_error(
@@ -4489,6 +4494,13 @@ where
     }
     /// Tests if a token matches an &str that might represent
     /// a contextual keyword like `async`
+    /// The scanner doesn't tell the null literal
+    /// from other identifiers
+    fn at_null(&self) -> bool {
+        self.look_ahead.token.is_null()
+            || (self.look_ahead.token.is_ident() && self.at_contextual_keyword("null"))
+    }
+
     fn at_contextual_keyword(&self, s: &str) -> bool {
         let current = &self.scanner.stream[self.look_ahead.span.start..self.look_ahead.span.end];
         debug!("at_contextual_keyword {:?} {:?}", s, current);
-- 
2.43.0


From 337cbff7ee332a1ebec1767a0e41c85d00120fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:37 +0000
Subject: [PATCH 48/93] fix: null and extends name nothing

---
 src/lib.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3d6fec6..d348dfa 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2296,6 +2296,9 @@ where
             let _ = self.next_item()?;
             Ok(Expr::Literal(Literal::Null))
         } else if self.look_ahead.token.is_ident() {
+            if self.is_reserved_ident(&self.look_ahead) {
+                return self.expected_token_error(&self.look_ahead, &["[identifier]"]);
+            }
             if (self.context.is_module || self.context.r#await) && self.at_keyword(Keyword::Await) {
                 if !self.config.tolerant {
                     return self.unexpected_token_error(
@@ -2675,7 +2678,7 @@ where
                         method: true,
                         short_hand: false,
                     })
-                } else if self.is_ident_reference(&start.token) {
+                } else if self.is_ident_reference(&start.token) && !self.is_reserved_ident(&start) {
                     if self.at_punct(Punct::Assign) {
                         self.context.first_covert_initialized_name_error =
                             Some(self.look_ahead.clone());
@@ -2866,6 +2869,9 @@ where
     fn parse_var_ident(&mut self, is_var: bool) -> Res<Identifier> {
         debug!("parse_var_ident");
         let ident = self.next_item()?;
+        if self.is_reserved_ident(&ident) {
+            return self.expected_token_error(&ident, &["variable identifier"]);
+        }
         if ident.token.matches_keyword(&Keyword::Yield) {
             if self.context.strict || !self.context.allow_yield {
                 return self.expected_token_error(&ident, &["variable identifier"]);
@@ -4501,6 +4507,12 @@ where
             || (self.look_ahead.token.is_ident() && self.at_contextual_keyword("null"))
     }
 
+    /// The scanner reports some reserved words as identifiers
+    fn is_reserved_ident(&self, item: &Item) -> bool {
+        let word = &self.scanner.stream[item.span.start..item.span.end];
+        item.token.is_ident() && (word == "null" || word == "extends")
+    }
+
     fn at_contextual_keyword(&self, s: &str) -> bool {
         let current = &self.scanner.stream[self.look_ahead.span.start..self.look_ahead.span.end];
         debug!("at_contextual_keyword {:?} {:?}", s, current);
-- 
2.43.0


From 75cd66b5778664e9eafc4094854ba3da84f1f53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:56 +0000
Subject: [PATCH 49/93] fix: a class heritage comes after the class name

---
 src/lib.rs | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index d348dfa..3debdfe 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1793,21 +1793,15 @@ where
         let prev_strict = self.context.strict;
         self.context.strict = true;
         self.expect_keyword(Keyword::Class)?;
-        let mut super_class = if self.at_contextual_keyword("extends") {
-            let _ = self.next_item()?;
-            let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
-            let super_class = self.parse_left_hand_side_expr_allow_call()?;
-            self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
-            Some(Box::new(super_class))
-        } else {
-            None
-        };
-        let id = if opt_ident && !self.look_ahead.token.is_ident() {
+        let mut super_class = None;
+        let id = if opt_ident
+            && (!self.look_ahead.token.is_ident() || self.at_contextual_keyword("extends"))
+        {
             None
         } else {
             Some(self.parse_var_ident(false)?)
         };
-        if super_class.is_none() && self.at_contextual_keyword("extends") {
+        if self.at_contextual_keyword("extends") {
             let _ = self.next_item()?;
             let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
             let expr = self.parse_left_hand_side_expr_allow_call()?;
-- 
2.43.0


From 9a58930274fe7812ac0b1354d789968b5fde305d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:59 +0000
Subject: [PATCH 50/93] fix: only the word async starts an async arrow function

---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index 3debdfe..dc12fa8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3126,6 +3126,7 @@ where
             let start_line = start_pos.line;
             if &self.scanner.stream[start..end] == "async"
                 && curr_line == start_line
+                && Self::is_ident(&current)
                 && (self.look_ahead.token.is_ident() || self.at_keyword(Keyword::Yield))
             {
                 let arg = self.parse_primary_expression()?;
-- 
2.43.0


From ccb21cde9c2416d47d19b5e2289c4aa1f88cd766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:02 +0000
Subject: [PATCH 51/93] fix: the rest of an object pattern is one last
 identifier

---
 src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index dc12fa8..365ae3c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3061,12 +3061,13 @@ where
     fn parse_rest_prop(&mut self) -> Res<ObjectPatPart> {
         debug!("parse_rest_prop");
         self.expect_punct(Punct::Spread)?;
+        let start = self.look_ahead.clone();
         let (_, arg) = self.parse_pattern(None, &mut vec![])?;
-        if self.at_punct(Punct::Assign) {
-            //unexpected token
+        if !Self::is_pat_ident(&arg) {
+            return self.expected_token_error(&start, &["[identifier]"]);
         }
         if !self.at_punct(Punct::CloseBrace) {
-            //unable to parse props after rest
+            return self.expected_token_error(&self.look_ahead, &["}"]);
         }
         let rest = Pat::RestElement(Box::new(arg));
         let part = ObjectPatPart::Rest(Box::new(rest));
-- 
2.43.0


From a9afc55fbee32cd4fdcbfb00ebdd5bcdec5b811c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:05 +0000
Subject: [PATCH 52/93] fix: eval and arguments are not bound in strict mode
 code

---
 src/lib.rs | 41 ++++++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 365ae3c..4bb1a72 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1711,11 +1711,9 @@ where
         let (id, first_restricted) = if !opt_ident || !self.at_punct(Punct::OpenParen) {
             let start = self.look_ahead.clone();
             let id = self.parse_var_ident(false)?;
-            if self.context.strict && start.token.is_restricted() {
-                return self.expected_token_error(&start, &[]);
-            }
+            self.check_restricted(&start)?;
             let first_restricted = if !self.context.strict {
-                if start.token.is_restricted() {
+                if Self::is_restricted_word(&id) {
                     Some(start)
                 } else if start.token.is_strict_reserved() {
                     Some(start)
@@ -1735,7 +1733,7 @@ where
         self.context.allow_yield = !is_gen;
 
         let formal_params = self.parse_formal_params()?;
-        let strict = formal_params.strict;
+        let strict = formal_params.strict || formal_params.found_restricted;
         let params = formal_params.params;
         let prev_strict = self.context.strict;
         let prev_allow_strict = self.context.allow_strict_directive;
@@ -1799,7 +1797,10 @@ where
         {
             None
         } else {
-            Some(self.parse_var_ident(false)?)
+            let start = self.look_ahead.clone();
+            let id = self.parse_var_ident(false)?;
+            self.check_restricted(&start)?;
+            Some(id)
         };
         if self.at_contextual_keyword("extends") {
             let _ = self.next_item()?;
@@ -2796,15 +2797,9 @@ where
         let id = if !self.at_punct(Punct::OpenParen) {
             let item = self.look_ahead.clone();
             let id = self.parse_fn_name(is_gen)?;
-            if item.token.is_restricted() {
-                if self.context.strict {
-                    if !self.config.tolerant {
-                        return self
-                            .unexpected_token_error(&item, "restricted ident in strict context");
-                    }
-                } else {
-                    found_restricted = true;
-                }
+            self.check_restricted(&item)?;
+            if Self::is_restricted_word(&id) {
+                found_restricted = true;
             }
             if item.token.is_strict_reserved() {
                 found_restricted = true;
@@ -2840,6 +2835,16 @@ where
         Ok(Expr::Function(func))
     }
 
+    /// `eval` and `arguments` can't be bound
+    /// in strict mode
+    fn check_restricted(&self, item: &Item) -> Res<()> {
+        let word = &self.scanner.stream[item.span.start..item.span.end];
+        if self.context.strict && Self::is_restricted_word(word) && !self.config.tolerant {
+            return self.unexpected_token_error(item, "restricted ident in strict context");
+        }
+        Ok(())
+    }
+
     fn parse_fn_name(&mut self, is_gen: bool) -> Res<Identifier> {
         debug!("parse_fn_name");
         if self.context.strict && !is_gen && self.at_keyword(Keyword::Yield) {
@@ -3002,7 +3007,9 @@ where
             } else {
                 true
             };
+            let start = self.look_ahead.clone();
             let ident = self.parse_var_ident(is_var)?;
+            self.check_restricted(&start)?;
             let restricted = &ident == "eval" || &ident == "arguments";
             params.push(self.look_ahead.clone());
             Ok((restricted, Pat::Identifier(ident)))
@@ -3082,7 +3089,11 @@ where
         let (key, value) = if self.is_ident_reference(&self.look_ahead.token)
             && !self.at_keyword(Keyword::Let)
         {
+            let start = self.look_ahead.clone();
             let key = PropertyKey::Expr(Expr::Ident(self.parse_var_ident(false)?));
+            if !self.at_punct(Punct::Colon) {
+                self.check_restricted(&start)?;
+            }
             let value = if self.at_punct(Punct::Assign) {
                 self.expect_punct(Punct::Assign)?;
                 short_hand = true;
-- 
2.43.0


From 9333410380bec916c2d98a5975d5a038fbd9fdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:54 +0000
Subject: [PATCH 53/93] fix: a shorthand property initialiser is only valid in
 a pattern

---
 src/lib.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4bb1a72..c84eb6e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1307,6 +1307,14 @@ where
             let (prev_bind, prev_assign, prev_first) = self.inherit_cover_grammar();
             let init = self.parse_assignment_expr()?;
             let is_target = self.context.is_assignment_target && !Self::is_assignment_expr(&init);
+            if self.at_keyword(Keyword::In) || self.at_contextual_keyword("of") {
+                self.context.first_covert_initialized_name_error = None;
+            } else if let Some(ref item) = self.context.first_covert_initialized_name_error {
+                return self.unexpected_token_error(
+                    item,
+                    "shorthand property initialiser outside of a pattern",
+                );
+            }
             self.set_inherit_cover_grammar_state(prev_bind, prev_assign, prev_first);
             self.context.allow_in = prev_in;
             if self.at_keyword(Keyword::In) {
@@ -3162,6 +3170,7 @@ where
                         );
                     }
                     self.expect_punct(Punct::FatArrow)?;
+                    self.context.first_covert_initialized_name_error = None;
                     let prev_yield = self.context.allow_yield;
                     let prev_await = self.context.r#await;
                     let prev_strict = self.context.strict;
@@ -4220,9 +4229,9 @@ where
         prev_assign: bool,
         prev_first: Option<Item>,
     ) -> Res<()> {
-        if let Some(ref _e) = prev_first {
-            //FIXME this needs to do something
-            //like an error?
+        if let Some(ref item) = self.context.first_covert_initialized_name_error {
+            return self
+                .unexpected_token_error(item, "shorthand property initialiser outside of a pattern");
         }
         self.context.is_binding_element = prev_bind;
         self.context.is_assignment_target = prev_assign;
-- 
2.43.0


From 0897821059c7b723627957c0c0dc7cd09a8f8945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:00 +0000
Subject: [PATCH 54/93] fix: a function body does not make its function an
 assignment target

---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index c84eb6e..0cc2b56 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1776,6 +1776,7 @@ where
         let prev_iter = self.context.in_iteration;
         let prev_switch = self.context.in_switch;
         let prev_in_fn = self.context.in_function_body;
+        let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
         self.context.label_set = HashSet::new();
         self.context.in_iteration = false;
         self.context.in_switch = false;
@@ -1791,6 +1792,7 @@ where
         self.context.in_iteration = prev_iter;
         self.context.in_switch = prev_switch;
         self.context.in_function_body = prev_in_fn;
+        self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
         Ok(body)
     }
 
-- 
2.43.0


From cf3b29c4b4773ebe31272f0159d37c2500eaa643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:04 +0000
Subject: [PATCH 55/93] fix: a default export is no pattern

---
 src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 0cc2b56..82f74cb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -754,7 +754,9 @@ where
                     let decl = Decl::Function(func);
                     DefaultExportDecl::Decl(decl)
                 } else {
+                    let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
                     let expr = self.parse_assignment_expr()?;
+                    self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
                     self.consume_semicolon()?;
                     DefaultExportDecl::Expr(expr)
                 }
@@ -762,7 +764,9 @@ where
                 if self.at_contextual_keyword("from") {
                     //error
                 }
+                let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
                 let expr = self.parse_assignment_expr()?;
+                self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
                 self.consume_semicolon()?;
                 DefaultExportDecl::Expr(expr)
             };
-- 
2.43.0


From 18305b246c1ae74b9e14686287dc80552ef3c9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:27 +0000
Subject: [PATCH 56/93] fix: a unary operator needs parentheses to the left of
 **

---
 src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 82f74cb..163edf6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3653,10 +3653,17 @@ where
 
     fn parse_exponentiation_expression(&mut self) -> Res<Expr> {
         debug!("parse_exponentiation_expression");
+        let start = self.look_ahead.clone();
         let (prev_bind, prev_assign, prev_first) = self.inherit_cover_grammar();
         let expr = self.parse_unary_expression()?;
         self.set_inherit_cover_grammar_state(prev_bind, prev_assign, prev_first);
         if self.at_punct(Punct::Exponent) {
+            if Self::unary_operator(&start.token).is_some() {
+                return self.unexpected_token_error(
+                    &self.look_ahead,
+                    "unary operator to the left of an exponentiation",
+                );
+            }
             let _stars = self.next_item()?;
             self.context.is_assignment_target = false;
             self.context.is_binding_element = false;
-- 
2.43.0


From 99207e644b6c8b35aed543411c2f9d200a62bf52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:09 +0000
Subject: [PATCH 57/93] fix: any name can be the key of a property pattern

---
 src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 163edf6..142035b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3104,8 +3104,11 @@ where
             && !self.at_keyword(Keyword::Let)
         {
             let start = self.look_ahead.clone();
-            let key = PropertyKey::Expr(Expr::Ident(self.parse_var_ident(false)?));
+            let key = PropertyKey::Expr(Expr::Ident(self.parse_ident_name()?));
             if !self.at_punct(Punct::Colon) {
+                if self.is_reserved_ident(&start) {
+                    return self.expected_token_error(&start, &["variable identifier"]);
+                }
                 self.check_restricted(&start)?;
             }
             let value = if self.at_punct(Punct::Assign) {
-- 
2.43.0


From e877c8edfc608ea7777837989ee89371a68159ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:12 +0000
Subject: [PATCH 58/93] fix: the default of a shorthand property pattern is an
 expression of its own

---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 142035b..ae4abcb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3114,7 +3114,9 @@ where
             let value = if self.at_punct(Punct::Assign) {
                 self.expect_punct(Punct::Assign)?;
                 short_hand = true;
+                let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
                 let e = self.parse_assignment_expr()?;
+                self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
                 PropertyValue::Expr(e)
             } else if !self.at_punct(Punct::Colon) {
                 short_hand = true;
-- 
2.43.0


From ba9f58b2dfe2bd0021ea2d5a2d293e411c717f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:15 +0000
Subject: [PATCH 59/93] fix: only a pattern as the head of a loop takes
 shorthand initialisers

---
 src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index ae4abcb..246d7a2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1311,7 +1311,9 @@ where
             let (prev_bind, prev_assign, prev_first) = self.inherit_cover_grammar();
             let init = self.parse_assignment_expr()?;
             let is_target = self.context.is_assignment_target && !Self::is_assignment_expr(&init);
-            if self.at_keyword(Keyword::In) || self.at_contextual_keyword("of") {
+            if Self::is_cover_pattern(&init)
+                && (self.at_keyword(Keyword::In) || self.at_contextual_keyword("of"))
+            {
                 self.context.first_covert_initialized_name_error = None;
             } else if let Some(ref item) = self.context.first_covert_initialized_name_error {
                 return self.unexpected_token_error(
-- 
2.43.0


From f25e4ba3da30a56fb7943c488cfa9277b8df7f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:43 +0000
Subject: [PATCH 60/93] fix: the first other statement ends the directive
 prologue of a function

---
 src/lib.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 246d7a2..7797a55 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -518,7 +518,15 @@ where
             if !self.look_ahead.token.is_string() {
                 break;
             }
-            ret.push(self.parse_directive()?);
+            let part = self.parse_directive()?;
+            let is_directive = match &part {
+                ProgramPart::Dir(_) => true,
+                _ => false,
+            };
+            ret.push(part);
+            if !is_directive {
+                break;
+            }
         }
         Ok(ret)
     }
-- 
2.43.0


From a3b42b90f50feb8d7c15b30fd8de4cf2e558fb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:57 +0000
Subject: [PATCH 61/93] fix: columns start over after every line terminator

---
 src/lib.rs | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7797a55..9d77076 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4367,22 +4367,12 @@ where
             self.look_ahead_position.column += prev_text.len();
             return Ok(())
         }
-        let last_line_len = if let Some(last_line) = prev_text.lines().last() {
-            // Lines doesn't include a final empty line if the string ends with a new line
-            // we need to make sure we reset the column to 0 if the string ends with a new line
-            if let Some(ref c) = prev_text.chars().last() {
-                if c == &'\n' || c == &'\r' || c == &'\u{2028}' || c == &'\u{2029}' {
-                    0
-                } else {
-                    last_line.len()
-                }
-
-            } else {
-                0
-            }
-        } else {
-            0
-        };
+        // every line terminator starts a new line, the column is what follows the last of them
+        let last_line_len = prev_text
+            .rsplit(|c| c == '\n' || c == '\r' || c == '\u{2028}' || c == '\u{2029}')
+            .next()
+            .map(|last_line| last_line.len())
+            .unwrap_or(0);
         self.look_ahead_position.line += line_counts;
         self.look_ahead_position.column = last_line_len;
         Ok(())
-- 
2.43.0


From 6059db373362cacf46b9f0f7e18f3ca3acc78624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:00 +0000
Subject: [PATCH 62/93] fix: a comment does not move the position of the token
 before it

---
 src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 9d77076..f6d1de5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4313,6 +4313,7 @@ where
     /// and return the last token
     fn next_item(&mut self) -> Res<Item> {
         let mut look_ahead_span = self.look_ahead.span;
+        let consumed_position = self.look_ahead_position;
         self.context.has_line_term = false;
         loop {
             self.context.has_line_term |= self.scanner.pending_new_line;
@@ -4322,6 +4323,8 @@ where
                     debug!("look_ahead: {:?}", self._look_ahead);
                 }
                 self.update_positions(look_ahead_span, look_ahead.span.start)?;
+                // comments in between are not the current token
+                self.current_position = consumed_position;
                 if let Token::Comment(ref kind) = &look_ahead.token {
                     let c = self.get_string(&look_ahead.span)?;
                     let kind = match kind {
-- 
2.43.0


From 484a95ba134a5712e9877b0a2286312469c2059f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:04 +0000
Subject: [PATCH 63/93] fix: with and nested labels are blamed themselves, not
 a token beside them

---
 src/lib.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index f6d1de5..29dca37 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -938,7 +938,7 @@ where
         debug!("parse_with_stmt");
         if self.context.strict {
             self.tolerate_error(Error::NonStrictFeatureInStrictContext(
-                self.current_position,
+                self.look_ahead_position,
                 "with statements".to_string(),
             ))?;
         }
@@ -1512,6 +1512,7 @@ where
 
     fn parse_labelled_statement(&mut self) -> Res<Stmt> {
         debug!("parse_labelled_statement, {:?}", self.look_ahead.token);
+        let start_position = self.look_ahead_position;
         let ret = self.parse_expression()?;
         if Self::is_ident(&ret) && self.at_punct(Punct::Colon) {
             let _colon = self.next_item()?;
@@ -1521,7 +1522,7 @@ where
                 return Err(self.reinterpret_error("expression", "ident"));
             };
             if !self.context.label_set.insert(format!("${}", &id)) {
-                return Err(self.redecl_error(&id));
+                return Err(Error::Redecl(start_position, id));
             }
             let body = if self.at_keyword(Keyword::Class) {
                 let class = self.next_item()?;
@@ -4687,9 +4688,6 @@ where
     fn op_error(&self, msg: &str) -> Error {
         Error::OperationError(self.current_position, msg.to_owned())
     }
-    fn redecl_error(&self, name: &str) -> Error {
-        Error::Redecl(self.current_position, name.to_owned())
-    }
     fn reinterpret_error(&self, from: &str, to: &str) -> Error {
         Error::UnableToReinterpret(self.current_position, from.to_owned(), to.to_owned())
     }
-- 
2.43.0


From bc00776e632dad3474c75f4b11947123ed8812b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:08 +0000
Subject: [PATCH 64/93] fix: yield takes contextual keywords as its operand and
 ends before the rest of a template

---
 src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 29dca37..0f14336 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4592,8 +4592,13 @@ where
                 || token.matches_punct(&Punct::Increment)
                 || token.matches_punct(&Punct::Decrement)
         }
+        if self.look_ahead.is_template() {
+            // the rest of a template this expression is part of can't start one
+            ret = token.is_template_head();
+        }
         if token.is_keyword() {
-            ret = token.matches_keyword(&Keyword::Class)
+            ret = self.is_ident_reference(token)
+                || token.matches_keyword(&Keyword::Class)
                 || token.matches_keyword(&Keyword::Delete)
                 || token.matches_keyword(&Keyword::Function)
                 || token.matches_keyword(&Keyword::Import)
-- 
2.43.0


From 1443a8198113b541d3854cfc807dbda302d183f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:13 +0000
Subject: [PATCH 65/93] fix: a bad template part and restricted parameters are
 blamed themselves

---
 src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0f14336..0d1df3e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1761,6 +1761,7 @@ where
         let prev_strict = self.context.strict;
         let prev_allow_strict = self.context.allow_strict_directive;
         self.context.allow_strict_directive = formal_params.simple;
+        let start = self.look_ahead.clone();
         let body = self.parse_function_source_el()?;
         if self.context.strict {
             if let Some(ref item) = first_restricted {
@@ -1768,7 +1769,7 @@ where
             }
         }
         if self.context.strict && strict {
-            return self.expected_token_error(&self.look_ahead, &[]);
+            return self.expected_token_error(&start, &[]);
         }
         self.context.strict = prev_strict;
         self.context.allow_strict_directive = prev_allow_strict;
@@ -2799,7 +2800,7 @@ where
             };
             Ok(TemplateElement { raw, cooked, tail })
         } else {
-            self.expected_token_error(&self.look_ahead, &["Template part"])
+            self.expected_token_error(&item, &["Template part"])
         }
     }
 
-- 
2.43.0


From 29df55a1062e097501d8bf006a70c8698434e668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:29 +0000
Subject: [PATCH 66/93] fix: a parenthesised name is no parameter

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0d1df3e..27df7b4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2520,7 +2520,7 @@ where
                 }
                 self.expect_punct(Punct::CloseParen)?;
                 if self.at_punct(Punct::FatArrow) {
-                    if Self::is_ident(&ex) {
+                    if Self::is_ident(&ex) && self.context.is_binding_element {
                         self.context.is_binding_element = false;
                         return Ok(Expr::ArrowParamPlaceHolder(
                             vec![FunctionArg::Expr(ex)],
-- 
2.43.0


From c0eb3d68125e07fcf3a0029b1cff61144aa72a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:46 +0000
Subject: [PATCH 67/93] fix: an async arrow's parameters follow its async
 directly and are held to be parameters

---
 src/lib.rs | 60 ++++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 43 insertions(+), 17 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 27df7b4..87794e5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4026,19 +4026,29 @@ where
                 debug!(target: "look_ahead", "1 {:?}", expr);
             } else if self.at_punct(Punct::OpenParen) {
                 let current_pos = self.look_ahead_position;
-                let async_arrow = is_async && start_pos.line == current_pos.line;
+                let async_arrow =
+                    is_async && Self::is_ident(&expr) && start_pos.line == current_pos.line;
                 self.context.is_binding_element = false;
                 self.context.is_assignment_target = false;
-                let args = if async_arrow {
+                let (args, are_params, first_error) = if async_arrow {
                     self.parse_async_args()?
                 } else {
-                    self.parse_args()?
+                    (self.parse_args()?, false, None)
                 };
                 //TODO: check for bad import call
                 if async_arrow && self.at_punct(Punct::FatArrow) {
+                    if !are_params {
+                        return self.expected_token_error(&self.look_ahead, &["binding element"]);
+                    }
                     let args = args.into_iter().map(|a| FunctionArg::Expr(a)).collect();
                     expr = Expr::ArrowParamPlaceHolder(args, true);
                 } else {
+                    if let Some(ref item) = first_error {
+                        return self.unexpected_token_error(
+                            item,
+                            "shorthand property initialiser outside of a pattern",
+                        );
+                    }
                     let inner = CallExpr {
                         callee: Box::new(expr),
                         arguments: args,
@@ -4076,25 +4086,42 @@ where
         self.context.allow_in = prev_in;
         Ok(expr)
     }
-    /// Parse the arguments of an async function
-    fn parse_async_args(&mut self) -> Res<Vec<Expr>> {
+    /// Parse what are either the parameters of an async arrow function or the
+    /// arguments of a call, along with whether they can be parameters and
+    /// what keeps them from being arguments
+    fn parse_async_args(&mut self) -> Res<(Vec<Expr>, bool, Option<Item>)> {
         debug!("parse_async_args");
         self.expect_punct(Punct::OpenParen)?;
         let mut ret = vec![];
+        let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
         if !self.at_punct(Punct::CloseParen) {
             loop {
                 let arg = if self.at_punct(Punct::Spread) {
                     self.parse_spread_element()?
                 } else {
-                    let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
-                    let arg = self.parse_async_arg()?;
-                    self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
+                    let (prev_bind, prev_assign, prev_first) = self.inherit_cover_grammar();
+                    let arg = self.parse_assignment_expr()?;
+                    self.set_inherit_cover_grammar_state(prev_bind, prev_assign, prev_first);
                     arg
                 };
+                let is_rest = match &arg {
+                    Expr::Spread(ref inner) => {
+                        // a rest parameter has no default
+                        if Self::is_assignment_expr(inner) {
+                            self.context.is_binding_element = false;
+                        }
+                        true
+                    }
+                    _ => false,
+                };
                 ret.push(arg);
                 if self.at_punct(Punct::CloseParen) {
                     break;
                 }
+                // and nothing follows it
+                if is_rest {
+                    self.context.is_binding_element = false;
+                }
                 self.expect_comma_sep()?;
                 if self.at_punct(Punct::CloseParen) {
                     break;
@@ -4102,15 +4129,14 @@ where
             }
         }
         self.expect_punct(Punct::CloseParen)?;
-        Ok(ret)
-    }
-    /// Parse an argument of an async function
-    /// note: not sure this is needed
-    fn parse_async_arg(&mut self) -> Res<Expr> {
-        debug!("parse_async_arg");
-        let expr = self.parse_assignment_expr()?;
-        self.context.first_covert_initialized_name_error = None;
-        Ok(expr)
+        let are_params = self.context.is_binding_element;
+        let first_error = replace(
+            &mut self.context.first_covert_initialized_name_error,
+            prev_first,
+        );
+        self.context.is_binding_element = prev_bind;
+        self.context.is_assignment_target = prev_assign;
+        Ok((ret, are_params, first_error))
     }
     /// Expect a comma separator,
     /// if parsing with tolerance we can tolerate
-- 
2.43.0


From 988c80c597070013ee0aa15f0838f5f0badb9fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:51 +0000
Subject: [PATCH 68/93] fix: no async accessors in classes

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 87794e5..0fe7d9a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1926,8 +1926,8 @@ where
         if token.is_ident() {
             let (at_get, at_set) = if let Some(ref k) = key {
                 (
-                    Self::is_key(&k, "get") && look_ahead_prop_key,
-                    Self::is_key(&k, "set") && look_ahead_prop_key,
+                    Self::is_key(&k, "get") && look_ahead_prop_key && !is_async,
+                    Self::is_key(&k, "set") && look_ahead_prop_key && !is_async,
                 )
             } else {
                 (false, false)
-- 
2.43.0


From 770c30a402b608cb24e62eb5f998b5d498fb2ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:56 +0000
Subject: [PATCH 69/93] fix: let names functions in sloppy code

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0fe7d9a..c15bcd2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1733,7 +1733,7 @@ where
         };
         let (id, first_restricted) = if !opt_ident || !self.at_punct(Punct::OpenParen) {
             let start = self.look_ahead.clone();
-            let id = self.parse_var_ident(false)?;
+            let id = self.parse_var_ident(true)?;
             self.check_restricted(&start)?;
             let first_restricted = if !self.context.strict {
                 if Self::is_restricted_word(&id) {
-- 
2.43.0


From d8389129775447c9a0115291728d2697e2e339c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:02 +0000
Subject: [PATCH 70/93] fix: async function* declares an async generator like
 its expression form

---
 src/lib.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c15bcd2..785b756 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1722,15 +1722,10 @@ where
             false
         };
         self.expect_keyword(Keyword::Function)?;
-        let is_gen = if is_async {
-            false
-        } else {
-            let is_gen = self.at_punct(Punct::Asterisk);
-            if is_gen {
-                let _ = self.next_item()?;
-            }
-            is_gen
-        };
+        let is_gen = self.at_punct(Punct::Asterisk);
+        if is_gen {
+            let _ = self.next_item()?;
+        }
         let (id, first_restricted) = if !opt_ident || !self.at_punct(Punct::OpenParen) {
             let start = self.look_ahead.clone();
             let id = self.parse_var_ident(true)?;
-- 
2.43.0


From 7f9e12c602f46adaa95dc8a460c2639da346264f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:07 +0000
Subject: [PATCH 71/93] fix: async functions among declarations are
 declarations

---
 src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 785b756..dc0e734 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -613,6 +613,11 @@ where
                     Ok(ProgramPart::Stmt(stmt))
                 }
             },
+            Token::Ident if self.at_async_function() => {
+                let func = self.parse_function_decl(true)?;
+                let decl = Decl::Function(func);
+                Ok(ProgramPart::Decl(decl))
+            }
             _ => {
                 let stmt = self.parse_statement()?;
                 Ok(ProgramPart::Stmt(stmt))
-- 
2.43.0


From b2ca85de8e5d17c27fcf51e6913c658993624b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:40 +0000
Subject: [PATCH 72/93] fix: yield takes an await expression as its operand

---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index dc0e734..cce765a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4625,6 +4625,7 @@ where
         }
         if token.is_keyword() {
             ret = self.is_ident_reference(token)
+                || token.matches_keyword(&Keyword::Await)
                 || token.matches_keyword(&Keyword::Class)
                 || token.matches_keyword(&Keyword::Delete)
                 || token.matches_keyword(&Keyword::Function)
-- 
2.43.0


From 5c28c0bf538bde62bc444eaa3b88c2f74868226f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:08 +0000
Subject: [PATCH 73/93] fix: arrow parameters and patterns respect the names
 strict code restricts

---
 src/lib.rs | 56 +++++++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 55 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index cce765a..5f6ae60 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1323,7 +1323,9 @@ where
             self.context.allow_in = false;
             let (prev_bind, prev_assign, prev_first) = self.inherit_cover_grammar();
             let init = self.parse_assignment_expr()?;
-            let is_target = self.context.is_assignment_target && !Self::is_assignment_expr(&init);
+            let is_target = self.context.is_assignment_target
+                && !Self::is_assignment_expr(&init)
+                && !(self.context.strict && Self::has_restricted_target(&init));
             if Self::is_cover_pattern(&init)
                 && (self.at_keyword(Keyword::In) || self.at_contextual_keyword("of"))
             {
@@ -3186,6 +3188,7 @@ where
                 self.context.is_binding_element = false;
                 let is_async = Self::is_async(&current);
                 if let Some(params) = self.reinterpret_as_cover_formals_list(current.clone())? {
+                    let arrow = self.look_ahead.clone();
                     if self.context.has_line_term && !self.config.tolerant {
                         return self.unexpected_token_error(
                             &self.look_ahead,
@@ -3201,6 +3204,13 @@ where
                     self.context.allow_yield = true;
                     self.context.r#await = is_async;
                     self.context.allow_strict_directive = params.iter().all(Self::is_simple);
+                    let found_restricted = params.iter().any(|p| match p {
+                        FunctionArg::Expr(ref e) => Self::has_restricted_target(e),
+                        FunctionArg::Pat(Pat::Identifier(ref i)) => {
+                            Self::is_restricted_word(i) || Self::is_strict_reserved(i)
+                        }
+                        FunctionArg::Pat(_) => false,
+                    });
                     if self.at_punct(Punct::OpenBrace) {
                         let prev_in = self.context.allow_in;
                         self.context.allow_in = true;
@@ -3227,6 +3237,12 @@ where
                             body: ArrowFunctionBody::Expr(Box::new(a)),
                         });
                     };
+                    if self.context.strict && found_restricted && !self.config.tolerant {
+                        return self.unexpected_token_error(
+                            &arrow,
+                            "restricted ident in strict context",
+                        );
+                    }
                     self.context.allow_yield = prev_yield;
                     self.context.r#await = prev_await;
                     self.context.strict = prev_strict;
@@ -3244,6 +3260,16 @@ where
                             );
                         }
                     }
+                    if self.context.strict
+                        && Self::is_cover_pattern(&current)
+                        && Self::has_restricted_target(&current)
+                        && !self.config.tolerant
+                    {
+                        return self.unexpected_token_error(
+                            &self.look_ahead,
+                            "restricted ident in strict context",
+                        );
+                    }
                     if self.context.strict && Self::is_ident(&current) {
                         if let Expr::Ident(ref i) = current {
                             if Self::is_restricted_word(i) {
@@ -3307,6 +3333,34 @@ where
         }
     }
 
+    /// Tests if an assignment target or a pattern, still in the shape of an
+    /// expression, has a name in it that strict mode doesn't let one assign to
+    fn has_restricted_target(expr: &Expr) -> bool {
+        match expr {
+            Expr::Ident(ref i) => Self::is_restricted_word(i) || Self::is_strict_reserved(i),
+            Expr::Assignment(ref a) => match &a.left {
+                AssignmentLeft::Expr(ref e) => Self::has_restricted_target(e),
+                AssignmentLeft::Pat(_) => false,
+            },
+            Expr::Spread(ref e) => Self::has_restricted_target(e),
+            Expr::Array(ref elements) => elements.iter().any(|e| match e {
+                Some(ref e) => Self::has_restricted_target(e),
+                None => false,
+            }),
+            Expr::Object(ref props) => props.iter().any(|p| match p {
+                ObjectProperty::Property(ref p) => match (&p.key, &p.value) {
+                    (PropertyKey::Expr(ref key), _) if p.short_hand => {
+                        Self::has_restricted_target(key)
+                    }
+                    (_, PropertyValue::Expr(ref e)) => Self::has_restricted_target(e),
+                    _ => false,
+                },
+                ObjectProperty::Spread(ref e) => Self::has_restricted_target(e),
+            }),
+            _ => false,
+        }
+    }
+
     fn is_async(expr: &Expr) -> bool {
         match expr {
             &Expr::Function(ref f) => f.is_async,
-- 
2.43.0


From 1db14079e5900dd94301e2e6d46c3cf57e6508b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:11 +0000
Subject: [PATCH 74/93] fix: let names function expressions in sloppy code

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5f6ae60..5f802d5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2878,7 +2878,7 @@ where
         if self.context.strict && !is_gen && self.at_keyword(Keyword::Yield) {
             self.parse_ident_name()
         } else {
-            self.parse_var_ident(false)
+            self.parse_var_ident(true)
         }
     }
 
-- 
2.43.0


From 422f481da26fc6eb962640d7233cbd4d7536d169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:17 +0000
Subject: [PATCH 75/93] fix: imports don't bind the names strict code restricts

---
 src/lib.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5f802d5..d59da63 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -713,11 +713,13 @@ where
 
     fn parse_import_specifier(&mut self) -> Res<ImportSpecifier> {
         let (imported, local) = if self.look_ahead.token.is_ident() {
+            let start = self.look_ahead.clone();
             let imported = self.parse_var_ident(false)?;
             let local = if self.at_contextual_keyword("as") {
                 let _ = self.next_item()?;
-                Some(self.parse_var_ident(false)?)
+                Some(self.parse_import_binding()?)
             } else {
+                self.check_restricted(&start)?;
                 None
             };
             (imported, local)
@@ -727,7 +729,7 @@ where
                 return self.expected_token_error(&self.look_ahead, &["as"]);
             }
             let _ = self.next_item()?;
-            let local = Some(self.parse_var_ident(false)?);
+            let local = Some(self.parse_import_binding()?);
             (imported, local)
         };
         Ok(ImportSpecifier::Normal(imported, local))
@@ -739,15 +741,22 @@ where
             return self.expected_token_error(&self.look_ahead, &["as"]);
         }
         let _ = self.next_item()?;
-        let ident = self.parse_var_ident(false)?;
+        let ident = self.parse_import_binding()?;
         Ok(ImportSpecifier::Namespace(ident))
     }
 
     fn parse_import_default_specifier(&mut self) -> Res<ImportSpecifier> {
-        let ident = self.parse_var_ident(false)?;
+        let ident = self.parse_import_binding()?;
         Ok(ImportSpecifier::Default(ident))
     }
 
+    fn parse_import_binding(&mut self) -> Res<Identifier> {
+        let start = self.look_ahead.clone();
+        let ident = self.parse_var_ident(false)?;
+        self.check_restricted(&start)?;
+        Ok(ident)
+    }
+
     fn parse_export_decl(&mut self) -> Res<ModExport> {
         if self.context.in_function_body {
             //error
-- 
2.43.0


From f5ec06b6e721114094d7f4389b43526bf4b77c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:22 +0000
Subject: [PATCH 76/93] fix: a yield expression as an arrow parameter's default
 is an error, not a parameter

---
 src/lib.rs | 61 ++++++++++++++----------------------------------------
 1 file changed, 16 insertions(+), 45 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index d59da63..85ae3be 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3408,57 +3408,16 @@ where
     }
 
     fn reinterpret_as_cover_formals_list(&mut self, expr: Expr) -> Res<Option<Vec<FunctionArg>>> {
-        let (mut params, async_arrow) = if Self::is_ident(&expr) {
+        let (params, async_arrow) = if Self::is_ident(&expr) {
             (vec![FunctionArg::Expr(expr)], false)
         } else if let Expr::ArrowParamPlaceHolder(params, is_async) = expr {
             (params, is_async)
         } else {
             return Ok(None);
         };
-        let mut invalid_param = false;
-        params = params
-            .into_iter()
-            .map(|p| {
-                if Self::is_assignment(&p) {
-                    match &p {
-                        FunctionArg::Pat(ref p) => match p {
-                            Pat::Assignment(ref a) => match &*a.right {
-                                Expr::Yield(ref y) => {
-                                    if y.argument.is_some() {
-                                        invalid_param = true;
-                                    } else {
-                                        return FunctionArg::Pat(Pat::Identifier(
-                                            "yield".to_owned(),
-                                        ));
-                                    }
-                                }
-                                _ => (),
-                            },
-                            _ => (),
-                        },
-                        FunctionArg::Expr(ref e) => match e {
-                            Expr::Assignment(ref a) => match &*a.right {
-                                Expr::Yield(ref y) => {
-                                    if y.argument.is_some() {
-                                        invalid_param = true;
-                                    } else {
-                                        return FunctionArg::Expr(Expr::Ident("yield".to_owned()));
-                                    }
-                                }
-                                _ => (),
-                            },
-                            _ => (),
-                        },
-                    }
-                    p
-                } else if async_arrow && Self::is_await(&p) {
-                    invalid_param = true;
-                    p
-                } else {
-                    p
-                }
-            })
-            .collect();
+        let invalid_param = params.iter().any(|p| {
+            (Self::is_assignment(p) && Self::is_yield_default(p)) || (async_arrow && Self::is_await(p))
+        });
         if invalid_param {
             return self.expected_token_error(
                 &self.look_ahead,
@@ -3484,6 +3443,18 @@ where
         Ok(Some(params))
     }
 
+    fn is_yield_default(arg: &FunctionArg) -> bool {
+        let right = match arg {
+            FunctionArg::Pat(Pat::Assignment(ref a)) => &a.right,
+            FunctionArg::Expr(Expr::Assignment(ref a)) => &a.right,
+            _ => return false,
+        };
+        match &**right {
+            Expr::Yield(_) => true,
+            _ => false,
+        }
+    }
+
     fn is_await(arg: &FunctionArg) -> bool {
         match arg {
             FunctionArg::Expr(ref e) => match e {
-- 
2.43.0


From dbc6b5808cc4ffa72ad3ab250a7d9045962be288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:25 +0000
Subject: [PATCH 77/93] fix: the directive prologue of a function is part of
 its body

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 85ae3be..0aec34a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1798,7 +1798,6 @@ where
     fn parse_function_source_el(&mut self) -> Res<FunctionBody> {
         debug!("parse_function_source_el");
         self.expect_punct(Punct::OpenBrace)?;
-        let mut body = self.parse_directive_prologues()?;
         let prev_label = self.context.label_set.clone();
         let prev_iter = self.context.in_iteration;
         let prev_switch = self.context.in_switch;
@@ -1808,6 +1807,7 @@ where
         self.context.in_iteration = false;
         self.context.in_switch = false;
         self.context.in_function_body = true;
+        let mut body = self.parse_directive_prologues()?;
         while !self.look_ahead.token.is_eof() {
             if self.at_punct(Punct::CloseBrace) {
                 break;
-- 
2.43.0


From d131b1ed653f4e7b05d2ac23757b52ef4a2738ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:30 +0000
Subject: [PATCH 78/93] fix: yield and await expressions are for bodies and
 patterns, not for parameters

---
 src/lib.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0aec34a..9b7fc32 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -106,6 +106,8 @@ struct Context {
     is_binding_element: bool,
     /// If we have entered a function body
     in_function_body: bool,
+    /// If we have entered the parameters of a function
+    in_params: bool,
     /// If we have entered a loop block
     in_iteration: bool,
     /// If we have entered a switch block
@@ -146,6 +148,7 @@ impl Default for Context {
             is_assignment_target: false,
             is_binding_element: false,
             in_function_body: false,
+            in_params: false,
             in_iteration: false,
             in_switch: false,
             label_set: HashSet::new(),
@@ -1802,7 +1805,9 @@ where
         let prev_iter = self.context.in_iteration;
         let prev_switch = self.context.in_switch;
         let prev_in_fn = self.context.in_function_body;
+        let prev_in_params = self.context.in_params;
         let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
+        self.context.in_params = false;
         self.context.label_set = HashSet::new();
         self.context.in_iteration = false;
         self.context.in_switch = false;
@@ -1819,6 +1824,7 @@ where
         self.context.in_iteration = prev_iter;
         self.context.in_switch = prev_switch;
         self.context.in_function_body = prev_in_fn;
+        self.context.in_params = prev_in_params;
         self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
         Ok(body)
     }
@@ -2122,10 +2128,9 @@ where
         debug!("pares_generator_method");
         let prev_yield = self.context.allow_yield;
         let prev_await = self.context.r#await;
-        self.context.allow_yield = true;
+        self.context.allow_yield = false;
         self.context.r#await = false;
         let params = self.parse_formal_params()?;
-        self.context.allow_yield = false;
         let body = self.parse_method_body(params.simple, params.found_restricted)?;
         self.context.allow_yield = prev_yield;
         self.context.r#await = prev_await;
@@ -2935,6 +2940,8 @@ where
     fn parse_formal_params(&mut self) -> Res<FormalParams> {
         debug!("parse_formal_params");
         self.expect_punct(Punct::OpenParen)?;
+        let prev_in_params = self.context.in_params;
+        self.context.in_params = true;
         let mut args = vec![];
         let mut simple: bool = true;
         let mut found_restricted = false;
@@ -2954,6 +2961,7 @@ where
             }
         }
         self.expect_punct(Punct::CloseParen)?;
+        self.context.in_params = prev_in_params;
 
         Ok(FormalParams {
             params: args,
@@ -3002,12 +3010,9 @@ where
         let (is_restricted, ret) = self.parse_pattern(None, params)?;
         if self.at_punct(Punct::Assign) {
             let _assign = self.next_item()?;
-            let prev_yield = self.context.allow_yield;
-            self.context.allow_yield = true;
             let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
             let right = self.parse_assignment_expr()?;
             self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
-            self.context.allow_yield = prev_yield;
             return Ok((
                 is_restricted,
                 Pat::Assignment(AssignmentPat {
@@ -3210,6 +3215,8 @@ where
                     let prev_await = self.context.r#await;
                     let prev_strict = self.context.strict;
                     let prev_allow_strict = self.context.allow_strict_directive;
+                    let prev_in_params = self.context.in_params;
+                    self.context.in_params = false;
                     self.context.allow_yield = true;
                     self.context.r#await = is_async;
                     self.context.allow_strict_directive = params.iter().all(Self::is_simple);
@@ -3256,6 +3263,7 @@ where
                     self.context.r#await = prev_await;
                     self.context.strict = prev_strict;
                     self.context.allow_strict_directive = prev_allow_strict;
+                    self.context.in_params = prev_in_params;
                 }
             } else {
                 if self.at_assign() {
@@ -3544,6 +3552,10 @@ where
 
     fn parse_yield_expr(&mut self) -> Res<Expr> {
         debug!("parse_yield_expr");
+        if self.context.in_params {
+            return self
+                .unexpected_token_error(&self.look_ahead, "yield expression in the parameters");
+        }
         self.expect_keyword(Keyword::Yield)?;
         let mut arg: Option<Box<Expr>> = None;
         let mut delegate = false;
@@ -3835,6 +3847,10 @@ where
 
     fn parse_await_expr(&mut self) -> Res<Expr> {
         debug!("parse_await_expr");
+        if self.context.in_params {
+            return self
+                .unexpected_token_error(&self.look_ahead, "await expression in the parameters");
+        }
         let _await = self.next_item()?;
         let arg = self.parse_unary_expression()?;
         self.context.is_assignment_target = false;
-- 
2.43.0


From 6f8f1b652c614e4c09be48d4cc4db72aa1346dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:01 +0000
Subject: [PATCH 79/93] fix: new.target and super are at home in parameters too

---
 src/lib.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9b7fc32..11f2264 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3976,7 +3976,7 @@ where
         if !self.context.allow_in {
             // error
         }
-        let mut expr = if self.at_keyword(Keyword::Super) && self.context.in_function_body {
+        let mut expr = if self.at_keyword(Keyword::Super) && self.in_function() {
             self.parse_super()?
         } else {
             let (prev_bind, prev_assign, prev_first) = self.inherit_cover_grammar();
@@ -4028,6 +4028,11 @@ where
         Ok(expr)
     }
 
+    /// The parameters of a function are part of it just like its body
+    fn in_function(&self) -> bool {
+        self.context.in_function_body || self.context.in_params
+    }
+
     fn parse_super(&mut self) -> Res<Expr> {
         self.expect_keyword(Keyword::Super)?;
         if !self.at_punct(Punct::OpenBracket) && !self.at_punct(Punct::Period) {
@@ -4043,7 +4048,7 @@ where
         let prev_in = self.context.allow_in;
         self.context.allow_in = true;
 
-        let mut expr = if self.at_keyword(Keyword::Super) && self.context.in_function_body {
+        let mut expr = if self.at_keyword(Keyword::Super) && self.in_function() {
             let _ = self.next_item()?;
             if !self.at_punct(Punct::OpenParen)
                 && !self.at_punct(Punct::Period)
@@ -4254,7 +4259,7 @@ where
         self.expect_keyword(Keyword::New)?;
         if self.at_punct(Punct::Period) {
             let _ = self.next_item()?;
-            if self.at_contextual_keyword("target") && self.context.in_function_body {
+            if self.at_contextual_keyword("target") && self.in_function() {
                 self.context.is_assignment_target = false;
                 self.context.is_binding_element = false;
                 let property = self.parse_ident_name()?;
-- 
2.43.0


From a3cd9b7d1684eb691baa88c02e791e78f3e88f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:14 +0000
Subject: [PATCH 80/93] fix: break and continue need a label in scope or
 something to jump out of

---
 src/lib.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 11f2264..e274360 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -992,6 +992,7 @@ where
         } else {
             self.expect_punct(Punct::CloseParen)?;
             let prev_iter = self.context.in_iteration;
+            self.context.in_iteration = true;
             let body = self.parse_statement()?;
             self.context.in_iteration = prev_iter;
             body
@@ -1503,21 +1504,26 @@ where
 
     fn parse_optionally_labeled_statement(&mut self, k: Keyword) -> Res<Option<Identifier>> {
         debug!("parse_optionally_labeled_statement");
+        let start = self.look_ahead.clone();
         self.expect_keyword(k)?;
         let ret = if self.is_ident_reference(&self.look_ahead.token)
             && !self.context.has_line_term
         {
+            let label = self.look_ahead.clone();
             let id = self.parse_var_ident(false)?;
-            if !self.context.label_set.contains(&id) {
-                //error: unknown label
+            if !self.context.label_set.contains(&format!("${}", &id)) && !self.config.tolerant {
+                return self.unexpected_token_error(&label, "unknown label");
             }
             Some(id)
         } else {
             None
         };
         self.consume_semicolon()?;
-        if ret.is_some() && !self.context.in_iteration && !self.context.in_switch {
-            //error: invalid break
+        // a labelled break may leave any statement, `continue` is for loops
+        let has_target = self.context.in_iteration
+            || (k == Keyword::Break && (ret.is_some() || self.context.in_switch));
+        if !has_target && !self.config.tolerant {
+            return self.unexpected_token_error(&start, "nothing to jump out of");
         }
         Ok(ret)
     }
-- 
2.43.0


From 90a00dcdedada3b4f02bf740d7275dce1e8481d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:44 +0000
Subject: [PATCH 81/93] fix: loops, with and if don't take declarations as
 bodies

---
 src/lib.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index e274360..107e6cc 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -974,7 +974,7 @@ where
             self.expect_punct(Punct::CloseParen)?;
             WithStmt {
                 object: obj,
-                body: Box::new(self.parse_statement()?),
+                body: Box::new(self.parse_body()?),
             }
         })
     }
@@ -993,7 +993,7 @@ where
             self.expect_punct(Punct::CloseParen)?;
             let prev_iter = self.context.in_iteration;
             self.context.in_iteration = true;
-            let body = self.parse_statement()?;
+            let body = self.parse_body()?;
             self.context.in_iteration = prev_iter;
             body
         };
@@ -1208,7 +1208,10 @@ where
 
     fn parse_if_clause(&mut self) -> Res<Stmt> {
         debug!("parse_if_clause");
-        if self.context.strict && self.at_keyword(Keyword::Function) {
+        if (self.context.strict && self.at_keyword(Keyword::Function))
+            || self.at_keyword(Keyword::Class)
+            || self.at_async_function()
+        {
             if !self.config.tolerant {
                 return self.unexpected_token_error(&self.look_ahead, "");
             }
@@ -1216,6 +1219,17 @@ where
         self.parse_statement()
     }
 
+    /// The body of a loop or `with`, which is no declaration
+    fn parse_body(&mut self) -> Res<Stmt> {
+        let at_decl = self.at_keyword(Keyword::Function)
+            || self.at_keyword(Keyword::Class)
+            || self.at_async_function();
+        if at_decl && !self.config.tolerant {
+            return self.unexpected_token_error(&self.look_ahead, "declaration in place of a statement");
+        }
+        self.parse_statement()
+    }
+
     fn parse_fn_stmt(&mut self) -> Res<Expr> {
         debug!("parse_fn_stmt");
         let decl = self.parse_function_decl(true)?;
@@ -1466,7 +1480,7 @@ where
         let prev_iter = self.context.in_iteration;
         self.context.in_iteration = true;
         let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
-        let ret = self.parse_statement()?;
+        let ret = self.parse_body()?;
         self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
         self.context.in_iteration = prev_iter;
         Ok(ret)
@@ -1477,7 +1491,7 @@ where
         self.expect_keyword(Keyword::Do)?;
         let prev_iter = self.context.in_iteration;
         self.context.in_iteration = true;
-        let body = self.parse_statement()?;
+        let body = self.parse_body()?;
         self.context.in_iteration = prev_iter;
         self.expect_keyword(Keyword::While)?;
         self.expect_punct(Punct::OpenParen)?;
-- 
2.43.0


From 6916bf25f38ed79c27c5595e5c838b713c98f9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:05 +0000
Subject: [PATCH 82/93] fix: imports and exports are for the top level only

---
 src/lib.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 107e6cc..6c60563 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -628,6 +628,18 @@ where
         };
         ret
     }
+    /// Imports and exports are for the top level only
+    fn parse_nested_list_item(&mut self) -> Res<ProgramPart> {
+        let at_module_item = self.at_keyword(Keyword::Export)
+            || (self.at_keyword(Keyword::Import) && !self.at_import_call());
+        if at_module_item && !self.config.tolerant {
+            return self.unexpected_token_error(
+                &self.look_ahead,
+                "imports and exports are only allowed at the top level",
+            );
+        }
+        self.parse_statement_list_item()
+    }
     /// This will cover all possible import statements supported
     /// ```js
     /// import * as Stuff from 'place'; //namespace
@@ -1152,7 +1164,7 @@ where
             {
                 break;
             }
-            consequent.push(self.parse_statement_list_item()?)
+            consequent.push(self.parse_nested_list_item()?)
         }
         Ok(SwitchCase { test, consequent })
     }
@@ -1631,7 +1643,7 @@ where
             if self.at_punct(Punct::CloseBrace) {
                 break;
             }
-            let part = self.parse_statement_list_item()?;
+            let part = self.parse_nested_list_item()?;
             // if part.is_export() {
             //     //error
             // }
@@ -1837,7 +1849,7 @@ where
             if self.at_punct(Punct::CloseBrace) {
                 break;
             }
-            body.push(self.parse_statement_list_item()?)
+            body.push(self.parse_nested_list_item()?)
         }
         self.expect_punct(Punct::CloseBrace)?;
         self.context.label_set = prev_label;
-- 
2.43.0


From db4445e10870bb52be431909d2b2c12aa2cebecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:45 +0000
Subject: [PATCH 83/93] fix: destructuring in the head of a counting for loop
 needs an initialiser

---
 src/lib.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6c60563..3770d42 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1706,7 +1706,7 @@ where
             let init = self.parse_assignment_expr()?;
             self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
             Some(init)
-        } else if !Self::is_pat_ident(&id) && !in_for {
+        } else if !Self::is_pat_ident(&id) && !(in_for && self.at_for_in_of()) {
             self.expect_punct(Punct::Assign)?;
             None
         } else {
@@ -1715,6 +1715,11 @@ where
         Ok(VariableDecl { id, init })
     }
 
+    /// The heads of for-in and for-of loops take bindings without initialisers
+    fn at_for_in_of(&self) -> bool {
+        self.at_keyword(Keyword::In) || self.at_contextual_keyword("of")
+    }
+
     fn is_pat_ident(pat: &Pat) -> bool {
         match pat {
             Pat::Identifier(_) => true,
@@ -1732,7 +1737,7 @@ where
             }
         }
         let init = if kind == VariableKind::Const {
-            if !in_for || !self.at_keyword(Keyword::In) && !self.at_contextual_keyword("of") {
+            if !in_for || !self.at_for_in_of() {
                 if self.at_punct(Punct::Assign) {
                     let _ = self.next_item()?;
                     let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
@@ -1745,7 +1750,9 @@ where
             } else {
                 None
             }
-        } else if !in_for && !Self::is_pat_ident(&id) || self.at_punct(Punct::Assign) {
+        } else if (!Self::is_pat_ident(&id) && !(in_for && self.at_for_in_of()))
+            || self.at_punct(Punct::Assign)
+        {
             self.expect_punct(Punct::Assign)?;
             let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
             let init = self.parse_assignment_expr()?;
-- 
2.43.0


From b854cea537e8e4b278374a904532d171d043deba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:12 +0000
Subject: [PATCH 84/93] fix: for-in and for-of heads take initialisers only
 where sloppy code may have one

---
 src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3770d42..4ccb309 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1282,11 +1282,13 @@ where
                 } else {
                     return self.expected_token_error(&self.look_ahead, &["variable decl"]);
                 };
-                if self.at_keyword(Keyword::In) {
+                // sloppy code may initialise the variable of a for-in loop
+                let init_allowed = !self.context.strict && Self::is_pat_ident(&decl.id);
+                if self.at_keyword(Keyword::In) && (decl.init.is_none() || init_allowed) {
                     let left = LoopLeft::Variable(kind, decl);
                     let stmt = self.parse_for_in_loop(left)?;
                     return Ok(Stmt::ForIn(stmt));
-                } else if self.at_contextual_keyword("of") {
+                } else if decl.init.is_none() && self.at_contextual_keyword("of") {
                     let left = LoopLeft::Variable(kind, decl);
                     let stmt = self.parse_for_of_loop(left, is_await)?;
                     return Ok(Stmt::ForOf(stmt));
-- 
2.43.0


From 402c8bb2f14a8a18d9266299b7089e71a58eb918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:38 +0000
Subject: [PATCH 85/93] fix: let is a name in the head of a for loop unless a
 declaration follows

---
 src/lib.rs | 76 +++++++++++++++++++++++-------------------------------
 1 file changed, 32 insertions(+), 44 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4ccb309..ed29184 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1302,7 +1302,9 @@ where
                 let stmt = self.parse_for_loop_cont(Some(init))?;
                 return Ok(Stmt::For(stmt));
             }
-        } else if self.at_keyword(Keyword::Const) || self.at_keyword(Keyword::Let) {
+        } else if self.at_keyword(Keyword::Const)
+            || (self.at_keyword(Keyword::Let) && (self.context.strict || self.at_lexical_decl()))
+        {
             let kind = self.next_item()?;
             let kind = match &kind.token {
                 Token::Keyword(ref k) => match k {
@@ -1312,57 +1314,43 @@ where
                 },
                 _ => return self.expected_token_error(&kind, &["const", "let"]),
             };
-            if kind == VariableKind::Let
-                && !self.context.strict
-                && self.look_ahead.token.matches_keyword(&Keyword::In)
-            {
-                let _in = self.next_item()?;
-                //let becomes an ident
-                let left = LoopLeft::Expr(Expr::Ident(String::from("let")));
-                let right = self.parse_expression()?;
-                Ok(Stmt::ForIn(ForInStmt {
-                    left,
-                    right,
-                    body: Box::new(self.parse_loop_body()?),
-                }))
-            } else {
-                let prev_in = self.context.allow_in;
-                self.context.allow_in = false;
-                let mut decls = self.parse_binding_list(kind, true)?;
-                self.context.allow_in = prev_in;
-                if decls.len() == 1 {
-                    let decl = if let Some(d) = decls.pop() {
-                        d
-                    } else {
-                        return self.expected_token_error(&self.look_ahead, &["variable decl"]);
-                    };
-                    if decl.init.is_none() && self.at_keyword(Keyword::In) {
-                        let left = LoopLeft::Variable(kind, decl);
-                        let _in = self.next_item()?;
-                        let right = self.parse_expression()?;
-                        return Ok(Stmt::ForIn(ForInStmt {
-                            left,
-                            right,
-                            body: Box::new(self.parse_loop_body()?),
-                        }));
-                    } else if decl.init.is_none() && self.at_contextual_keyword("of") {
-                        let left = LoopLeft::Variable(kind, decl);
-                        return Ok(Stmt::ForOf(self.parse_for_of_loop(left, is_await)?));
-                    } else {
-                        let init = LoopInit::Variable(kind, vec![decl]);
-                        let stmt = self.parse_for_loop_cont(Some(init))?;
-                        return Ok(Stmt::For(stmt));
-                    }
+            let prev_in = self.context.allow_in;
+            self.context.allow_in = false;
+            let mut decls = self.parse_binding_list(kind, true)?;
+            self.context.allow_in = prev_in;
+            if decls.len() == 1 {
+                let decl = if let Some(d) = decls.pop() {
+                    d
                 } else {
-                    let init = LoopInit::Variable(kind, decls);
+                    return self.expected_token_error(&self.look_ahead, &["variable decl"]);
+                };
+                if decl.init.is_none() && self.at_keyword(Keyword::In) {
+                    let left = LoopLeft::Variable(kind, decl);
+                    let _in = self.next_item()?;
+                    let right = self.parse_expression()?;
+                    return Ok(Stmt::ForIn(ForInStmt {
+                        left,
+                        right,
+                        body: Box::new(self.parse_loop_body()?),
+                    }));
+                } else if decl.init.is_none() && self.at_contextual_keyword("of") {
+                    let left = LoopLeft::Variable(kind, decl);
+                    return Ok(Stmt::ForOf(self.parse_for_of_loop(left, is_await)?));
+                } else {
+                    let init = LoopInit::Variable(kind, vec![decl]);
                     let stmt = self.parse_for_loop_cont(Some(init))?;
                     return Ok(Stmt::For(stmt));
                 }
+            } else {
+                let init = LoopInit::Variable(kind, decls);
+                let stmt = self.parse_for_loop_cont(Some(init))?;
+                return Ok(Stmt::For(stmt));
             }
         } else {
             let prev_in = self.context.allow_in;
             self.context.allow_in = false;
             let (prev_bind, prev_assign, prev_first) = self.inherit_cover_grammar();
+            let at_let = self.at_keyword(Keyword::Let);
             let init = self.parse_assignment_expr()?;
             let is_target = self.context.is_assignment_target
                 && !Self::is_assignment_expr(&init)
@@ -1393,7 +1381,7 @@ where
                     body: Box::new(self.parse_loop_body()?),
                 }));
             } else if self.at_contextual_keyword("of") {
-                if !is_target && !self.config.tolerant {
+                if (at_let || !is_target) && !self.config.tolerant {
                     return self
                         .unexpected_token_error(&self.look_ahead, "Not at assignment target");
                 }
-- 
2.43.0


From 7707efdfc5ce58a1ce1fd38272f8d7b275e85901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:26 +0000
Subject: [PATCH 86/93] fix: for await is for of loops in async functions

---
 src/lib.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index ed29184..0e3f956 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1253,6 +1253,13 @@ where
 
         self.expect_keyword(Keyword::For)?;
         let is_await = if self.at_keyword(Keyword::Await) {
+            let at_module_level = self.context.is_module && !self.in_function();
+            if !self.context.r#await && !at_module_level {
+                return self.unexpected_token_error(
+                    &self.look_ahead,
+                    "for await is only allowed in async functions",
+                );
+            }
             let _ = self.next_item()?;
             true
         // for await ([lookahead ≠ let] LeftHandSideExpression [?Yield, ?Await] of AssignmentExpression [+In, ?Yield, ?Await]) Statement [?Yield, ?Await, ?Return]
@@ -1262,7 +1269,7 @@ where
             false
         };
         self.expect_punct(Punct::OpenParen)?;
-        if self.at_punct(Punct::SemiColon) {
+        if self.at_punct(Punct::SemiColon) && !is_await {
             // any semi-colon would mean standard C style for loop
             // for (;;) {}
             let stmt = self.parse_for_loop(VariableKind::Var)?;
@@ -1276,6 +1283,7 @@ where
             self.context.allow_in = false;
             let mut bindings = self.parse_variable_decl_list(true)?;
             self.context.allow_in = prev_in;
+            self.check_for_await(is_await)?;
             if bindings.len() == 1 {
                 let decl = if let Some(d) = bindings.pop() {
                     d
@@ -1318,6 +1326,7 @@ where
             self.context.allow_in = false;
             let mut decls = self.parse_binding_list(kind, true)?;
             self.context.allow_in = prev_in;
+            self.check_for_await(is_await)?;
             if decls.len() == 1 {
                 let decl = if let Some(d) = decls.pop() {
                     d
@@ -1367,6 +1376,7 @@ where
             }
             self.set_inherit_cover_grammar_state(prev_bind, prev_assign, prev_first);
             self.context.allow_in = prev_in;
+            self.check_for_await(is_await)?;
             if self.at_keyword(Keyword::In) {
                 if !is_target && !self.config.tolerant {
                     return self
@@ -1415,6 +1425,14 @@ where
         }
     }
 
+    /// `for await` loops are all for-of loops
+    fn check_for_await(&self, is_await: bool) -> Res<()> {
+        if is_await && !self.at_contextual_keyword("of") {
+            return self.expected_token_error(&self.look_ahead, &["of"]);
+        }
+        Ok(())
+    }
+
     fn parse_for_loop(&mut self, kind: VariableKind) -> Res<ForStmt> {
         debug!("parse_for_loop");
         let init = if self.at_punct(Punct::SemiColon) {
-- 
2.43.0


From b0b110c4e3290ac26170cd35499df0a020acd41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:32 +0000
Subject: [PATCH 87/93] fix: await to the left of an exponentiation needs
 parentheses

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0e3f956..8c23fad 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3768,7 +3768,8 @@ where
         let expr = self.parse_unary_expression()?;
         self.set_inherit_cover_grammar_state(prev_bind, prev_assign, prev_first);
         if self.at_punct(Punct::Exponent) {
-            if Self::unary_operator(&start.token).is_some() {
+            let is_await = self.context.r#await && start.token.matches_keyword(&Keyword::Await);
+            if is_await || Self::unary_operator(&start.token).is_some() {
                 return self.unexpected_token_error(
                     &self.look_ahead,
                     "unary operator to the left of an exponentiation",
-- 
2.43.0


From b5977013a0433a1a199a14deb405822e7be3703b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:06 +0000
Subject: [PATCH 88/93] fix: repeated __proto__ properties are only for
 patterns

---
 src/lib.rs | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8c23fad..df6e9f8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1371,7 +1371,7 @@ where
             } else if let Some(ref item) = self.context.first_covert_initialized_name_error {
                 return self.unexpected_token_error(
                     item,
-                    "shorthand property initialiser outside of a pattern",
+                    "only allowed in a pattern",
                 );
             }
             self.set_inherit_cover_grammar_state(prev_bind, prev_assign, prev_first);
@@ -2667,7 +2667,6 @@ where
     fn parse_obj_prop(&mut self, has_proto: bool) -> Res<(bool, ObjectProperty)> {
         debug!("parse_obj_prop");
         let start = self.look_ahead.clone();
-        let start_pos = self.look_ahead_position;
         let mut has_proto = has_proto;
         let (key, is_async, computed) = if let Token::Ident = start.token {
             let id = self.scanner.string_for(&start.span).unwrap_or(String::new());
@@ -2729,11 +2728,9 @@ where
                 let kind = PropertyKind::Init;
                 if self.at_punct(Punct::Colon) && !is_async {
                     if !computed && Self::is_proto_(&key) {
-                        if has_proto {
-                            self.tolerate_error(Error::Redecl(
-                                start_pos,
-                                "prototype can only be declared once".to_string(),
-                            ))?;
+                        if has_proto && !self.config.tolerant {
+                            // a pattern may repeat it
+                            self.context.first_covert_initialized_name_error = Some(start.clone());
                         }
                         has_proto = true;
                     }
@@ -2799,13 +2796,7 @@ where
     }
 
     fn is_proto_(key: &PropertyKey) -> bool {
-        match key {
-            PropertyKey::Literal(ref l) => match l {
-                Literal::String(ref s) => s == "_proto_",
-                _ => false,
-            },
-            _ => false,
-        }
+        Self::is_key(key, "__proto__")
     }
 
     /// Contextual keywords can be references to variables
@@ -4149,7 +4140,7 @@ where
                     if let Some(ref item) = first_error {
                         return self.unexpected_token_error(
                             item,
-                            "shorthand property initialiser outside of a pattern",
+                            "only allowed in a pattern",
                         );
                     }
                     let inner = CallExpr {
@@ -4390,7 +4381,7 @@ where
     ) -> Res<()> {
         if let Some(ref item) = self.context.first_covert_initialized_name_error {
             return self
-                .unexpected_token_error(item, "shorthand property initialiser outside of a pattern");
+                .unexpected_token_error(item, "only allowed in a pattern");
         }
         self.context.is_binding_element = prev_bind;
         self.context.is_assignment_target = prev_assign;
-- 
2.43.0


From f3e8491018aa8efd827ab6092bca638bcd2c4899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:03 +0000
Subject: [PATCH 89/93] fix: async arrows take contextual keywords as their
 parameter

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index df6e9f8..fe1c1dc 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3224,7 +3224,7 @@ where
             if &self.scanner.stream[start..end] == "async"
                 && curr_line == start_line
                 && Self::is_ident(&current)
-                && (self.look_ahead.token.is_ident() || self.at_keyword(Keyword::Yield))
+                && self.is_ident_reference(&self.look_ahead.token)
             {
                 let arg = self.parse_primary_expression()?;
                 let arg = self.reinterpret_expr_as_pat(arg)?;
-- 
2.43.0


From a1d64e2ff83daba949f7310047c62b42e609113a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:55 +0000
Subject: [PATCH 90/93] fix: rest elements of array patterns are rest elements
 in the tree

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index fe1c1dc..812797a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3040,7 +3040,8 @@ where
     fn parse_binding_rest_el(&mut self, params: &mut Vec<Item>) -> Res<(bool, Pat)> {
         debug!("parse_binding_rest_el");
         self.expect_punct(Punct::Spread)?;
-        self.parse_pattern(None, params)
+        let (restricted, arg) = self.parse_pattern(None, params)?;
+        Ok((restricted, Pat::RestElement(Box::new(arg))))
     }
 
     fn parse_pattern_with_default(&mut self, params: &mut Vec<Item>) -> Res<(bool, Pat)> {
-- 
2.43.0


From f10a989f526294fa6025c171c2ed2b11a9ecc4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:59 +0000
Subject: [PATCH 91/93] fix: arrow parameters with a trailing comma are binding
 elements

---
 src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 812797a..7ab20d6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2552,6 +2552,10 @@ where
                             if !self.at_punct(Punct::FatArrow) {
                                 self.expect_punct(Punct::FatArrow)?;
                             }
+                            if !self.context.is_binding_element {
+                                return self
+                                    .expected_token_error(&self.look_ahead, &["binding element"]);
+                            }
                             return Ok(Expr::ArrowParamPlaceHolder(
                                 exprs.into_iter().map(|e| FunctionArg::Expr(e)).collect(),
                                 false,
-- 
2.43.0


From 219d2b67572f6aa00cfe6c0622c2391a7c27d556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:02 +0000
Subject: [PATCH 92/93] fix: a class constructor is no async method

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7ab20d6..4cd5fc6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2046,7 +2046,7 @@ where
                 return self.expected_token_error(&self.look_ahead, &[]);
             }
             if !is_static && Self::is_key(&key, "constructor") {
-                if kind != PropertyKind::Method || !method {
+                if kind != PropertyKind::Method || !method || is_async {
                     return self
                         .expected_token_error(&self.look_ahead, &["[constructor declaration]"]);
                 }
-- 
2.43.0


From b183ff43f343d70ef57532eb890476cf2d9d6309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:52 +0000
Subject: [PATCH 93/93] fix: labels on async functions, generators and, in
 strict code, functions are errors

---
 src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4cd5fc6..05021cf 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1597,11 +1597,16 @@ where
                 let expr = Expr::Class(cls);
                 Stmt::Expr(expr)
             } else if self.at_keyword(Keyword::Function) {
+                let start = self.look_ahead.clone();
                 let f = self.parse_function_decl(true)?;
+                // only sloppy code labels functions, and no generators
+                if (self.context.strict || f.generator) && !self.config.tolerant {
+                    return self.unexpected_token_error(&start, "labelled function");
+                }
                 let expr = Expr::Function(f);
                 Stmt::Expr(expr)
             } else {
-                self.parse_statement()?
+                self.parse_body()?
             };
             self.context.label_set.remove(&format!("${}", &id));
             Ok(Stmt::Labeled(LabeledStmt {
-- 
2.43.0

