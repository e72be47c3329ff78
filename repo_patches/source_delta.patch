From 7f93a2f441d0e4208a98efb1d826f1a55def9017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 01/48] fix: keep the superclass of an anonymous class

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 803564b..e83e74a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1803,7 +1803,7 @@ where
             self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
             Some(Box::new(super_class))
         } else {
-            None
+            super_class
         };
         let body = self.parse_class_body()?;
 
-- 
2.43.0


From 32f8928aedacd5de06c92b3837b6532b0cea822e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:44 +0000
Subject: [PATCH 02/48] fix: detect line terminators around comments and not
 inside tokens

---
 src/lib.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index e83e74a..54c6c46 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -328,6 +328,10 @@ pub struct Line {
 }
 /// The result type for the Parser operations
 type Res<T> = Result<T, Error>;
+/// The 4 characters that ECMAScript considers to end a line
+fn is_line_term(c: char) -> bool {
+    c == '\n' || c == '\r' || c == '\u{2028}' || c == '\u{2029}'
+}
 /// Capture the lines from the raw js text
 fn get_lines(text: &str) -> Vec<Line> {
     // Obviously we will start at 0
@@ -4159,8 +4163,8 @@ where
     /// and return the last token
     fn next_item(&mut self) -> Res<Item> {
         let mut look_ahead_span = self.look_ahead.span;
+        let prev_end = look_ahead_span.end;
         loop {
-            self.context.has_line_term = self.scanner.pending_new_line;
             if let Some(look_ahead) = self.scanner.next() {
                 if cfg!(feature = "debug_look_ahead") {
                     self._look_ahead = format!("{:?}: {:?}", look_ahead.token, self.scanner.string_for(&look_ahead.span));
@@ -4182,6 +4186,11 @@ where
                     look_ahead_span = look_ahead.span;
                     continue;
                 }
+                // a line terminator anywhere between the two tokens counts, including one
+                // before, inside or after a comment, but not one inside of a token
+                self.context.has_line_term = self.scanner.stream[prev_end..look_ahead.span.start]
+                    .chars()
+                    .any(is_line_term);
                 let ret = replace(&mut self.look_ahead, look_ahead);
                 return Ok(ret);
             } else {
-- 
2.43.0


From 8af4dee805856c4df35535481aab70ac4b00046a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:45 +0000
Subject: [PATCH 03/48] fix: parse null as a literal and not as an identifier

---
 src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 54c6c46..c48e88f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2279,7 +2279,14 @@ where
                 self.parse_function_expr()
             } else {
                 let ident = self.next_item()?;
-                Ok(Expr::Ident(self.get_string(&ident.span)?))
+                let ident = self.get_string(&ident.span)?;
+                if ident == "null" {
+                    // the scanner reports `null` as an identifier
+                    self.context.is_assignment_target = false;
+                    self.context.is_binding_element = false;
+                    return Ok(Expr::Literal(Literal::Null));
+                }
+                Ok(Expr::Ident(ident))
             }
         } else if self.look_ahead.token.is_number() || self.look_ahead.token.is_string() {
             // if self.context.strict && self.look_ahead.token.is_oct_literal() {
-- 
2.43.0


From 94aa3460f8be31b953bad49eb0985d7dfefdf1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:51 +0000
Subject: [PATCH 04/48] fix: accept exactly the names ECMAScript allows as
 binding identifiers

---
 src/lib.rs | 91 +++++++++++++++++++++++++-----------------------------
 1 file changed, 42 insertions(+), 49 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c48e88f..a41ea47 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -697,24 +697,14 @@ where
     }
 
     fn parse_import_specifier(&mut self) -> Res<ImportSpecifier> {
-        let (imported, local) = if self.look_ahead.token.is_ident() {
-            let imported = self.parse_var_ident(false)?;
-            let local = if self.at_contextual_keyword("as") {
-                let _ = self.next_item();
-                Some(self.parse_var_ident(false)?)
-            } else {
-                None
-            };
-            (imported, local)
+        let start = self.look_ahead.clone();
+        let imported = self.parse_ident_name()?;
+        let local = if self.at_contextual_keyword("as") {
+            let _ = self.next_item()?;
+            Some(self.parse_var_ident()?)
         } else {
-            let imported = self.parse_ident_name()?;
-            let local = if self.at_contextual_keyword("as") {
-                let _ = self.next_item()?;
-                Some(self.parse_var_ident(false)?)
-            } else {
-                None
-            };
-            (imported, local)
+            self.check_var_ident(&start)?;
+            None
         };
         Ok(ImportSpecifier::Normal(imported, local))
     }
@@ -725,12 +715,12 @@ where
             return self.expected_token_error(&self.look_ahead, &["as"]);
         }
         let _ = self.next_item()?;
-        let ident = self.parse_ident_name()?;
+        let ident = self.parse_var_ident()?;
         Ok(ImportSpecifier::Namespace(ident))
     }
 
     fn parse_import_default_specifier(&mut self) -> Res<ImportSpecifier> {
-        let ident = self.parse_ident_name()?;
+        let ident = self.parse_var_ident()?;
         Ok(ImportSpecifier::Default(ident))
     }
 
@@ -1459,7 +1449,7 @@ where
         debug!("parse_optionally_labeled_statement");
         self.expect_keyword(k)?;
         let ret = if self.look_ahead.token.is_ident() && !self.context.has_line_term {
-            let id = self.parse_var_ident(false)?;
+            let id = self.parse_var_ident()?;
             if !self.context.label_set.contains(&id) {
                 //error: unknown label
             }
@@ -1703,7 +1693,7 @@ where
         };
         let (id, first_restricted) = if !opt_ident || !self.at_punct(Punct::OpenParen) {
             let start = self.look_ahead.clone();
-            let id = self.parse_var_ident(false)?;
+            let id = self.parse_var_ident()?;
             if self.context.strict && start.token.is_restricted() {
                 return self.expected_token_error(&start, &[]);
             }
@@ -1798,7 +1788,7 @@ where
         let id = if opt_ident && !self.look_ahead.token.is_ident() {
             None
         } else {
-            Some(self.parse_var_ident(false)?)
+            Some(self.parse_var_ident()?)
         };
         super_class = if super_class.is_none() && self.at_contextual_keyword("extends") {
             let _ = self.next_item()?;
@@ -2796,7 +2786,7 @@ where
         if self.context.strict && !is_gen && self.at_keyword(Keyword::Yield) {
             self.parse_ident_name()
         } else {
-            self.parse_var_ident(false)
+            self.parse_var_ident()
         }
     }
 
@@ -2819,25 +2809,10 @@ where
         // ret
     }
 
-    fn parse_var_ident(&mut self, is_var: bool) -> Res<Identifier> {
+    fn parse_var_ident(&mut self) -> Res<Identifier> {
         debug!("parse_var_ident");
         let ident = self.next_item()?;
-        if ident.token.matches_keyword(&Keyword::Yield) {
-            if self.context.strict || !self.context.allow_yield {
-                return self.expected_token_error(&ident, &["variable identifier"]);
-            }
-        } else if !ident.token.is_ident() {
-            if self.context.strict && ident.token.is_strict_reserved() {
-                return self.expected_token_error(&ident, &["variable identifier"]);
-            }
-            if self.context.strict || ident.token.matches_keyword(&Keyword::Let) || !is_var {
-                return self.expected_token_error(&ident, &["variable identifier"]);
-            }
-        } else if (self.context.is_module || self.context.r#await)
-            && &self.scanner.stream[ident.span.start..ident.span.end] == "await"
-        {
-            return self.expected_token_error(&ident, &["variable identifier"]);
-        }
+        self.check_var_ident(&ident)?;
         let i = match &ident.token {
             &Token::Ident => self.scanner.string_for(&ident.span).unwrap_or(String::new()),
             &Token::Keyword(ref k) => k.to_string(),
@@ -2846,6 +2821,22 @@ where
         Ok(i)
     }
 
+    /// Reports an error if the token provided cannot be used as the name
+    /// of a variable, function or class in the current context
+    fn check_var_ident(&self, ident: &Item) -> Res<()> {
+        let valid = match &ident.token {
+            Token::Ident => &self.scanner.stream[ident.span.start..ident.span.end] != "null",
+            Token::Keyword(Keyword::Yield) => !self.context.strict && self.context.allow_yield,
+            Token::Keyword(Keyword::Await) => !self.context.is_module && !self.context.r#await,
+            Token::Keyword(ref k) => !self.context.strict && k.is_strict_reserved(),
+            _ => false,
+        };
+        if !valid {
+            return self.expected_token_error(ident, &["variable identifier"]);
+        }
+        Ok(())
+    }
+
     fn parse_formal_params(&mut self) -> Res<FormalParams> {
         debug!("parse_formal_params");
         self.expect_punct(Punct::OpenParen)?;
@@ -2945,20 +2936,17 @@ where
         } else if self.at_punct(Punct::OpenBrace) {
             self.parse_object_pattern()
         } else {
-            let is_var = if let Some(kind) = kind {
+            if let Some(kind) = kind {
                 match kind {
                     VariableKind::Const | VariableKind::Let => {
                         if self.at_keyword(Keyword::Let) {
                             return self.expected_token_error(&self.look_ahead, &["identifier"]);
                         }
-                        false
                     }
-                    VariableKind::Var => true,
+                    VariableKind::Var => (),
                 }
-            } else {
-                true
-            };
-            let ident = self.parse_var_ident(is_var)?;
+            }
+            let ident = self.parse_var_ident()?;
             let restricted = &ident == "eval" || &ident == "arguments";
             params.push(self.look_ahead.clone());
             Ok((restricted, Pat::Identifier(ident)))
@@ -3034,14 +3022,19 @@ where
         let mut computed = false;
         let mut short_hand = false;
         let method = false;
-        let (key, value) = if self.look_ahead.token.is_ident() {
-            let key = PropertyKey::Expr(Expr::Ident(self.parse_var_ident(false)?));
+        let start = self.look_ahead.clone();
+        let (key, value) = if start.token.is_ident() || start.token.is_keyword() {
+            let key = PropertyKey::Expr(Expr::Ident(self.parse_ident_name()?));
             let value = if self.at_punct(Punct::Assign) {
+                self.check_var_ident(&start)?;
                 self.expect_punct(Punct::Assign)?;
                 short_hand = true;
+                let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
                 let e = self.parse_assignment_expr()?;
+                self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
                 PropertyValue::Expr(e)
             } else if !self.at_punct(Punct::Colon) {
+                self.check_var_ident(&start)?;
                 short_hand = true;
                 PropertyValue::None
             } else {
-- 
2.43.0


From 88232a0e79eae0302c7251bd9dd27b7d3e972a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:37 +0000
Subject: [PATCH 05/48] fix: only accept names where an identifier name is
 required

---
 src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index a41ea47..1ad7bbd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2794,6 +2794,9 @@ where
         debug!("parse_ident_name");
         let lh = self.get_string(&self.look_ahead.span);
         debug!("lh: {:?}", lh);
+        if !self.at_possible_ident() {
+            return self.expected_token_error(&self.look_ahead, &["identifier name"]);
+        }
         let ident = self.next_item()?; 
         let ret = self.get_string(&ident.span)?;
         debug!("ident: {:?}", ret);
-- 
2.43.0


From 8146e63c4ddadb8568ffacb070b13b7e09861aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:41 +0000
Subject: [PATCH 06/48] fix: treat contextual keywords as names wherever they
 are not keywords

---
 src/lib.rs | 37 +++++++++++++++++--------------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1ad7bbd..1dca8b2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -909,6 +909,7 @@ where
                 Keyword::Var => self.parse_var_stmt()?,
                 Keyword::While => Stmt::While(self.parse_while_stmt()?),
                 Keyword::With => Stmt::With(self.parse_with_stmt()?),
+                _ if self.is_var_ident(&self.look_ahead) => self.parse_labelled_statement()?,
                 _ => Stmt::Expr(self.parse_expression_statement()?),
             },
             _ => return self.expected_token_error(&self.look_ahead, &[]),
@@ -1448,7 +1449,7 @@ where
     fn parse_optionally_labeled_statement(&mut self, k: Keyword) -> Res<Option<Identifier>> {
         debug!("parse_optionally_labeled_statement");
         self.expect_keyword(k)?;
-        let ret = if self.look_ahead.token.is_ident() && !self.context.has_line_term {
+        let ret = if self.is_var_ident(&self.look_ahead) && !self.context.has_line_term {
             let id = self.parse_var_ident()?;
             if !self.context.label_set.contains(&id) {
                 //error: unknown label
@@ -1785,7 +1786,7 @@ where
         } else {
             None
         };
-        let id = if opt_ident && !self.look_ahead.token.is_ident() {
+        let id = if opt_ident && !self.is_var_ident(&self.look_ahead) {
             None
         } else {
             Some(self.parse_var_ident()?)
@@ -2338,13 +2339,7 @@ where
             };
             Ok(Expr::Literal(Literal::RegEx(lit)))
         } else if self.look_ahead.token.is_keyword() {
-            if !self.context.strict
-                && ((self.context.allow_yield && self.at_keyword(Keyword::Yield))
-                    || self.at_keyword(Keyword::Let))
-            {
-                let ident = self.parse_ident_name()?;
-                Ok(Expr::Ident(ident))
-            } else if !self.context.strict && self.look_ahead.token.is_strict_reserved() {
+            if self.is_var_ident(&self.look_ahead) {
                 let ident = self.parse_ident_name()?;
                 Ok(Expr::Ident(ident))
             } else {
@@ -2626,7 +2621,7 @@ where
                         method: true,
                         short_hand: false,
                     })
-                } else if start.token.is_ident() {
+                } else if self.is_var_ident(&start) {
                     if self.at_punct(Punct::Assign) {
                         self.context.first_covert_initialized_name_error =
                             Some(self.look_ahead.clone());
@@ -2827,17 +2822,21 @@ where
     /// Reports an error if the token provided cannot be used as the name
     /// of a variable, function or class in the current context
     fn check_var_ident(&self, ident: &Item) -> Res<()> {
-        let valid = match &ident.token {
+        if !self.is_var_ident(ident) {
+            return self.expected_token_error(ident, &["variable identifier"]);
+        }
+        Ok(())
+    }
+    /// Can the token provided be used as the name of a variable
+    /// in the current context
+    fn is_var_ident(&self, ident: &Item) -> bool {
+        match &ident.token {
             Token::Ident => &self.scanner.stream[ident.span.start..ident.span.end] != "null",
             Token::Keyword(Keyword::Yield) => !self.context.strict && self.context.allow_yield,
             Token::Keyword(Keyword::Await) => !self.context.is_module && !self.context.r#await,
             Token::Keyword(ref k) => !self.context.strict && k.is_strict_reserved(),
             _ => false,
-        };
-        if !valid {
-            return self.expected_token_error(ident, &["variable identifier"]);
         }
-        Ok(())
     }
 
     fn parse_formal_params(&mut self) -> Res<FormalParams> {
@@ -3070,13 +3069,11 @@ where
             return self.parse_yield_expr();
         } else {
             let ress::Span { start, end } = self.look_ahead.span;
-            let start_pos = self.look_ahead_position;
             let mut current = self.parse_conditional_expr()?;
-            let curr_line = self.look_ahead_position.line;
-            let start_line = start_pos.line;
             if &self.scanner.stream[start..end] == "async"
-                && curr_line == start_line
-                && (self.look_ahead.token.is_ident() || self.at_keyword(Keyword::Yield))
+                && Self::is_ident(&current)
+                && !self.context.has_line_term
+                && self.is_var_ident(&self.look_ahead)
             {
                 let arg = self.parse_primary_expression()?;
                 let arg = self.reinterpret_expr_as_pat(arg)?;
-- 
2.43.0


From 959a8d40e85ca009deba6fb194b79720c8138a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:46 +0000
Subject: [PATCH 07/48] fix: only accept a class name in front of extends

---
 src/lib.rs | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1dca8b2..971ae07 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1777,28 +1777,23 @@ where
         let prev_strict = self.context.strict;
         self.context.strict = true;
         self.expect_keyword(Keyword::Class)?;
-        let mut super_class = if self.at_contextual_keyword("extends") {
-            let _ = self.next_item()?;
-            let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
-            let super_class = self.parse_left_hand_side_expr()?;
-            self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
-            Some(Box::new(super_class))
-        } else {
-            None
-        };
-        let id = if opt_ident && !self.is_var_ident(&self.look_ahead) {
+        let at_name =
+            self.is_var_ident(&self.look_ahead) && !self.at_contextual_keyword("extends");
+        let id = if at_name {
+            Some(self.parse_var_ident()?)
+        } else if opt_ident {
             None
         } else {
-            Some(self.parse_var_ident()?)
+            return self.expected_token_error(&self.look_ahead, &["class name"]);
         };
-        super_class = if super_class.is_none() && self.at_contextual_keyword("extends") {
+        let super_class = if self.at_contextual_keyword("extends") {
             let _ = self.next_item()?;
             let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
             let super_class = self.parse_left_hand_side_expr()?;
             self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
             Some(Box::new(super_class))
         } else {
-            super_class
+            None
         };
         let body = self.parse_class_body()?;
 
-- 
2.43.0


From 2e7e296722b042b7231388647a158dccb0755518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:52 +0000
Subject: [PATCH 08/48] fix: allow calls in the heritage of a class

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 971ae07..37a6faf 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1789,7 +1789,7 @@ where
         let super_class = if self.at_contextual_keyword("extends") {
             let _ = self.next_item()?;
             let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
-            let super_class = self.parse_left_hand_side_expr()?;
+            let super_class = self.parse_left_hand_side_expr_allow_call()?;
             self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
             Some(Box::new(super_class))
         } else {
-- 
2.43.0


From 1d3957e4a1bbf27e77d3362f0b84026ba1ccde6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:58 +0000
Subject: [PATCH 09/48] fix: do not take the rest of a template for a tagged
 template after new

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 37a6faf..b8b3bfd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3812,7 +3812,7 @@ where
                     computed: false,
                 };
                 expr = Expr::Member(member);
-            } else if self.look_ahead.is_template() {
+            } else if self.look_ahead.token.is_template_head() {
                 let quasi = self.parse_template_literal()?;
                 expr = Expr::TaggedTemplate(TaggedTemplateExpr {
                     tag: Box::new(expr),
-- 
2.43.0


From 02d7495331dffca6079949cd64f14f99b5594ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:05 +0000
Subject: [PATCH 10/48] fix: let a use strict directive and module mode turn on
 strict mode

---
 src/lib.rs | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index b8b3bfd..385873b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -433,6 +433,7 @@ where
         };
         let context = Context {
             is_module,
+            strict: is_module,
             ..Default::default()
         };
         Self::_new(scanner, lines, config, context, comment_handler)
@@ -520,7 +521,15 @@ where
             if !self.look_ahead.token.is_string() {
                 break;
             }
-            ret.push(self.parse_directive()?);
+            let part = self.parse_directive()?;
+            let is_dir = match &part {
+                ProgramPart::Dir(_) => true,
+                _ => false,
+            };
+            ret.push(part);
+            if !is_dir {
+                break;
+            }
         }
         Ok(ret)
     }
@@ -531,12 +540,17 @@ where
         let expr = self.parse_expression()?;
         if let Expr::Literal(lit) = expr {
             if let Literal::String(s) = lit {
-                if !self.context.allow_strict_directive && s == "use strict" {
-                    return self.unexpected_token_error(&orig, "use strict in an invalid location");
+                let dir = s[1..s.len() - 1].to_string();
+                if dir == "use strict" {
+                    if !self.context.allow_strict_directive {
+                        return self
+                            .unexpected_token_error(&orig, "use strict in an invalid location");
+                    }
+                    self.context.strict = true;
                 }
                 self.consume_semicolon()?;
                 return Ok(ProgramPart::Dir(Dir {
-                    dir: s.trim_matches(|c| c == '\'' || c == '"').to_string(),
+                    dir,
                     expr: Literal::String(s),
                 }));
             } else {
@@ -1749,7 +1763,6 @@ where
     fn parse_function_source_el(&mut self) -> Res<FunctionBody> {
         debug!("parse_function_source_el");
         self.expect_punct(Punct::OpenBrace)?;
-        let mut body = self.parse_directive_prologues()?;
         let prev_label = self.context.label_set.clone();
         let prev_iter = self.context.in_iteration;
         let prev_switch = self.context.in_switch;
@@ -1758,6 +1771,7 @@ where
         self.context.in_iteration = false;
         self.context.in_switch = false;
         self.context.in_function_body = true;
+        let mut body = self.parse_directive_prologues()?;
         while !self.look_ahead.token.is_eof() {
             if self.at_punct(Punct::CloseBrace) {
                 break;
@@ -2748,7 +2762,8 @@ where
         let formal_params = self.parse_formal_params()?;
         found_restricted = found_restricted || formal_params.found_restricted;
         let prev_strict = self.context.strict;
-        let prev_strict_dir = formal_params.simple;
+        let prev_strict_dir = self.context.allow_strict_directive;
+        self.context.allow_strict_directive = formal_params.simple;
         let start = self.look_ahead.clone();
         let body = self.parse_function_source_el()?;
         if self.context.strict && found_restricted {
-- 
2.43.0


From 0b7fa8bd98260f18036bea9c3cbea4d59e87eda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:38 +0000
Subject: [PATCH 11/48] fix: give the body of an arrow function its own await,
 yield and strict context

---
 src/lib.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 385873b..c12ef80 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3100,6 +3100,13 @@ where
                 let is_async = Self::is_async(&current);
                 if let Some(params) = self.reinterpret_as_cover_formals_list(current.clone())? {
                     self.expect_punct(Punct::FatArrow)?;
+                    let prev_strict = self.context.strict;
+                    let prev_allow_strict = self.context.allow_strict_directive;
+                    let prev_await = self.context.r#await;
+                    let prev_yield = self.context.allow_yield;
+                    self.context.allow_strict_directive = params.iter().all(Self::is_simple);
+                    self.context.r#await = is_async;
+                    self.context.allow_yield = true;
                     if self.at_punct(Punct::OpenBrace) {
                         let prev_in = self.context.allow_in;
                         self.context.allow_in = true;
@@ -3126,6 +3133,10 @@ where
                             body: ArrowFunctionBody::Expr(Box::new(a)),
                         });
                     };
+                    self.context.strict = prev_strict;
+                    self.context.allow_strict_directive = prev_allow_strict;
+                    self.context.r#await = prev_await;
+                    self.context.allow_yield = prev_yield;
                 }
             } else {
                 if self.at_assign() {
-- 
2.43.0


From 3da73d389820d4df36d320e63b28969c6097c3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:44 +0000
Subject: [PATCH 12/48] fix: restore the whole scanner after looking past the
 next token

---
 src/lib.rs | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c12ef80..4e9e349 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4297,15 +4297,11 @@ where
     fn at_import_call(&mut self) -> bool {
         debug!("at_import_call");
         if self.at_keyword(Keyword::Import) {
-            let state = self.scanner.get_state();
-            self.scanner.skip_comments();
-            let ret = if let Some(next) = self.scanner.next() {
+            if let Some(next) = self.peek() {
                 next.token.matches_punct(&Punct::OpenParen)
             } else {
                 false
-            };
-            self.scanner.set_state(state);
-            ret
+            }
         } else {
             false
         }
@@ -4329,18 +4325,30 @@ where
     /// must be an identifier, `let`, `yield`
     /// `{`, or `[`
     fn at_lexical_decl(&mut self) -> bool {
-        let state = self.scanner.get_state();
-        self.scanner.skip_comments();
-        let ret = if let Some(next) = self.scanner.next() {
+        if let Some(next) = self.peek() {
             next.token.is_ident()
                 || next.token.matches_punct(&Punct::OpenBracket)
                 || next.token.matches_punct(&Punct::OpenBrace)
                 || next.token.matches_keyword(&Keyword::Let)
                 || next.token.matches_keyword(&Keyword::Yield)
+                || self.is_var_ident(&next)
         } else {
             false
-        };
+        }
+    }
+    /// Get the token after the look ahead, skipping any comments, without
+    /// changing the scanner
+    fn peek(&mut self) -> Option<Item> {
+        let state = self.scanner.get_state();
+        let eof = self.scanner.eof;
+        let pending_new_line = self.scanner.pending_new_line;
+        let mut ret = self.scanner.next();
+        while ret.as_ref().map_or(false, |i| i.token.is_comment()) {
+            ret = self.scanner.next();
+        }
         self.scanner.set_state(state);
+        self.scanner.eof = eof;
+        self.scanner.pending_new_line = pending_new_line;
         ret
     }
     /// Test for if the next token is a specific punct
@@ -4387,7 +4395,7 @@ where
     fn at_async_function(&mut self) -> bool {
         debug!("at_async_function");
         if self.at_contextual_keyword("async") {
-            if let Some(peek) = self.scanner.look_ahead() {
+            if let Some(peek) = self.peek() {
                 debug!("peeking ahead {:?}", peek);
                 let pos = self.look_ahead_position;
                 let next_pos = self.get_item_position(&peek);
-- 
2.43.0


From e69fa65635971fdd02a945d990c8d18ee4980663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:49 +0000
Subject: [PATCH 13/48] fix: use one notion of lines for every position

---
 src/lib.rs | 58 +++++++++++-------------------------------------------
 1 file changed, 11 insertions(+), 47 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4e9e349..900c8e8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -348,19 +348,15 @@ fn get_lines(text: &str) -> Vec<Line> {
                     // look ahead 1 char to see if it is a newline pair
                     // if so, don't include it, it will get included in the next
                     // iteration
-                    if let Some(next) = text.get(byte_position..byte_position + 2) {
-                        if next == "\r\n" {
-                            None
-                        } else {
-                            let ret = Line {
-                                start: line_start,
-                                end: byte_position,
-                            };
-                            line_start = byte_position + 1;
-                            Some(ret)
-                        }
-                    } else {
+                    if text[byte_position..].starts_with("\r\n") {
                         None
+                    } else {
+                        let ret = Line {
+                            start: line_start,
+                            end: byte_position,
+                        };
+                        line_start = byte_position + 1;
+                        Some(ret)
                     }
                 }
                 '\n' => {
@@ -4183,15 +4179,13 @@ where
     /// swap the last look ahead with this new token
     /// and return the last token
     fn next_item(&mut self) -> Res<Item> {
-        let mut look_ahead_span = self.look_ahead.span;
-        let prev_end = look_ahead_span.end;
+        let prev_end = self.look_ahead.span.end;
         loop {
             if let Some(look_ahead) = self.scanner.next() {
                 if cfg!(feature = "debug_look_ahead") {
                     self._look_ahead = format!("{:?}: {:?}", look_ahead.token, self.scanner.string_for(&look_ahead.span));
                     debug!("look_ahead: {:?}", self._look_ahead);
                 }
-                self.update_positions(look_ahead_span, look_ahead.span.start)?;
                 if let Token::Comment(ref kind) = &look_ahead.token {
                     let c = self.get_string(&look_ahead.span)?;
                     let kind = match kind {
@@ -4204,7 +4198,6 @@ where
                         span: look_ahead.span,
                         token: ress::tokens::Token::Comment(comment),
                     });
-                    look_ahead_span = look_ahead.span;
                     continue;
                 }
                 // a line terminator anywhere between the two tokens counts, including one
@@ -4212,6 +4205,8 @@ where
                 self.context.has_line_term = self.scanner.stream[prev_end..look_ahead.span.start]
                     .chars()
                     .any(is_line_term);
+                self.current_position = self.look_ahead_position;
+                self.look_ahead_position = self.get_item_position(&look_ahead);
                 let ret = replace(&mut self.look_ahead, look_ahead);
                 return Ok(ret);
             } else {
@@ -4233,37 +4228,6 @@ where
         }
     }
 
-    fn update_positions(&mut self, look_ahead_span: Span, next_look_ahead_start: usize) -> Res<()> {
-        let prev_text = &self.scanner.stream[look_ahead_span.start..next_look_ahead_start];
-        let whitespace = &self.scanner.stream[look_ahead_span.end..next_look_ahead_start];
-        
-        let old_look_ahead_pos = self.look_ahead_position;
-        self.current_position = old_look_ahead_pos;
-        let line_counts = prev_text.chars().filter(|c| c == &'\n' || c == &'\r' || c == &'\u{2028}' || c == &'\u{2029}').count() - whitespace.matches("\r\n").count();
-        if line_counts == 0 {
-            self.look_ahead_position.column += prev_text.len();
-            return Ok(())
-        }
-        let last_line_len = if let Some(last_line) = prev_text.lines().last() {
-            // Lines doesn't include a final empty line if the string ends with a new line
-            // we need to make sure we reset the column to 0 if the string ends with a new line
-            if let Some(ref c) = prev_text.chars().last() {
-                if c == &'\n' || c == &'\r' || c == &'\u{2028}' || c == &'\u{2029}' {
-                    0
-                } else {
-                    last_line.len()
-                }
-
-            } else {
-                0
-            }
-        } else {
-            0
-        };
-        self.look_ahead_position.line += line_counts;
-        self.look_ahead_position.column = last_line_len;
-        Ok(())
-    }
     /// Get the next token and validate that it matches
     /// the punct provided, discarding the result
     /// if it does
-- 
2.43.0


From 8beabb3dbfc9982cbdf5281a5f2826d15d4dfb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:53 +0000
Subject: [PATCH 14/48] fix: end a return statement at a line terminator
 whatever follows it

---
 src/lib.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 900c8e8..cea2492 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4250,10 +4250,8 @@ where
     }
 
     fn at_return_arg(&self) -> bool {
-        if self.context.has_line_term {
-            return self.look_ahead.is_string() || self.look_ahead.is_template();
-        }
-        !self.at_punct(Punct::SemiColon)
+        !self.context.has_line_term
+            && !self.at_punct(Punct::SemiColon)
             && !self.at_punct(Punct::CloseBrace)
             && !self.look_ahead.is_eof()
     }
-- 
2.43.0


From 833e1656c64b701cd3cfdb409cfcc011fd5800e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:38 +0000
Subject: [PATCH 15/48] fix: keep the rest element of an array pattern

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index cea2492..5bae1c8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2907,7 +2907,8 @@ where
     fn parse_binding_rest_el(&mut self, params: &mut Vec<Item>) -> Res<(bool, Pat)> {
         debug!("parse_binding_rest_el");
         self.expect_punct(Punct::Spread)?;
-        self.parse_pattern(None, params)
+        let (restricted, arg) = self.parse_pattern(None, params)?;
+        Ok((restricted, Pat::RestElement(Box::new(arg))))
     }
 
     fn parse_pattern_with_default(&mut self, params: &mut Vec<Item>) -> Res<(bool, Pat)> {
-- 
2.43.0


From 407e4371dea689193a14afc797a3a33b85874770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:43 +0000
Subject: [PATCH 16/48] fix: reject properties and defaults after an object
 rest element

---
 src/lib.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5bae1c8..0012d06 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3015,11 +3015,8 @@ where
         debug!("parse_rest_prop");
         self.expect_punct(Punct::Spread)?;
         let (_, arg) = self.parse_pattern(None, &mut vec![])?;
-        if self.at_punct(Punct::Assign) {
-            //unexpected token
-        }
         if !self.at_punct(Punct::CloseBrace) {
-            //unable to parse props after rest
+            return self.expected_token_error(&self.look_ahead, &["}"]);
         }
         let rest = Pat::RestElement(Box::new(arg));
         let part = ObjectPatPart::Rest(Box::new(rest));
-- 
2.43.0


From 7b2113236b52d83d14544b4fcea674b5d8f0c354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:47 +0000
Subject: [PATCH 17/48] fix: reject a broken throw, a bare try and an export
 all without from

---
 src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0012d06..320eee3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -775,7 +775,7 @@ where
         } else if self.at_punct(Punct::Asterisk) {
             let _ = self.next_item()?;
             if !self.at_contextual_keyword("from") {
-                //error
+                return self.expected_token_error(&self.look_ahead, &["from"]);
             }
             let _ = self.next_item()?;
             let source = self.parse_module_specifier()?;
@@ -1030,7 +1030,7 @@ where
             None
         };
         if handler.is_none() && finalizer.is_none() {
-            //error: one or the other must be declared
+            return self.expected_token_error(&self.look_ahead, &["catch", "finally"]);
         }
         Ok(TryStmt {
             block,
@@ -1068,7 +1068,7 @@ where
         debug!("parse_throw_stmt");
         self.expect_keyword(Keyword::Throw)?;
         if self.context.has_line_term {
-            //error: no new line allowed after throw
+            return self.expected_token_error(&self.look_ahead, &["no line terminator"]);
         }
         let arg = self.parse_expression()?;
         self.consume_semicolon()?;
-- 
2.43.0


From b44f155d88b9e4c6363c697369b9bfca27933c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:16 +0000
Subject: [PATCH 18/48] fix: require a name on exported function and class
 declarations

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 320eee3..9ae3f0f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -796,12 +796,12 @@ where
                 self.consume_semicolon()?;
                 Ok(ModExport::Named(decl))
             } else if self.look_ahead.token.matches_keyword(&Keyword::Class) {
-                let class = self.parse_class_decl(true)?;
+                let class = self.parse_class_decl(false)?;
                 let decl = Decl::Class(class);
                 let decl = NamedExportDecl::Decl(decl);
                 Ok(ModExport::Named(decl))
             } else if self.look_ahead.token.matches_keyword(&Keyword::Function) {
-                let func = self.parse_function_decl(true)?;
+                let func = self.parse_function_decl(false)?;
                 let decl = Decl::Function(func);
                 let decl = NamedExportDecl::Decl(decl);
                 Ok(ModExport::Named(decl))
-- 
2.43.0


From 0d47d9893897a0147add9c8bdea11200bc71e201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:03 +0000
Subject: [PATCH 19/48] fix: recognise every expression that can follow yield

---
 src/lib.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9ae3f0f..d1698d9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4416,7 +4416,7 @@ where
         let mut ret = true;
         let token = &self.look_ahead.token;
         if token.is_punct() {
-            ret = token.matches_punct(&Punct::OpenBracket)
+            ret = token.matches_punct(&Punct::OpenBrace)
                 || token.matches_punct(&Punct::OpenParen)
                 || token.matches_punct(&Punct::OpenBracket)
                 || token.matches_punct(&Punct::Plus)
@@ -4437,9 +4437,13 @@ where
                 || token.matches_keyword(&Keyword::TypeOf)
                 || token.matches_keyword(&Keyword::Void)
                 || token.matches_keyword(&Keyword::Yield)
+                || token.matches_keyword(&Keyword::Import)
+                || token.matches_keyword(&Keyword::Await)
+                || self.is_var_ident(&self.look_ahead)
         }
-        if token.is_regex() {
-            ret = true;
+        if let Token::Template(_) = token {
+            // the rest of a template ends the expression
+            ret = token.is_template_head();
         }
         ret
     }
-- 
2.43.0


From 34f21bb1bf8488e8405bea4370aff207a330cd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:07 +0000
Subject: [PATCH 20/48] fix: give the body of a method its own yield and await
 context

---
 src/lib.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index d1698d9..150892e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1899,7 +1899,6 @@ where
             if at_get {
                 kind = Some(PropertyKind::Get);
                 computed = self.at_punct(Punct::OpenBracket);
-                self.context.allow_yield = false;
                 key = Some(self.parse_object_property_key()?);
                 value = Some(self.parse_getter_method()?);
             } else if at_set {
@@ -2035,7 +2034,7 @@ where
         debug!("parse_property_method_async_fn");
         let prev_yield = self.context.allow_yield;
         let prev_await = self.context.r#await;
-        self.context.allow_yield = false;
+        self.context.allow_yield = true;
         self.context.r#await = true;
         let params = self.parse_formal_params()?;
         let body = self.parse_property_method_body(params.simple, params.found_restricted)?;
@@ -2054,10 +2053,13 @@ where
     fn parse_property_method(&mut self) -> Res<PropertyValue> {
         debug!("parse_property_method");
         let prev_yield = self.context.allow_yield;
-        self.context.allow_yield = false;
+        let prev_await = self.context.r#await;
+        self.context.allow_yield = true;
+        self.context.r#await = false;
         let params = self.parse_formal_params()?;
         let body = self.parse_property_method_body(params.simple, params.found_restricted)?;
         self.context.allow_yield = prev_yield;
+        self.context.r#await = prev_await;
         let func = Function {
             id: None,
             params: params.params,
@@ -2071,11 +2073,14 @@ where
     fn parse_generator_method(&mut self) -> Res<PropertyValue> {
         debug!("pares_generator_method");
         let prev_yield = self.context.allow_yield;
+        let prev_await = self.context.r#await;
         self.context.allow_yield = true;
+        self.context.r#await = false;
         let params = self.parse_formal_params()?;
         self.context.allow_yield = false;
         let body = self.parse_method_body(params.simple, params.found_restricted)?;
         self.context.allow_yield = prev_yield;
+        self.context.r#await = prev_await;
         let func = Function {
             id: None,
             params: params.params,
@@ -2090,6 +2095,9 @@ where
         debug!("parse_getter_method");
         let is_gen = false;
         let prev_yield = self.context.allow_yield;
+        let prev_await = self.context.r#await;
+        self.context.allow_yield = true;
+        self.context.r#await = false;
         let start_position = self.look_ahead_position;
         let formal_params = self.parse_formal_params()?;
         if formal_params.params.len() > 0 {
@@ -2097,6 +2105,7 @@ where
         }
         let body = self.parse_method_body(formal_params.simple, formal_params.found_restricted)?;
         self.context.allow_yield = prev_yield;
+        self.context.r#await = prev_await;
         Ok(PropertyValue::Expr(Expr::Function(Function {
             id: None,
             params: formal_params.params,
@@ -2128,10 +2137,11 @@ where
     fn parse_setter_method(&mut self) -> Res<PropertyValue> {
         debug!("parse_setter_method");
         let prev_allow = self.context.allow_yield;
+        let prev_await = self.context.r#await;
         self.context.allow_yield = true;
+        self.context.r#await = false;
         let start_position = self.look_ahead_position;
         let params = self.parse_formal_params()?;
-        self.context.allow_yield = prev_allow;
         if params.params.len() != 1 {
             self.tolerate_error(Error::InvalidSetterParams(start_position))?;
         } else if let Some(ref param) = params.params.get(0) {
@@ -2140,6 +2150,8 @@ where
             }
         }
         let body = self.parse_property_method_body(params.simple, params.found_restricted)?;
+        self.context.allow_yield = prev_allow;
+        self.context.r#await = prev_await;
         let func = Function {
             id: None,
             params: params.params,
-- 
2.43.0


From c9bec577a5a1eb53add16aadd4c0543df1bc909d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:12 +0000
Subject: [PATCH 21/48] fix: parse the default values of patterns in the right
 context

---
 src/lib.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 150892e..26520d7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2863,6 +2863,12 @@ where
         let mut args = vec![];
         let mut simple: bool = true;
         let mut found_restricted = false;
+        let prev_yield = self.context.allow_yield;
+        let prev_in_fn = self.context.in_function_body;
+        // a default value is never the operand of `yield` but it can
+        // refer to `new.target` or `super`
+        self.context.allow_yield = true;
+        self.context.in_function_body = true;
         if !self.at_punct(Punct::CloseParen) {
             while !self.look_ahead.token.is_eof() {
                 let (s, r, arg) = self.parse_formal_param(simple)?;
@@ -2879,6 +2885,8 @@ where
             }
         }
         self.expect_punct(Punct::CloseParen)?;
+        self.context.allow_yield = prev_yield;
+        self.context.in_function_body = prev_in_fn;
 
         Ok(FormalParams {
             params: args,
@@ -2928,12 +2936,9 @@ where
         let (is_restricted, ret) = self.parse_pattern(None, params)?;
         if self.at_punct(Punct::Assign) {
             let _assign = self.next_item()?;
-            let prev_yield = self.context.allow_yield;
-            self.context.allow_yield = true;
             let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
             let right = self.parse_assignment_expr()?;
             self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
-            self.context.allow_yield = prev_yield;
             return Ok((
                 is_restricted,
                 Pat::Assignment(AssignmentPat {
@@ -2953,9 +2958,15 @@ where
         debug!("parse_pattern");
         if self.at_punct(Punct::OpenBracket) {
             let kind = kind.unwrap_or(VariableKind::Var);
-            self.parse_array_pattern(params, kind)
+            let prev_in = replace(&mut self.context.allow_in, true);
+            let ret = self.parse_array_pattern(params, kind)?;
+            self.context.allow_in = prev_in;
+            Ok(ret)
         } else if self.at_punct(Punct::OpenBrace) {
-            self.parse_object_pattern()
+            let prev_in = replace(&mut self.context.allow_in, true);
+            let ret = self.parse_object_pattern()?;
+            self.context.allow_in = prev_in;
+            Ok(ret)
         } else {
             if let Some(kind) = kind {
                 match kind {
-- 
2.43.0


From eca42fc7fc9d9f3c1a0eb6a13b0498dca0537cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:48 +0000
Subject: [PATCH 22/48] fix: only take async for a modifier in front of a class
 element name

---
 src/lib.rs | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 26520d7..4ac9fc5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1842,10 +1842,6 @@ where
         let mut computed = false;
         let mut is_static = false;
         let mut is_async = false;
-        if self.at_contextual_keyword("async") {
-            let _async = self.next_item()?;
-            is_async = true;
-        }
         if self.at_punct(Punct::Asterisk) {
             debug!("found leading asterisk");
             let _ = self.next_item()?;
@@ -1869,16 +1865,18 @@ where
             } else {
                 key = Some(new_key);
             }
-            if token.is_ident()
+            // `async` is only a modifier when a name follows on the same line
+            let at_async = match key {
+                Some(ref k) => token.is_ident() && Self::is_key(k, "async"),
+                None => false,
+            };
+            if at_async
                 && !self.context.has_line_term
-                && self.at_contextual_keyword("async")
+                && Self::qualified_prop_name(&self.look_ahead.token)
             {
-                if !self.look_ahead.token.matches_punct(&Punct::Colon)
-                    && !self.look_ahead.token.matches_punct(&Punct::OpenParen)
-                    && !self.look_ahead.token.matches_punct(&Punct::Asterisk)
-                {
-                    return self.expected_token_error(&self.look_ahead, &[":", "(", "*"]);
-                }
+                is_async = true;
+                computed = self.at_punct(Punct::OpenBracket);
+                key = Some(self.parse_object_property_key()?);
             }
         }
 
@@ -1886,7 +1884,7 @@ where
         let mut method = false;
 
         let look_ahead_prop_key = Self::qualified_prop_name(&self.look_ahead.token);
-        if token.is_ident() {
+        if token.is_ident() && !is_async {
             let (at_get, at_set) = if let Some(ref k) = key {
                 (
                     Self::is_key(&k, "get") && look_ahead_prop_key,
@@ -1950,7 +1948,7 @@ where
                         .expected_token_error(&self.look_ahead, &["[constructor declaration]"]);
                 }
                 if let Some(ref v) = value {
-                    if Self::is_generator(&v) {
+                    if is_async || Self::is_generator(&v) {
                         return self.expected_token_error(
                             &self.look_ahead,
                             &["[non-generator function declaration]"],
@@ -1988,7 +1986,8 @@ where
     fn is_key(key: &PropertyKey, other: &str) -> bool {
         match key {
             PropertyKey::Literal(ref l) => match l {
-                Literal::String(ref s) => s == other,
+                // the text of a string includes its quotes
+                Literal::String(ref s) => &s[1..s.len() - 1] == other,
                 _ => false,
             },
             PropertyKey::Expr(ref e) => match e {
-- 
2.43.0


From 2b0462e21caa9962ec85701f68f66e81e445b335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:57 +0000
Subject: [PATCH 23/48] fix: only take async for a modifier in front of a
 property name

---
 src/lib.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4ac9fc5..b534cf9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2545,12 +2545,10 @@ where
         let (key, is_async, computed) = if let Token::Ident = start.token {
             let id = self.scanner.string_for(&start.span).unwrap_or(String::new());
             let _ = self.next_item()?;
-            let computed = self.at_punct(Punct::OpenBracket);
-            let is_async = /*self.context.has_line_term
-                && */id == "async"/*
-                && !self.at_punct(Punct::Colon)
-                && !self.at_punct(Punct::Asterisk)
-                && !self.at_punct(Punct::Comma)*/;
+            // `async` is only a modifier when a name follows on the same line
+            let is_async =
+                id == "async" && !self.context.has_line_term && self.at_qualified_prop_key();
+            let computed = is_async && self.at_punct(Punct::OpenBracket);
             let key = if is_async {
                 self.parse_object_property_key()?
             } else {
@@ -2637,7 +2635,7 @@ where
                         method: true,
                         short_hand: false,
                     })
-                } else if self.is_var_ident(&start) {
+                } else if !is_async && self.is_var_ident(&start) {
                     if self.at_punct(Punct::Assign) {
                         self.context.first_covert_initialized_name_error =
                             Some(self.look_ahead.clone());
-- 
2.43.0


From cc864807af6d8d36ce5f6694c310060e477cece7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:46 +0000
Subject: [PATCH 24/48] fix: only accept assignment targets where a value is
 assigned

---
 src/lib.rs | 83 +++++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 73 insertions(+), 10 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index b534cf9..77b4962 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1311,10 +1311,17 @@ where
         } else {
             let prev_in = self.context.allow_in;
             self.context.allow_in = false;
-            let (prev_bind, prev_assign, prev_first) = self.inherit_cover_grammar();
+            let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
             let init = self.parse_assignment_expr()?;
-            self.set_inherit_cover_grammar_state(prev_bind, prev_assign, prev_first);
+            let is_target = self.context.is_assignment_target && Self::is_assignment_left(&init);
+            self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
             self.context.allow_in = prev_in;
+            if (self.at_keyword(Keyword::In) || self.at_contextual_keyword("of"))
+                && !is_target
+                && !self.config.tolerant
+            {
+                return self.unexpected_token_error(&self.look_ahead, "Not at assignment target");
+            }
             if self.at_keyword(Keyword::In) {
                 let _ = self.next_item()?;
                 let left = LoopLeft::Expr(init);
@@ -2283,7 +2290,10 @@ where
                 }
             }
             if self.at_async_function() {
-                self.parse_function_expr()
+                let func = self.parse_function_expr()?;
+                self.context.is_assignment_target = false;
+                self.context.is_binding_element = false;
+                Ok(func)
             } else {
                 let ident = self.next_item()?;
                 let ident = self.get_string(&ident.span)?;
@@ -2323,6 +2333,8 @@ where
             Ok(Expr::Literal(lit))
         } else if self.look_ahead.is_template() {
             let lit = self.parse_template_literal()?;
+            self.context.is_assignment_target = false;
+            self.context.is_binding_element = false;
             Ok(Expr::Literal(Literal::Template(lit)))
         } else if self.look_ahead.token.is_punct() {
             let (prev_bind, prev_assign, prev_first) = self.inherit_cover_grammar();
@@ -2359,9 +2371,7 @@ where
                 let ident = self.parse_ident_name()?;
                 Ok(Expr::Ident(ident))
             } else {
-                self.context.is_assignment_target = false;
-                self.context.is_binding_element = false;
-                if self.at_keyword(Keyword::Function) {
+                let expr = if self.at_keyword(Keyword::Function) {
                     self.parse_function_expr()
                 } else if self.at_keyword(Keyword::This) {
                     let _ = self.next_item()?;
@@ -2378,7 +2388,12 @@ where
                         &self.look_ahead,
                         &["function", "this", "class", "import"],
                     )
-                }
+                };
+                // after the body of a function or class, which
+                // has targets of its own
+                self.context.is_assignment_target = false;
+                self.context.is_binding_element = false;
+                expr
             }
         } else {
             self.expected_token_error(
@@ -2433,6 +2448,9 @@ where
                         let _ = self.next_item()?;
                         if self.at_punct(Punct::CloseParen) {
                             let _ = self.next_item()?;
+                            if !self.at_punct(Punct::FatArrow) {
+                                self.expect_punct(Punct::FatArrow)?;
+                            }
                             return Ok(Expr::ArrowParamPlaceHolder(
                                 exprs.into_iter().map(|e| FunctionArg::Expr(e)).collect(),
                                 false,
@@ -2446,6 +2464,9 @@ where
                                 exprs.into_iter().map(|e| FunctionArg::Expr(e)).collect();
                             args.push(FunctionArg::Pat(rest));
                             self.expect_punct(Punct::CloseParen)?;
+                            if !self.at_punct(Punct::FatArrow) {
+                                self.expect_punct(Punct::FatArrow)?;
+                            }
                             return Ok(Expr::ArrowParamPlaceHolder(args, false));
                         } else {
                             let (prev_bind, prev_assign, prev_first) = self.inherit_cover_grammar();
@@ -2481,6 +2502,12 @@ where
                         ));
                     }
                 }
+                // in parentheses nothing is a pattern, and only
+                // a name or a member is still a target
+                self.context.is_binding_element = false;
+                if !Self::is_simple_target(&ex) {
+                    self.context.is_assignment_target = false;
+                }
                 Ok(ex)
             }
         }
@@ -3151,10 +3178,18 @@ where
                     self.context.allow_strict_directive = prev_allow_strict;
                     self.context.r#await = prev_await;
                     self.context.allow_yield = prev_yield;
+                    // the body has targets of its own
+                    self.context.is_assignment_target = false;
+                    self.context.is_binding_element = false;
                 }
             } else {
                 if self.at_assign() {
-                    if !self.context.is_assignment_target {
+                    let is_target = if self.at_punct(Punct::Assign) {
+                        Self::is_assignment_left(&current)
+                    } else {
+                        Self::is_simple_target(&current)
+                    };
+                    if !self.context.is_assignment_target || !is_target {
                         if !self.config.tolerant {
                             return self.unexpected_token_error(
                                 &self.look_ahead,
@@ -3443,6 +3478,8 @@ where
             }
             self.context.allow_yield = prev_yield;
         }
+        self.context.is_assignment_target = false;
+        self.context.is_binding_element = false;
         let y = YieldExpr {
             argument: arg,
             delegate,
@@ -3712,6 +3749,8 @@ where
         debug!("parse_await_expr");
         let _await = self.next_item()?;
         let arg = self.parse_unary_expression()?;
+        self.context.is_assignment_target = false;
+        self.context.is_binding_element = false;
         Ok(Expr::Await(Box::new(arg)))
     }
 
@@ -3745,7 +3784,8 @@ where
                     _ => (),
                 }
             }
-            if !self.context.is_assignment_target && !self.config.tolerant {
+            let is_target = self.context.is_assignment_target && Self::is_simple_target(&ex);
+            if !is_target && !self.config.tolerant {
                 return self
                     .unexpected_token_error(&op, "Cannot increment when not at assignment target");
             }
@@ -3775,7 +3815,9 @@ where
                         }
                     }
                     let op = self.next_item()?;
-                    if !self.context.is_assignment_target && !self.config.tolerant {
+                    let is_target =
+                        self.context.is_assignment_target && Self::is_simple_target(&expr);
+                    if !is_target && !self.config.tolerant {
                         return self.unexpected_token_error(
                             &op,
                             "Cannot increment when not at assignment target",
@@ -3809,6 +3851,23 @@ where
         }
     }
 
+    /// Only a name or a member can be updated or be
+    /// the target of a compound assignment
+    fn is_simple_target(expr: &Expr) -> bool {
+        match expr {
+            Expr::Ident(_) | Expr::Member(_) => true,
+            _ => false,
+        }
+    }
+
+    /// The left of `=`, `in` and `of` can also be a pattern
+    fn is_assignment_left(expr: &Expr) -> bool {
+        match expr {
+            Expr::Array(_) | Expr::Object(_) => true,
+            _ => Self::is_simple_target(expr),
+        }
+    }
+
     fn parse_left_hand_side_expr(&mut self) -> Res<Expr> {
         if !self.context.allow_in {
             // error
@@ -3953,6 +4012,8 @@ where
                     tag: Box::new(expr),
                     quasi,
                 };
+                self.context.is_assignment_target = false;
+                self.context.is_binding_element = false;
                 expr = Expr::TaggedTemplate(temp);
             } else {
                 break;
@@ -4065,6 +4126,8 @@ where
             let _ = self.next_item()?;
             if self.at_contextual_keyword("target") && self.context.in_function_body {
                 let property = self.parse_ident_name()?;
+                self.context.is_assignment_target = false;
+                self.context.is_binding_element = false;
                 Ok(Expr::MetaProperty(MetaProperty {
                     meta: String::from("new"),
                     property,
-- 
2.43.0


From 161e837fa6be85e45c30987254d6a0ab3d8fbcff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:22 +0000
Subject: [PATCH 25/48] fix: only take a call of async itself for the head of
 an arrow function

---
 src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 77b4962..8522938 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3972,7 +3972,10 @@ where
                 debug!(target: "look_ahead", "1 {:?}", expr);
             } else if self.at_punct(Punct::OpenParen) {
                 let current_pos = self.look_ahead_position;
-                let async_arrow = is_async && start_pos.line == current_pos.line;
+                // only `async` itself starts an arrow function, not one of its members
+                let async_arrow = is_async
+                    && Self::is_ident(&expr)
+                    && start_pos.line == current_pos.line;
                 self.context.is_binding_element = false;
                 self.context.is_assignment_target = false;
                 let args = if async_arrow {
-- 
2.43.0


From d83eaa18ab863aa6599f98212e21cd3ea01b5c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:26 +0000
Subject: [PATCH 26/48] fix: reject values and missing values of variables in
 the head of a for loop

---
 src/lib.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8522938..4a6a082 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1231,11 +1231,13 @@ where
                 } else {
                     return self.expected_token_error(&self.look_ahead, &["variable decl"]);
                 };
-                if self.at_keyword(Keyword::In) {
+                // a name in sloppy code is all that can have a value here
+                let init_allowed = !self.context.strict && Self::is_pat_ident(&decl.id);
+                if self.at_keyword(Keyword::In) && (decl.init.is_none() || init_allowed) {
                     let left = LoopLeft::Variable(kind, decl);
                     let stmt = self.parse_for_in_loop(left)?;
                     return Ok(Stmt::ForIn(stmt));
-                } else if self.at_contextual_keyword("of") {
+                } else if decl.init.is_none() && self.at_contextual_keyword("of") {
                     let left = LoopLeft::Variable(kind, decl);
                     let stmt = self.parse_for_of_loop(left, is_await)?;
                     return Ok(Stmt::ForOf(stmt));
@@ -1259,7 +1261,10 @@ where
                 },
                 _ => return self.expected_token_error(&kind, &["const", "let"]),
             };
-            if !self.context.strict && self.look_ahead.token.matches_keyword(&Keyword::In) {
+            if kind == VariableKind::Let
+                && !self.context.strict
+                && self.look_ahead.token.matches_keyword(&Keyword::In)
+            {
                 let _in = self.next_item()?;
                 //const or let becomes an ident
                 let k = match kind {
@@ -1659,7 +1664,9 @@ where
             }
         }
         let init = if kind == VariableKind::Const {
-            if !self.at_keyword(Keyword::In) && !self.at_contextual_keyword("of") {
+            let in_loop_head =
+                in_for && (self.at_keyword(Keyword::In) || self.at_contextual_keyword("of"));
+            if !in_loop_head {
                 if self.at_punct(Punct::Assign) {
                     let _ = self.next_item()?;
                     let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
-- 
2.43.0


From a64094da85de5e2ccc9535336f9cfa6cd5d18a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:55 +0000
Subject: [PATCH 27/48] fix: reject eval and arguments as names in strict code
 wherever they are bound

---
 src/lib.rs | 148 +++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 105 insertions(+), 43 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4a6a082..9051d6f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -711,9 +711,10 @@ where
         let imported = self.parse_ident_name()?;
         let local = if self.at_contextual_keyword("as") {
             let _ = self.next_item()?;
-            Some(self.parse_var_ident()?)
+            Some(self.parse_import_binding()?)
         } else {
             self.check_var_ident(&start)?;
+            self.check_restricted(&start, &imported)?;
             None
         };
         Ok(ImportSpecifier::Normal(imported, local))
@@ -725,12 +726,19 @@ where
             return self.expected_token_error(&self.look_ahead, &["as"]);
         }
         let _ = self.next_item()?;
-        let ident = self.parse_var_ident()?;
+        let ident = self.parse_import_binding()?;
         Ok(ImportSpecifier::Namespace(ident))
     }
 
-    fn parse_import_default_specifier(&mut self) -> Res<ImportSpecifier> {
+    fn parse_import_binding(&mut self) -> Res<Identifier> {
+        let start = self.look_ahead.clone();
         let ident = self.parse_var_ident()?;
+        self.check_restricted(&start, &ident)?;
+        Ok(ident)
+    }
+
+    fn parse_import_default_specifier(&mut self) -> Res<ImportSpecifier> {
+        let ident = self.parse_import_binding()?;
         Ok(ImportSpecifier::Default(ident))
     }
 
@@ -1321,8 +1329,9 @@ where
             let is_target = self.context.is_assignment_target && Self::is_assignment_left(&init);
             self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
             self.context.allow_in = prev_in;
+            let is_restricted = self.context.strict && Self::is_restricted_target(&init);
             if (self.at_keyword(Keyword::In) || self.at_contextual_keyword("of"))
-                && !is_target
+                && (!is_target || is_restricted)
                 && !self.config.tolerant
             {
                 return self.unexpected_token_error(&self.look_ahead, "Not at assignment target");
@@ -1719,11 +1728,9 @@ where
         let (id, first_restricted) = if !opt_ident || !self.at_punct(Punct::OpenParen) {
             let start = self.look_ahead.clone();
             let id = self.parse_var_ident()?;
-            if self.context.strict && start.token.is_restricted() {
-                return self.expected_token_error(&start, &[]);
-            }
+            self.check_restricted(&start, &id)?;
             let first_restricted = if !self.context.strict {
-                if start.token.is_restricted() {
+                if Self::is_restricted_word(&id) {
                     Some(start)
                 } else if start.token.is_strict_reserved() {
                     Some(start)
@@ -1743,19 +1750,19 @@ where
         self.context.allow_yield = !is_gen;
 
         let formal_params = self.parse_formal_params()?;
-        let strict = formal_params.strict;
+        let restricted_param = formal_params.found_restricted;
         let params = formal_params.params;
         let prev_strict = self.context.strict;
         let prev_allow_strict = self.context.allow_strict_directive;
         self.context.allow_strict_directive = formal_params.simple;
         let body = self.parse_function_source_el()?;
-        if self.context.strict {
+        if self.context.strict && !self.config.tolerant {
             if let Some(ref item) = first_restricted {
                 return self.expected_token_error(item, &[]);
             }
-        }
-        if self.context.strict && strict {
-            return self.expected_token_error(&self.look_ahead, &[]);
+            if restricted_param {
+                return self.expected_token_error(&self.look_ahead, &[]);
+            }
         }
         self.context.strict = prev_strict;
         self.context.allow_strict_directive = prev_allow_strict;
@@ -1804,7 +1811,10 @@ where
         let at_name =
             self.is_var_ident(&self.look_ahead) && !self.at_contextual_keyword("extends");
         let id = if at_name {
-            Some(self.parse_var_ident()?)
+            let start = self.look_ahead.clone();
+            let id = self.parse_var_ident()?;
+            self.check_restricted(&start, &id)?;
+            Some(id)
         } else if opt_ident {
             None
         } else {
@@ -2781,15 +2791,9 @@ where
         let id = if !self.at_punct(Punct::OpenParen) {
             let item = self.look_ahead.clone();
             let id = self.parse_fn_name(is_gen)?;
-            if item.token.is_restricted() {
-                if self.context.strict {
-                    if !self.config.tolerant {
-                        return self
-                            .unexpected_token_error(&item, "restricted ident in strict context");
-                    }
-                } else {
-                    found_restricted = true;
-                }
+            self.check_restricted(&item, &id)?;
+            if Self::is_restricted_word(&id) {
+                found_restricted = true;
             }
             if item.token.is_strict_reserved() {
                 found_restricted = true;
@@ -2876,6 +2880,54 @@ where
         }
         Ok(())
     }
+    /// Reports an error if the name provided cannot be given to
+    /// a variable, function or class in strict mode
+    fn check_restricted(&self, item: &Item, name: &str) -> Res<()> {
+        if self.context.strict && Self::is_restricted_word(name) && !self.config.tolerant {
+            return self.unexpected_token_error(item, "restricted ident in strict context");
+        }
+        Ok(())
+    }
+    /// Does a pattern written as an expression give a value to
+    /// a name that is restricted in strict mode
+    fn is_restricted_target(expr: &Expr) -> bool {
+        match expr {
+            Expr::Ident(ref name) => Self::is_restricted_word(name),
+            Expr::Array(ref els) => els.iter().any(|e| match e {
+                Some(ref e) => Self::is_restricted_target(e),
+                None => false,
+            }),
+            Expr::Object(ref props) => props.iter().any(|p| match p {
+                ObjectProperty::Spread(ref e) => Self::is_restricted_target(e),
+                ObjectProperty::Property(ref p) => match (&p.key, &p.value) {
+                    (PropertyKey::Expr(ref name), _) if p.short_hand => {
+                        Self::is_restricted_target(name)
+                    }
+                    (_, PropertyValue::Expr(ref e)) => Self::is_restricted_target(e),
+                    _ => false,
+                },
+            }),
+            Expr::Assignment(AssignmentExpr {
+                operator: AssignmentOperator::Equal,
+                left: AssignmentLeft::Expr(ref e),
+                ..
+            }) => Self::is_restricted_target(e),
+            Expr::Spread(ref e) => Self::is_restricted_target(e),
+            _ => false,
+        }
+    }
+    /// Does the parameter of an arrow function bind a name that
+    /// is restricted or reserved in strict mode
+    fn is_restricted_param(param: &FunctionArg) -> bool {
+        match param {
+            FunctionArg::Expr(Expr::Ident(ref name))
+            | FunctionArg::Pat(Pat::Identifier(ref name)) => {
+                Self::is_restricted_word(name) || Self::is_strict_reserved(name)
+            }
+            FunctionArg::Expr(ref e) => Self::is_restricted_target(e),
+            FunctionArg::Pat(_) => false,
+        }
+    }
     /// Can the token provided be used as the name of a variable
     /// in the current context
     fn is_var_ident(&self, ident: &Item) -> bool {
@@ -2921,7 +2973,6 @@ where
 
         Ok(FormalParams {
             params: args,
-            strict: false,
             found_restricted,
             simple,
         })
@@ -3009,8 +3060,10 @@ where
                     VariableKind::Var => (),
                 }
             }
+            let start = self.look_ahead.clone();
             let ident = self.parse_var_ident()?;
-            let restricted = &ident == "eval" || &ident == "arguments";
+            self.check_restricted(&start, &ident)?;
+            let restricted = Self::is_restricted_word(&ident) || Self::is_strict_reserved(&ident);
             params.push(self.look_ahead.clone());
             Ok((restricted, Pat::Identifier(ident)))
         }
@@ -3084,7 +3137,11 @@ where
         let method = false;
         let start = self.look_ahead.clone();
         let (key, value) = if start.token.is_ident() || start.token.is_keyword() {
-            let key = PropertyKey::Expr(Expr::Ident(self.parse_ident_name()?));
+            let name = self.parse_ident_name()?;
+            if !self.at_punct(Punct::Colon) {
+                self.check_restricted(&start, &name)?;
+            }
+            let key = PropertyKey::Expr(Expr::Ident(name));
             let value = if self.at_punct(Punct::Assign) {
                 self.check_var_ident(&start)?;
                 self.expect_punct(Punct::Assign)?;
@@ -3147,6 +3204,13 @@ where
                 self.context.is_binding_element = false;
                 let is_async = Self::is_async(&current);
                 if let Some(params) = self.reinterpret_as_cover_formals_list(current.clone())? {
+                    let restricted = params.iter().any(Self::is_restricted_param);
+                    if self.context.strict && restricted && !self.config.tolerant {
+                        return self.unexpected_token_error(
+                            &self.look_ahead,
+                            "restricted ident in strict context",
+                        );
+                    }
                     self.expect_punct(Punct::FatArrow)?;
                     let prev_strict = self.context.strict;
                     let prev_allow_strict = self.context.allow_strict_directive;
@@ -3159,6 +3223,12 @@ where
                         let prev_in = self.context.allow_in;
                         self.context.allow_in = true;
                         let body = self.parse_function_source_el()?;
+                        if self.context.strict && restricted && !self.config.tolerant {
+                            return self.unexpected_token_error(
+                                &self.look_ahead,
+                                "restricted ident in strict context",
+                            );
+                        }
                         self.context.allow_in = prev_in;
                         current = Expr::ArrowFunction(ArrowFunctionExpr {
                             id: None,
@@ -3204,21 +3274,14 @@ where
                             );
                         }
                     }
-                    if self.context.strict && Self::is_ident(&current) {
-                        if let Expr::Ident(ref i) = current {
-                            if Self::is_restricted_word(i) {
-                                return self.expected_token_error(
-                                    &self.look_ahead,
-                                    &[&format!("not {}", i)],
-                                );
-                            }
-                            if Self::is_strict_reserved(i) {
-                                return self.expected_token_error(
-                                    &self.look_ahead,
-                                    &[&format!("not {}", i)],
-                                );
-                            }
-                        }
+                    if self.context.strict
+                        && Self::is_restricted_target(&current)
+                        && !self.config.tolerant
+                    {
+                        return self.unexpected_token_error(
+                            &self.look_ahead,
+                            "restricted ident in strict context",
+                        );
                     }
                     let left = if !self.at_punct(Punct::Assign) {
                         self.context.is_assignment_target = false;
@@ -3814,7 +3877,7 @@ where
                     if self.context.strict {
                         match &expr {
                             &Expr::Ident(ref i) => {
-                                if Self::is_restricted_word(i) {
+                                if Self::is_restricted_word(i) && !self.config.tolerant {
                                     return self.expected_token_error(&start, &[]);
                                 }
                             }
@@ -4662,7 +4725,6 @@ where
 struct FormalParams {
     simple: bool,
     params: Vec<FunctionArg>,
-    strict: bool,
     found_restricted: bool,
 }
 
-- 
2.43.0


From 39b75ca1fa69f9e5af3210289f5001dcb14fb6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:30 +0000
Subject: [PATCH 28/48] fix: parse the whole expression and its semicolon in
 default exports

---
 src/lib.rs | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9051d6f..95f6af1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -761,23 +761,10 @@ where
                     let decl = Decl::Function(func);
                     DefaultExportDecl::Decl(decl)
                 } else {
-                    let expr = self.parse_assignment_expr()?;
-                    DefaultExportDecl::Expr(expr)
+                    self.parse_default_export_expr()?
                 }
             } else {
-                if self.at_contextual_keyword("from") {
-                    //error
-                }
-                if self.at_punct(Punct::OpenBrace) {
-                    let expr = self.parse_obj_init()?;
-                    DefaultExportDecl::Expr(expr)
-                } else if self.at_punct(Punct::OpenBracket) {
-                    let expr = self.parse_array_init()?;
-                    DefaultExportDecl::Expr(expr)
-                } else {
-                    let expr = self.parse_assignment_expr()?;
-                    DefaultExportDecl::Expr(expr)
-                }
+                self.parse_default_export_expr()?
             };
             Ok(ModExport::Default(decl))
         } else if self.at_punct(Punct::Asterisk) {
@@ -795,7 +782,6 @@ where
             {
                 let lex = self.parse_lexical_decl(false)?;
                 let decl = NamedExportDecl::Decl(lex);
-                self.consume_semicolon()?;
                 Ok(ModExport::Named(decl))
             } else if self.look_ahead.token.matches_keyword(&Keyword::Var) {
                 let _ = self.next_item()?;
@@ -854,6 +840,14 @@ where
         }
     }
 
+    fn parse_default_export_expr(&mut self) -> Res<DefaultExportDecl> {
+        let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
+        let expr = self.parse_assignment_expr()?;
+        self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
+        self.consume_semicolon()?;
+        Ok(DefaultExportDecl::Expr(expr))
+    }
+
     fn parse_export_specifier(&mut self) -> Res<ExportSpecifier> {
         let local = self.parse_ident_name()?;
         let exported = if self.at_contextual_keyword("as") {
-- 
2.43.0


From 2a3cea82bcdc8972163c1a036b6cae8fc6000736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:55 +0000
Subject: [PATCH 29/48] fix: judge assignments in property values on their own

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 95f6af1..53026a2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2649,7 +2649,7 @@ where
                         has_proto = true;
                     }
                     let _ = self.next_item()?;
-                    let (prev_bind, prev_assign, prev_first) = self.get_cover_grammar_state();
+                    let (prev_bind, prev_assign, prev_first) = self.inherit_cover_grammar();
                     let value = self.parse_assignment_expr()?;
                     self.set_inherit_cover_grammar_state(prev_bind, prev_assign, prev_first);
                     ObjectProperty::Property(Property {
-- 
2.43.0


From 2fee7b931522d80bce3ea9ed41cdba834b52a437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:05 +0000
Subject: [PATCH 30/48] fix: judge assignments in the values of for-of loops on
 their own

---
 src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 53026a2..cc10ba6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1342,7 +1342,9 @@ where
             } else if self.at_contextual_keyword("of") {
                 let _ = self.next_item()?;
                 let left = LoopLeft::Expr(init);
+                let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
                 let right = self.parse_assignment_expr()?;
+                self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
                 let body = self.parse_loop_body()?;
                 return Ok(Stmt::ForOf(ForOfStmt {
                     left,
@@ -1419,7 +1421,9 @@ where
     fn parse_for_of_loop(&mut self, left: LoopLeft, is_await: bool) -> Res<ForOfStmt> {
         debug!("parse_for_of_loop");
         let _ = self.next_item()?;
+        let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
         let right = self.parse_assignment_expr()?;
+        self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
         let body = self.parse_loop_body()?;
         Ok(ForOfStmt {
             left,
-- 
2.43.0


From d838d369a933f953800e4a020c7820462f078e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:15 +0000
Subject: [PATCH 31/48] fix: require a value for patterns in the head of a for
 loop

---
 src/lib.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index cc10ba6..a8bc8e0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1645,7 +1645,7 @@ where
             let init = self.parse_assignment_expr()?;
             self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
             Some(init)
-        } else if !Self::is_pat_ident(&id) && !in_for {
+        } else if !Self::is_pat_ident(&id) && !(in_for && self.at_for_in_of()) {
             self.expect_punct(Punct::Assign)?;
             None
         } else {
@@ -1654,6 +1654,11 @@ where
         Ok(VariableDecl { id, init })
     }
 
+    /// Is the next token the `in` or `of` of a for loop's head
+    fn at_for_in_of(&self) -> bool {
+        self.at_keyword(Keyword::In) || self.at_contextual_keyword("of")
+    }
+
     fn is_pat_ident(pat: &Pat) -> bool {
         match pat {
             Pat::Identifier(_) => true,
@@ -1670,9 +1675,8 @@ where
                 return self.unexpected_token_error(&start, "restricted word");
             }
         }
+        let in_loop_head = in_for && self.at_for_in_of();
         let init = if kind == VariableKind::Const {
-            let in_loop_head =
-                in_for && (self.at_keyword(Keyword::In) || self.at_contextual_keyword("of"));
             if !in_loop_head {
                 if self.at_punct(Punct::Assign) {
                     let _ = self.next_item()?;
@@ -1686,7 +1690,7 @@ where
             } else {
                 None
             }
-        } else if !in_for && !Self::is_pat_ident(&id) || self.at_punct(Punct::Assign) {
+        } else if !in_loop_head && !Self::is_pat_ident(&id) || self.at_punct(Punct::Assign) {
             self.expect_punct(Punct::Assign)?;
             let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
             let init = self.parse_assignment_expr()?;
-- 
2.43.0


From 99040cf1bfc30ceaace5fc03b06b69d6e7a3b216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:20 +0000
Subject: [PATCH 32/48] fix: only accept a last, plain rest element in
 assignment and arrow patterns

---
 src/lib.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index a8bc8e0..b5636fd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2542,9 +2542,11 @@ where
                 elements.push(None);
             } else if self.at_punct(Punct::Spread) {
                 let el = self.parse_spread_element()?;
-                if !self.at_punct(Punct::CloseBracket) {
+                if !self.at_punct(Punct::CloseBracket) || Self::is_assigned_spread(&el) {
                     self.context.is_assignment_target = false;
                     self.context.is_binding_element = false;
+                }
+                if !self.at_punct(Punct::CloseBracket) {
                     self.expect_punct(Punct::Comma)?;
                 }
                 elements.push(Some(el))
@@ -2568,6 +2570,10 @@ where
         while !self.at_punct(Punct::CloseBrace) {
             let prop = if self.at_punct(Punct::Spread) {
                 let spread = self.parse_spread_element()?;
+                if !self.at_punct(Punct::CloseBrace) || !Self::is_simple_spread(&spread) {
+                    self.context.is_assignment_target = false;
+                    self.context.is_binding_element = false;
+                }
                 ObjectProperty::Spread(Box::new(spread))
             } else {
                 let (found_proto, prop) = self.parse_obj_prop(has_proto)?;
@@ -3933,6 +3939,23 @@ where
     }
 
     /// The left of `=`, `in` and `of` can also be a pattern
+    /// Is this a spread of an assignment, which is no rest element
+    fn is_assigned_spread(expr: &Expr) -> bool {
+        match expr {
+            Expr::Spread(arg) => match &**arg {
+                Expr::Assignment(_) => true,
+                _ => false,
+            },
+            _ => false,
+        }
+    }
+    /// Is this a spread of a name or member
+    fn is_simple_spread(expr: &Expr) -> bool {
+        match expr {
+            Expr::Spread(arg) => Self::is_simple_target(arg),
+            _ => false,
+        }
+    }
     fn is_assignment_left(expr: &Expr) -> bool {
         match expr {
             Expr::Array(_) | Expr::Object(_) => true,
-- 
2.43.0


From a539a7dfa92eae38f1936a54ae7d0e4b77bfa4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:26 +0000
Subject: [PATCH 33/48] fix: only accept parameters in front of the arrow of an
 async arrow function

---
 src/lib.rs | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index b5636fd..1cf13aa 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4073,13 +4073,16 @@ where
                     && start_pos.line == current_pos.line;
                 self.context.is_binding_element = false;
                 self.context.is_assignment_target = false;
-                let args = if async_arrow {
+                let (args, are_params) = if async_arrow {
                     self.parse_async_args()?
                 } else {
-                    self.parse_args()?
+                    (self.parse_args()?, false)
                 };
                 //TODO: check for bad import call
                 if async_arrow && self.at_punct(Punct::FatArrow) {
+                    if !are_params && !self.config.tolerant {
+                        return self.expected_token_error(&self.look_ahead, &["binding element"]);
+                    }
                     let args = args.into_iter().map(|a| FunctionArg::Expr(a)).collect();
                     expr = Expr::ArrowParamPlaceHolder(args, true);
                 } else {
@@ -4121,20 +4124,27 @@ where
         Ok(expr)
     }
     /// Parse the arguments of an async function
-    fn parse_async_args(&mut self) -> Res<Vec<Expr>> {
+    /// and if they could be the parameters of one
+    fn parse_async_args(&mut self) -> Res<(Vec<Expr>, bool)> {
         debug!("parse_async_args");
         self.expect_punct(Punct::OpenParen)?;
         let mut ret = vec![];
+        let mut are_params = true;
         if !self.at_punct(Punct::CloseParen) {
             loop {
+                let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
                 let arg = if self.at_punct(Punct::Spread) {
-                    self.parse_spread_element()?
-                } else {
-                    let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
-                    let arg = self.parse_async_arg()?;
-                    self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
+                    let arg = self.parse_spread_element()?;
+                    // a rest parameter is the last one and has no default
+                    if !self.at_punct(Punct::CloseParen) || Self::is_assigned_spread(&arg) {
+                        are_params = false;
+                    }
                     arg
+                } else {
+                    self.parse_async_arg()?
                 };
+                are_params = are_params && self.context.is_binding_element;
+                self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
                 ret.push(arg);
                 if self.at_punct(Punct::CloseParen) {
                     break;
@@ -4146,7 +4156,7 @@ where
             }
         }
         self.expect_punct(Punct::CloseParen)?;
-        Ok(ret)
+        Ok((ret, are_params))
     }
     /// Parse an argument of an async function
     /// note: not sure this is needed
-- 
2.43.0


From 4665d25e0328d902c0b038837916ccd700c762d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:31 +0000
Subject: [PATCH 34/48] fix: only accept a name for the rest of an object
 pattern

---
 src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 1cf13aa..3551a6b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3129,7 +3129,11 @@ where
     fn parse_rest_prop(&mut self) -> Res<ObjectPatPart> {
         debug!("parse_rest_prop");
         self.expect_punct(Punct::Spread)?;
+        let start = self.look_ahead.clone();
         let (_, arg) = self.parse_pattern(None, &mut vec![])?;
+        if !Self::is_pat_ident(&arg) {
+            return self.expected_token_error(&start, &["identifier"]);
+        }
         if !self.at_punct(Punct::CloseBrace) {
             return self.expected_token_error(&self.look_ahead, &["}"]);
         }
-- 
2.43.0


From 3df33a2b217d379af59259391330b53ac14d8237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:31 +0000
Subject: [PATCH 35/48] fix: do not accept extends as a variable name

---
 src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3551a6b..fa8d1c1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2314,6 +2314,9 @@ where
                 self.context.is_binding_element = false;
                 Ok(func)
             } else {
+                if self.at_contextual_keyword("extends") {
+                    return self.expected_token_error(&self.look_ahead, &["expression"]);
+                }
                 let ident = self.next_item()?;
                 let ident = self.get_string(&ident.span)?;
                 if ident == "null" {
@@ -2940,7 +2943,11 @@ where
     /// in the current context
     fn is_var_ident(&self, ident: &Item) -> bool {
         match &ident.token {
-            Token::Ident => &self.scanner.stream[ident.span.start..ident.span.end] != "null",
+            // the scanner reports `null` and `extends` as identifiers
+            Token::Ident => match &self.scanner.stream[ident.span.start..ident.span.end] {
+                "null" | "extends" => false,
+                _ => true,
+            },
             Token::Keyword(Keyword::Yield) => !self.context.strict && self.context.allow_yield,
             Token::Keyword(Keyword::Await) => !self.context.is_module && !self.context.r#await,
             Token::Keyword(ref k) => !self.context.strict && k.is_strict_reserved(),
-- 
2.43.0


From f04cc49efed88e5e42d74c1c1eb1617682713f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:39 +0000
Subject: [PATCH 36/48] fix: reject labelled functions in strict code

---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index fa8d1c1..668de1b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1528,6 +1528,12 @@ where
                 let expr = Expr::Class(cls);
                 Stmt::Expr(expr)
             } else if self.at_keyword(Keyword::Function) {
+                if self.context.strict && !self.config.tolerant {
+                    return self.unexpected_token_error(
+                        &self.look_ahead,
+                        "labelled functions are not allowed in strict mode",
+                    );
+                }
                 let f = self.parse_function_decl(true)?;
                 let expr = Expr::Function(f);
                 Stmt::Expr(expr)
-- 
2.43.0


From 613e30af7aaab30fbcbe9bb30e867e9a85f49107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:18 +0000
Subject: [PATCH 37/48] fix: require one specifier in import calls

---
 src/lib.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 668de1b..8ea2936 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4048,6 +4048,7 @@ where
         debug!("parse_left_hand_side_expr_allow_call");
         let start_pos = self.look_ahead_position;
         let is_async = self.at_contextual_keyword("async");
+        let is_import = self.at_keyword(Keyword::Import);
         let prev_in = self.context.allow_in;
         self.context.allow_in = true;
 
@@ -4084,6 +4085,7 @@ where
                 debug!(target: "look_ahead", "1 {:?}", expr);
             } else if self.at_punct(Punct::OpenParen) {
                 let current_pos = self.look_ahead_position;
+                let open = self.look_ahead.clone();
                 // only `async` itself starts an arrow function, not one of its members
                 let async_arrow = is_async
                     && Self::is_ident(&expr)
@@ -4095,7 +4097,17 @@ where
                 } else {
                     (self.parse_args()?, false)
                 };
-                //TODO: check for bad import call
+                if is_import && Self::is_ident(&expr) {
+                    // `import` takes exactly one specifier
+                    let valid = match args.as_slice() {
+                        [Expr::Spread(_)] => false,
+                        [_] => true,
+                        _ => false,
+                    };
+                    if !valid && !self.config.tolerant {
+                        return self.expected_token_error(&open, &["one module specifier"]);
+                    }
+                }
                 if async_arrow && self.at_punct(Punct::FatArrow) {
                     if !are_params && !self.config.tolerant {
                         return self.expected_token_error(&self.look_ahead, &["binding element"]);
-- 
2.43.0


From 47fc02983e2b6cc7bc1676292ad97ed002ee2ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 38/48] fix: report errors at the token that is out of place

---
 src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8ea2936..63eb6a3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -933,7 +933,7 @@ where
         debug!("parse_with_stmt");
         if self.context.strict {
             self.tolerate_error(Error::NonStrictFeatureInStrictContext(
-                self.current_position,
+                self.look_ahead_position,
                 "with statements".to_string(),
             ))?;
         }
@@ -2723,10 +2723,10 @@ where
                         })
                     }
                 } else {
-                    return self.expected_token_error(&start, &["object property value"]);
+                    return self.expected_token_error(&self.look_ahead, &["object property value"]);
                 }
             } else {
-                return self.expected_token_error(&start, &["object property key"]);
+                return self.expected_token_error(&self.look_ahead, &["object property key"]);
             }
         };
         Ok((has_proto, prop))
@@ -2785,7 +2785,7 @@ where
             };
             Ok(TemplateElement { raw, cooked, tail })
         } else {
-            self.expected_token_error(&self.look_ahead, &["Template part"])
+            self.expected_token_error(&item, &["Template part"])
         }
     }
 
-- 
2.43.0


From 62f7d32f116e5f175daee992de60add4d6a23a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:18 +0000
Subject: [PATCH 39/48] fix: let can be the name of a variable at the start of
 a for loop's head

---
 src/lib.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 63eb6a3..ddaee96 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1253,7 +1253,9 @@ where
                 let stmt = self.parse_for_loop_cont(Some(init))?;
                 return Ok(Stmt::For(stmt));
             }
-        } else if self.at_keyword(Keyword::Const) || self.at_keyword(Keyword::Let) {
+        } else if self.at_keyword(Keyword::Const)
+            || self.at_keyword(Keyword::Let) && !self.at_let_name()
+        {
             let kind = self.next_item()?;
             let kind = match &kind.token {
                 Token::Keyword(ref k) => match k {
@@ -1316,11 +1318,14 @@ where
                 }
             }
         } else {
+            let starts_with_let = self.at_keyword(Keyword::Let);
             let prev_in = self.context.allow_in;
             self.context.allow_in = false;
             let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
             let init = self.parse_assignment_expr()?;
-            let is_target = self.context.is_assignment_target && Self::is_assignment_left(&init);
+            let is_target = self.context.is_assignment_target
+                && Self::is_assignment_left(&init)
+                && !(starts_with_let && self.at_contextual_keyword("of"));
             self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
             self.context.allow_in = prev_in;
             let is_restricted = self.context.strict && Self::is_restricted_target(&init);
@@ -4516,6 +4521,15 @@ where
             false
         }
     }
+    /// In the head of a for loop `let` is the name of a variable when
+    /// no binding follows, before `in` that is left to the declaration
+    fn at_let_name(&mut self) -> bool {
+        !self.context.strict
+            && !self.at_lexical_decl()
+            && !self
+                .peek()
+                .map_or(false, |next| next.token.matches_keyword(&Keyword::In))
+    }
     /// Get the token after the look ahead, skipping any comments, without
     /// changing the scanner
     fn peek(&mut self) -> Option<Item> {
-- 
2.43.0


From 0bf42adce866396c96101779f1d44517a8637d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:32 +0000
Subject: [PATCH 40/48] fix: async can be the target of a for await loop

---
 src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index ddaee96..86a668d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1322,7 +1322,12 @@ where
             let prev_in = self.context.allow_in;
             self.context.allow_in = false;
             let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
-            let init = self.parse_assignment_expr()?;
+            // in `for await (async of a)` no arrow function can follow
+            let init = if is_await {
+                self.parse_conditional_expr()?
+            } else {
+                self.parse_assignment_expr()?
+            };
             let is_target = self.context.is_assignment_target
                 && Self::is_assignment_left(&init)
                 && !(starts_with_let && self.at_contextual_keyword("of"));
-- 
2.43.0


From 2be07758ae1133b3aeaf50fc749f43bc3c7a2a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:34 +0000
Subject: [PATCH 41/48] fix: check arrow function parameters before a trailing
 comma

---
 src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 86a668d..f93596a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2489,6 +2489,10 @@ where
                             if !self.at_punct(Punct::FatArrow) {
                                 self.expect_punct(Punct::FatArrow)?;
                             }
+                            if !self.context.is_binding_element {
+                                return self
+                                    .expected_token_error(&self.look_ahead, &["binding element"]);
+                            }
                             return Ok(Expr::ArrowParamPlaceHolder(
                                 exprs.into_iter().map(|e| FunctionArg::Expr(e)).collect(),
                                 false,
-- 
2.43.0


From d40bc142c5ca246ee632211bfe6914b3911dbdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:31 +0000
Subject: [PATCH 42/48] fix: no line terminator is allowed before the arrow of
 a function

---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index f93596a..ae99d42 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3250,6 +3250,12 @@ where
                             "restricted ident in strict context",
                         );
                     }
+                    if self.context.has_line_term {
+                        return self.unexpected_token_error(
+                            &self.look_ahead,
+                            "no line terminator is allowed before =>",
+                        );
+                    }
                     self.expect_punct(Punct::FatArrow)?;
                     let prev_strict = self.context.strict;
                     let prev_allow_strict = self.context.allow_strict_directive;
-- 
2.43.0


From 209a7771e4f9fc4766676521ea308e5e295ac015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:56 +0000
Subject: [PATCH 43/48] fix: the base of a power cannot be a unary expression

---
 src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index ae99d42..890b3da 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3738,10 +3738,18 @@ where
 
     fn parse_exponentiation_expression(&mut self) -> Res<Expr> {
         debug!("parse_exponentiation_expression");
+        let at_unary = Self::unary_operator(&self.look_ahead.token).is_some()
+            || self.context.r#await && self.at_keyword(Keyword::Await);
         let (prev_bind, prev_assign, prev_first) = self.inherit_cover_grammar();
         let expr = self.parse_unary_expression()?;
         self.set_inherit_cover_grammar_state(prev_bind, prev_assign, prev_first);
         if self.at_punct(Punct::Exponent) {
+            if at_unary {
+                return self.unexpected_token_error(
+                    &self.look_ahead,
+                    "the base of a power cannot be a unary expression",
+                );
+            }
             let _stars = self.next_item()?;
             self.context.is_assignment_target = false;
             self.context.is_binding_element = false;
-- 
2.43.0


From 7571b056f6b09b6b8a21be0703ac23054e77207b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:24 +0000
Subject: [PATCH 44/48] fix: the parameter of an arrow function cannot be in
 parentheses of its own

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 890b3da..b389e49 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2524,7 +2524,7 @@ where
                 }
                 self.expect_punct(Punct::CloseParen)?;
                 if self.at_punct(Punct::FatArrow) {
-                    if Self::is_ident(&ex) {
+                    if Self::is_ident(&ex) && self.context.is_binding_element {
                         self.context.is_binding_element = false;
                         return Ok(Expr::ArrowParamPlaceHolder(
                             vec![FunctionArg::Expr(ex)],
-- 
2.43.0


From 8832c3c1e91435540e13bcdc815c2df948bc410d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:29 +0000
Subject: [PATCH 45/48] fix: in is no operator after a comma at the start of a
 for loop's head

---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index b389e49..1a78870 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1365,12 +1365,14 @@ where
             } else {
                 let init = if self.at_punct(Punct::Comma) {
                     let mut seq = vec![init];
+                    let prev_in = replace(&mut self.context.allow_in, false);
                     while self.at_punct(Punct::Comma) {
                         let _comma = self.next_item()?;
                         let (prev_bind, prev_assign, prev_first) = self.inherit_cover_grammar();
                         seq.push(self.parse_assignment_expr()?);
                         self.set_inherit_cover_grammar_state(prev_bind, prev_assign, prev_first);
                     }
+                    self.context.allow_in = prev_in;
                     LoopInit::Expr(Expr::Sequence(seq))
                 } else {
                     LoopInit::Expr(init)
-- 
2.43.0


From b583af5d021e73b75d9acb986a5fd128a1d320d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:01 +0000
Subject: [PATCH 46/48] fix: for await is a for of loop

---
 src/lib.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 1a78870..335d442 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1216,6 +1216,7 @@ where
         if self.at_punct(Punct::SemiColon) {
             // any semi-colon would mean standard C style for loop
             // for (;;) {}
+            self.expect_of_after(is_await)?;
             let stmt = self.parse_for_loop(VariableKind::Var)?;
             return Ok(Stmt::For(stmt));
         }
@@ -1227,6 +1228,7 @@ where
             self.context.allow_in = false;
             let mut bindings = self.parse_variable_decl_list(true)?;
             self.context.allow_in = prev_in;
+            self.expect_of_after(is_await)?;
             if bindings.len() == 1 {
                 let decl = if let Some(d) = bindings.pop() {
                     d
@@ -1269,6 +1271,7 @@ where
                 && !self.context.strict
                 && self.look_ahead.token.matches_keyword(&Keyword::In)
             {
+                self.expect_of_after(is_await)?;
                 let _in = self.next_item()?;
                 //const or let becomes an ident
                 let k = match kind {
@@ -1288,6 +1291,7 @@ where
                 self.context.allow_in = false;
                 let mut decls = self.parse_binding_list(kind, true)?;
                 self.context.allow_in = prev_in;
+                self.expect_of_after(is_await)?;
                 if decls.len() == 1 {
                     let decl = if let Some(d) = decls.pop() {
                         d
@@ -1333,6 +1337,7 @@ where
                 && !(starts_with_let && self.at_contextual_keyword("of"));
             self.set_isolate_cover_grammar_state(prev_bind, prev_assign, prev_first)?;
             self.context.allow_in = prev_in;
+            self.expect_of_after(is_await)?;
             let is_restricted = self.context.strict && Self::is_restricted_target(&init);
             if (self.at_keyword(Keyword::In) || self.at_contextual_keyword("of"))
                 && (!is_target || is_restricted)
@@ -1382,6 +1387,14 @@ where
         }
     }
 
+    /// Only `of` can follow what a `for await` loop assigns to
+    fn expect_of_after(&self, is_await: bool) -> Res<()> {
+        if is_await && !self.at_contextual_keyword("of") {
+            return self.expected_token_error(&self.look_ahead, &["of"]);
+        }
+        Ok(())
+    }
+
     fn parse_for_loop(&mut self, kind: VariableKind) -> Res<ForStmt> {
         debug!("parse_for_loop");
         let init = if self.at_punct(Punct::SemiColon) {
-- 
2.43.0


From d4630e5bcc12e473b900835a0f50b1b4c7c91283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:47 +0000
Subject: [PATCH 47/48] fix: let cannot be declared by a pattern of a let or
 const declaration

---
 src/lib.rs | 65 +++++++++++++++++++++++++++++++-----------------------
 1 file changed, 38 insertions(+), 27 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 335d442..1921b30 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3035,7 +3035,7 @@ where
             let (found_restricted, pat) = self.parse_rest_element(&mut params)?;
             (found_restricted, FunctionArg::Pat(pat))
         } else {
-            let (found_restricted, pat) = self.parse_pattern_with_default(&mut params)?;
+            let (found_restricted, pat) = self.parse_pattern_with_default(None, &mut params)?;
             (found_restricted, FunctionArg::Pat(pat))
         };
         let simple = simple && Self::is_simple(&param);
@@ -3056,16 +3056,24 @@ where
         Ok((restricted, ret))
     }
 
-    fn parse_binding_rest_el(&mut self, params: &mut Vec<Item>) -> Res<(bool, Pat)> {
+    fn parse_binding_rest_el(
+        &mut self,
+        kind: Option<VariableKind>,
+        params: &mut Vec<Item>,
+    ) -> Res<(bool, Pat)> {
         debug!("parse_binding_rest_el");
         self.expect_punct(Punct::Spread)?;
-        let (restricted, arg) = self.parse_pattern(None, params)?;
+        let (restricted, arg) = self.parse_pattern(kind, params)?;
         Ok((restricted, Pat::RestElement(Box::new(arg))))
     }
 
-    fn parse_pattern_with_default(&mut self, params: &mut Vec<Item>) -> Res<(bool, Pat)> {
+    fn parse_pattern_with_default(
+        &mut self,
+        kind: Option<VariableKind>,
+        params: &mut Vec<Item>,
+    ) -> Res<(bool, Pat)> {
         debug!("parse_pattern_with_default");
-        let (is_restricted, ret) = self.parse_pattern(None, params)?;
+        let (is_restricted, ret) = self.parse_pattern(kind, params)?;
         if self.at_punct(Punct::Assign) {
             let _assign = self.next_item()?;
             let (prev_bind, prev_assign, prev_first) = self.isolate_cover_grammar();
@@ -3089,26 +3097,18 @@ where
     ) -> Res<(bool, Pat)> {
         debug!("parse_pattern");
         if self.at_punct(Punct::OpenBracket) {
-            let kind = kind.unwrap_or(VariableKind::Var);
             let prev_in = replace(&mut self.context.allow_in, true);
             let ret = self.parse_array_pattern(params, kind)?;
             self.context.allow_in = prev_in;
             Ok(ret)
         } else if self.at_punct(Punct::OpenBrace) {
             let prev_in = replace(&mut self.context.allow_in, true);
-            let ret = self.parse_object_pattern()?;
+            let ret = self.parse_object_pattern(kind)?;
             self.context.allow_in = prev_in;
             Ok(ret)
         } else {
-            if let Some(kind) = kind {
-                match kind {
-                    VariableKind::Const | VariableKind::Let => {
-                        if self.at_keyword(Keyword::Let) {
-                            return self.expected_token_error(&self.look_ahead, &["identifier"]);
-                        }
-                    }
-                    VariableKind::Var => (),
-                }
+            if Self::is_lexical(kind) && self.at_keyword(Keyword::Let) {
+                return self.expected_token_error(&self.look_ahead, &["identifier"]);
             }
             let start = self.look_ahead.clone();
             let ident = self.parse_var_ident()?;
@@ -3119,10 +3119,18 @@ where
         }
     }
 
+    /// `let` cannot be the name of what these declare
+    fn is_lexical(kind: Option<VariableKind>) -> bool {
+        match kind {
+            Some(VariableKind::Const) | Some(VariableKind::Let) => true,
+            _ => false,
+        }
+    }
+
     fn parse_array_pattern(
         &mut self,
         params: &mut Vec<Item>,
-        _kind: VariableKind,
+        kind: Option<VariableKind>,
     ) -> Res<(bool, Pat)> {
         debug!("parse_array_pattern");
         self.expect_punct(Punct::OpenBracket)?;
@@ -3133,11 +3141,11 @@ where
                 elements.push(None);
             } else {
                 if self.at_punct(Punct::Spread) {
-                    let (_, el) = self.parse_binding_rest_el(params)?;
+                    let (_, el) = self.parse_binding_rest_el(kind, params)?;
                     elements.push(Some(ArrayPatPart::Pat(el)));
                     break;
                 } else {
-                    let (_, el) = self.parse_pattern_with_default(params)?;
+                    let (_, el) = self.parse_pattern_with_default(kind, params)?;
                     elements.push(Some(ArrayPatPart::Pat(el)));
                 }
                 if !self.at_punct(Punct::CloseBracket) {
@@ -3149,15 +3157,15 @@ where
         Ok((false, Pat::Array(elements)))
     }
 
-    fn parse_object_pattern(&mut self) -> Res<(bool, Pat)> {
+    fn parse_object_pattern(&mut self, kind: Option<VariableKind>) -> Res<(bool, Pat)> {
         debug!("parse_object_pattern");
         self.expect_punct(Punct::OpenBrace)?;
         let mut body = vec![];
         while !self.at_punct(Punct::CloseBrace) {
             let el = if self.at_punct(Punct::Spread) {
-                self.parse_rest_prop()?
+                self.parse_rest_prop(kind)?
             } else {
-                self.parse_property_pattern()?
+                self.parse_property_pattern(kind)?
             };
             body.push(el);
             if !self.at_punct(Punct::CloseBrace) {
@@ -3168,11 +3176,11 @@ where
         Ok((false, Pat::Object(body)))
     }
 
-    fn parse_rest_prop(&mut self) -> Res<ObjectPatPart> {
+    fn parse_rest_prop(&mut self, kind: Option<VariableKind>) -> Res<ObjectPatPart> {
         debug!("parse_rest_prop");
         self.expect_punct(Punct::Spread)?;
         let start = self.look_ahead.clone();
-        let (_, arg) = self.parse_pattern(None, &mut vec![])?;
+        let (_, arg) = self.parse_pattern(kind, &mut vec![])?;
         if !Self::is_pat_ident(&arg) {
             return self.expected_token_error(&start, &["identifier"]);
         }
@@ -3184,7 +3192,7 @@ where
         Ok(part)
     }
 
-    fn parse_property_pattern(&mut self) -> Res<ObjectPatPart> {
+    fn parse_property_pattern(&mut self, kind: Option<VariableKind>) -> Res<ObjectPatPart> {
         debug!("parse_property_pattern");
         let mut computed = false;
         let mut short_hand = false;
@@ -3193,6 +3201,9 @@ where
         let (key, value) = if start.token.is_ident() || start.token.is_keyword() {
             let name = self.parse_ident_name()?;
             if !self.at_punct(Punct::Colon) {
+                if Self::is_lexical(kind) && start.token.matches_keyword(&Keyword::Let) {
+                    return self.expected_token_error(&start, &["identifier"]);
+                }
                 self.check_restricted(&start, &name)?;
             }
             let key = PropertyKey::Expr(Expr::Ident(name));
@@ -3210,7 +3221,7 @@ where
                 PropertyValue::None
             } else {
                 self.expect_punct(Punct::Colon)?;
-                let (_, p) = self.parse_pattern_with_default(&mut vec![])?;
+                let (_, p) = self.parse_pattern_with_default(kind, &mut vec![])?;
                 PropertyValue::Pat(p)
             };
             (key, value)
@@ -3218,7 +3229,7 @@ where
             computed = self.at_punct(Punct::OpenBracket);
             let key = self.parse_object_property_key()?;
             self.expect_punct(Punct::Colon)?;
-            let (_, v) = self.parse_pattern_with_default(&mut vec![])?;
+            let (_, v) = self.parse_pattern_with_default(kind, &mut vec![])?;
             let value = PropertyValue::Pat(v);
             (key, value)
         };
-- 
2.43.0


From 0e5ed8790792e8840595952d1d747ad9cb79c5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:15 +0000
Subject: [PATCH 48/48] fix: only variables can be exported

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1921b30..7ebd2e3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -815,7 +815,8 @@ where
             let mut specifiers = vec![];
             let mut found_default = false;
             while !self.at_punct(Punct::CloseBrace) {
-                if self.at_keyword(Keyword::Default) {
+                // `default` or another word that cannot be the name of a variable
+                if !self.is_var_ident(&self.look_ahead) {
                     found_default = true;
                 }
                 specifiers.push(self.parse_export_specifier()?);
-- 
2.43.0

