From 0bc7e1ac4449a292b242d778a10fe50351e14797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:48 +0000
Subject: [PATCH 01/18] fix: reject a dedent to between two indentation levels

Outdenting to a column strictly between two open levels looped forever
instead of reporting that the outdent matches no level.
---
 src/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index e6ef974..6b83fe7 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -354,7 +354,7 @@ where
                             self.indentation.pop();
                             self.add_token(TokenType::Outdent);
                         }
-                        Ordering::Less => {}
+                        Ordering::Less => break,
                     }
                 }
                 if !found && self.bol_spaces > 0 {
-- 
2.43.0


From f51be98bccb1d335699b1e178e85fb88847e95a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:49 +0000
Subject: [PATCH 02/18] fix: accept CRLF line endings

CRLF is a single grapheme cluster, so it never matched "\n": every line
ended in an unexpected token, comments swallowed the rest of the file
and lines inside strings weren't counted.
---
 src/scanner.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index 6b83fe7..4c4c6a1 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -243,7 +243,7 @@ where
                         // Optional carriage return.
                         self.matches("\r");
 
-                        if self.matches("\n") {
+                        if self.matches("\n") || self.matches("\r\n") {
                             self.reset_line();
                             self.is_line_continuation = true;
                         } else {
@@ -267,7 +267,7 @@ where
                         // Ignore this character for the most part.
                         is_whitespace = true;
                     }
-                    "\n" => {
+                    "\n" | "\r\n" => {
                         is_whitespace = true;
                         let continue_line = self.following_line_continuation;
                         if !self.is_bol
@@ -443,7 +443,7 @@ where
             match self.grapheme_indices.peek() {
                 None => break,
                 Some((_, grapheme_cluster)) => {
-                    if *grapheme_cluster == "\n" {
+                    if is_newline(grapheme_cluster) {
                         // Keep the newline next.
                         break;
                     }
@@ -461,7 +461,7 @@ where
             match self.grapheme_indices.peek() {
                 None => (),
                 Some((_, grapheme_cluster)) => {
-                    if *grapheme_cluster == "\n" {
+                    if is_newline(grapheme_cluster) {
                         self.line = self.line.saturating_add(1);
                         self.column = 0;
                     }
@@ -607,6 +607,11 @@ where
     }
 }
 
+// A carriage return followed by a newline is a single grapheme cluster.
+fn is_newline(grapheme: &str) -> bool {
+    matches!(grapheme, "\n" | "\r\n")
+}
+
 fn is_digit(grapheme: &str) -> bool {
     // Note: built-in is_numeric() uses a more complicated unicode definition of
     // numeric.
-- 
2.43.0


From 77a0d084627d2490389b3c0304f7ec3dfde81dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:50 +0000
Subject: [PATCH 03/18] fix: ignore comments and trailing spaces in layout

A comment on its own line opened or closed blocks and ended a continued
line, and a space or comment after a trailing operator stopped the line
from continuing.
---
 src/scanner.rs | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index 4c4c6a1..63986d9 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -54,7 +54,6 @@ pub struct Scanner<'source, 'g> {
     // Beginning of line spaces used for indentation.
     bol_spaces: u16,
     is_bol: bool,
-    only_comment_on_line: bool,
     is_line_continuation: bool,
     following_line_continuation: bool,
     is_abutting: bool,
@@ -79,7 +78,6 @@ where
             eof: false,
             bol_spaces: 0,
             is_bol: true,
-            only_comment_on_line: false,
             is_line_continuation: false,
             following_line_continuation: false,
             is_abutting: false,
@@ -222,13 +220,14 @@ where
                         following_line_continuation = true;
                     }
                     "/" => {
-                        let was_bol = self.is_bol;
-                        self.bol_indentation_tokens();
                         if self.matches("/") {
-                            // A comment until the end of the line.
+                            // A comment until the end of the line.  It's
+                            // whitespace, so a line with only a comment is a
+                            // blank line.
+                            is_whitespace = true;
                             self.advance_to_eol();
-                            self.only_comment_on_line = was_bol;
                         } else {
+                            self.bol_indentation_tokens();
                             self.add_token(Slash);
                             following_line_continuation = true;
                         }
@@ -270,12 +269,7 @@ where
                     "\n" | "\r\n" => {
                         is_whitespace = true;
                         let continue_line = self.following_line_continuation;
-                        if !self.is_bol
-                            && !continue_line
-                            // When there's only a comment on a line, don't
-                            // insert a terminator.
-                            && !self.only_comment_on_line
-                        {
+                        if !self.is_bol && !continue_line {
                             self.add_token(Terminator);
                         }
                         self.reset_line();
@@ -301,7 +295,12 @@ where
                         }
                     }
                 }
-                self.following_line_continuation = following_line_continuation;
+                // Whitespace before the newline doesn't affect whether the line
+                // continues on the next one.
+                if !is_whitespace {
+                    self.following_line_continuation =
+                        following_line_continuation;
+                }
                 self.is_abutting = !is_whitespace;
             }
         }
@@ -313,7 +312,6 @@ where
         self.column = 1;
         self.bol_spaces = 0;
         self.is_bol = true;
-        self.only_comment_on_line = false;
         // If the previous line was blank, do not affect line continuation
         // state.
         if !line_was_blank {
-- 
2.43.0


From 6075de75798c1867aded030110833abb6cf7261a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:24 +0000
Subject: [PATCH 04/18] fix: don't treat a token after a continued line break
 as abutting

A parenthesis in the first column after a backslash line continuation was
parsed as touching the callee.
---
 src/scanner.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/scanner.rs b/src/scanner.rs
index 63986d9..27a44dc 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -245,6 +245,7 @@ where
                         if self.matches("\n") || self.matches("\r\n") {
                             self.reset_line();
                             self.is_line_continuation = true;
+                            is_whitespace = true;
                         } else {
                             self.error(ParseErrorCause::new(
                                 SourceLoc::new(self.line, self.start_column),
-- 
2.43.0


From 156861d863b12cb07ec96a45fa05d25faed515b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:24 +0000
Subject: [PATCH 05/18] fix: report lexical errors at the offending character

Unexpected characters, tabs and mismatched outdents were reported one
column too far right.
---
 src/scanner.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index 27a44dc..9e7406d 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -255,7 +255,7 @@ where
                     }
                     "\t" => {
                         is_whitespace = true;
-                        self.error(ParseErrorCause::new(SourceLoc::new(self.line, self.column), "Illegal tab character; all whitespace must be spaces"));
+                        self.error(ParseErrorCause::new(SourceLoc::new(self.line, self.start_column), "Illegal tab character; all whitespace must be spaces"));
                     }
                     " " => {
                         is_whitespace = true;
@@ -287,7 +287,7 @@ where
                             self.scan_identifier();
                         } else {
                             self.error(ParseErrorCause::new(
-                                SourceLoc::new(self.line, self.column),
+                                SourceLoc::new(self.line, self.start_column),
                                 &format!(
                                     "Unexpected token: {}",
                                     grapheme_cluster
@@ -358,7 +358,7 @@ where
                 }
                 if !found && self.bol_spaces > 0 {
                     self.error(ParseErrorCause::new(
-                        SourceLoc::new(self.line, self.column),
+                        SourceLoc::new(self.line, self.start_column),
                         "Outdent does not match any previous indentation level",
                     ));
                 }
-- 
2.43.0


From 70570c7ae8e6a0364c4f211b50b4c51c33337517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:25 +0000
Subject: [PATCH 06/18] fix: don't panic parsing an empty expression

There's no token before the end of file in that case.
---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 43f655f..e3f1034 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1140,7 +1140,7 @@ impl<'a> Parser<'a> {
     }
 
     fn previous(&self) -> Option<&Token<'a>> {
-        self.tokens.get(self.current - 1)
+        self.tokens.get(self.current.checked_sub(1)?)
     }
 
     fn previous_source_loc(&self) -> SourceLoc {
-- 
2.43.0


From 909dbd45da01cbc20eef0fbce101b079bec9eff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:26 +0000
Subject: [PATCH 07/18] fix: accept an expression as a for-loop initializer

It required a newline in place of the semicolon.
---
 src/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index e3f1034..cbe3f84 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -355,7 +355,12 @@ impl<'a> Parser<'a> {
         } else if self.match_token(TokenType::Var) {
             Some(self.finish_var_declaration(true)?)
         } else {
-            Some(self.expression_statement()?)
+            let expr = self.expression()?;
+            self.consume(
+                TokenType::Semicolon,
+                "Expect ';' after for-loop initializer.",
+            )?;
+            Some(Stmt::Expression(expr))
         };
         let condition = if self.check(TokenType::Semicolon) {
             Expr::LiteralBool(true)
-- 
2.43.0


From af3fa8f40651ee9e4911ba8fbfc89bd79c576dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:26 +0000
Subject: [PATCH 08/18] fix: reject break and continue that would leave a
 function

A function defined inside a loop body isn't itself in the loop.
---
 src/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index cbe3f84..8743fbc 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -227,7 +227,11 @@ impl<'a> Parser<'a> {
         let end_block = self.consume_begin_block(
             "Expect '{' or indent before function body.",
         )?;
-        let body = self.finish_block(end_block)?;
+        // Loops around the function aren't loops inside of its body.
+        let enclosing_loops = std::mem::take(&mut self.in_loops);
+        let body_result = self.finish_block(end_block);
+        self.in_loops = enclosing_loops;
+        let body = body_result?;
 
         let fun_def = FunctionDefinition::new(
             parameters,
-- 
2.43.0


From 4ee99949f3c38a803bdeba39e980b127ca43ad5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:27 +0000
Subject: [PATCH 09/18] fix: accept an indented block after else

The else branch only accepted a statement on the same line or braces.
---
 src/parser.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 8743fbc..62542d4 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -419,7 +419,15 @@ impl<'a> Parser<'a> {
         };
 
         let else_stmt = if self.match_token(TokenType::Else) {
-            Some(Box::new(self.statement()?))
+            let else_body = if self.check(TokenType::Terminator) {
+                let end_block = self.consume_begin_block(
+                    "Expect '{' or indent before else body.",
+                )?;
+                self.finish_block(end_block).map(Stmt::Block)?
+            } else {
+                self.statement()?
+            };
+            Some(Box::new(else_body))
         } else {
             None
         };
-- 
2.43.0


From 2685a9847fa5759091703adbd0e756fc7e038813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:28 +0000
Subject: [PATCH 10/18] fix: reject scopes with more variables than slots

Slot indices are u8, so past 256 variables in a scope two variables
silently shared a slot.
---
 src/resolver.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/resolver.rs b/src/resolver.rs
index 1cef972..e7026b7 100644
--- a/src/resolver.rs
+++ b/src/resolver.rs
@@ -619,7 +619,7 @@ fn ensure_scope_index_limit(
     identifier: &str,
     loc: &SourceLoc,
 ) -> Result<(), ParseErrorCause> {
-    if new_scope_len > VAR_LOC_MAX_DISTANCE_USIZE {
+    if new_scope_len > usize::from(u8::MAX) {
         Err(ParseErrorCause::new_with_location(
             *loc,
             identifier,
-- 
2.43.0


From b7492968b9d549f61bf92780ba8fee8f4f73b6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:28 +0000
Subject: [PATCH 11/18] fix: leave the REPL at end of input

It looped forever, printing prompts.
---
 src/main.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 6f513dd..b690d56 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -58,6 +58,8 @@ fn run_repl() {
 
         let mut input = String::new();
         match stdin.lock().read_line(&mut input) {
+            // End of input.
+            Ok(0) => break,
             Ok(_) => {
                 let result = run(&mut resolver, input, true);
                 print_result(&result, true);
-- 
2.43.0


From fab143534f0a52fe520445156569dcb923d6d176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:29 +0000
Subject: [PATCH 12/18] fix: define a variable whose initializer failed to
 resolve

Otherwise all later uses of a global, including on later lines in the
REPL, were reported as reading it in its own initializer.
---
 src/resolver.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/resolver.rs b/src/resolver.rs
index e7026b7..c0db401 100644
--- a/src/resolver.rs
+++ b/src/resolver.rs
@@ -188,10 +188,12 @@ impl Resolver {
             }
             Stmt::Var(identifier, slot_index_cell, expr, loc) => {
                 self.declare(identifier, slot_index_cell, loc)?;
-                self.resolve_expression(expr)?;
+                let result = self.resolve_expression(expr);
+                // Even if the initializer has an error, it's over, so later
+                // code isn't reading the variable in it.
                 self.define(identifier, loc)?;
 
-                Ok(())
+                result
             }
             Stmt::While(condition, body) => {
                 self.resolve_expression(condition)?;
-- 
2.43.0


From 0f4f8485bed0e88aa67dc1105924667562608740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:29 +0000
Subject: [PATCH 13/18] fix: end a map without braces at a comma before a
 non-entry

In a list like `[a: 1, 2]` or `f(a: 1, 2)`, the map swallowed the comma
and was then called with the next item as its argument.
---
 src/parser.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 62542d4..f528bf8 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -47,6 +47,25 @@ const CALL_PRIMARY_TOKENS: [TokenType; 10] = [
     TokenType::Super,
 ];
 
+// Tokens that can start an expression.  See `unary()` and `primary()`.
+const EXPRESSION_START_TOKENS: [TokenType; 15] = [
+    TokenType::Bang,
+    TokenType::Minus,
+    TokenType::False,
+    TokenType::True,
+    TokenType::Nil,
+    TokenType::Number,
+    TokenType::String,
+    TokenType::Identifier,
+    TokenType::This,
+    TokenType::Fun,
+    TokenType::LeftParen,
+    TokenType::LeftParenAbutting,
+    TokenType::LeftBrace,
+    TokenType::LeftBracket,
+    TokenType::Super,
+];
+
 #[derive(Debug)]
 pub struct Parser<'a> {
     tokens: Vec<Token<'a>>,
@@ -1040,7 +1059,13 @@ impl<'a> Parser<'a> {
 
             // Allow a terminator so that two map entries on separate lines
             // without a comma will get parsed as a single map instead of two.
+            //
+            // A comma followed by another expression separates the map from
+            // the next item of an enclosing list, unless it's an entry.
             if self.check(tt::Comma)
+                && (!self.check_next_any_of(&EXPRESSION_START_TOKENS)
+                    || self.check_next_any_of(&[tt::Identifier, tt::String])
+                        && self.check_next_next(tt::Colon))
                 || self.check(tt::Terminator)
                     && (self.check_next_any_of(&[tt::Identifier, tt::String])
                         && self.check_next_next(tt::Colon)
-- 
2.43.0


From 3e86ec3086181186ae58224afe88b18272908370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:30 +0000
Subject: [PATCH 14/18] fix: resume parsing at the keyword of the next
 statement

Error recovery skipped the keyword too, so correct statements after an
error were reported as errors.
---
 src/parser.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index f528bf8..cd725f0 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -99,13 +99,14 @@ impl<'a> Parser<'a> {
         let mut statements = Vec::new();
         let mut errors = Vec::new();
         while !self.is_at_end() {
+            let start = self.current;
             match self.declaration() {
                 Ok(statement) => {
                     statements.push(statement);
                 }
                 Err(error) => {
                     errors.push(error);
-                    self.synchronize();
+                    self.synchronize(start);
                 }
             }
         }
@@ -1325,11 +1326,15 @@ impl<'a> Parser<'a> {
         }
     }
 
-    fn synchronize(&mut self) {
-        self.advance();
+    // Skip to the start of the next statement after an error in the one that
+    // began at the given token.
+    fn synchronize(&mut self, start: usize) {
+        if self.current == start {
+            self.advance();
+        }
 
         while !self.is_at_end() {
-            if let Some(token) = self.previous() {
+            if let Some(token) = self.peek() {
                 match token.token_type {
                     TokenType::Class
                     | TokenType::Fun
-- 
2.43.0


From 027caca132212e218874b2bca76c632a217d4058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:53 +0000
Subject: [PATCH 15/18] fix: leave the loop when its body is missing

After that error, a later break outside of any loop went unreported.
---
 src/parser.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index cd725f0..36cf8f0 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -523,10 +523,9 @@ impl<'a> Parser<'a> {
         let body_result = if self.check(TokenType::Terminator)
             || self.check(TokenType::LeftBrace)
         {
-            let end_block = self.consume_begin_block(
-                "Expect '{' or indent before loop body.",
-            )?;
-            self.finish_block(end_block).map(Stmt::Block)
+            self.consume_begin_block("Expect '{' or indent before loop body.")
+                .and_then(|end_block| self.finish_block(end_block))
+                .map(Stmt::Block)
         } else {
             self.statement()
         };
-- 
2.43.0


From c8b85cc17052e5ce31d9a5d3f36ba556f61b5e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:47 +0000
Subject: [PATCH 16/18] fix: forget what a rejected REPL line declared

---
 src/resolver.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/resolver.rs b/src/resolver.rs
index c0db401..2f774f8 100644
--- a/src/resolver.rs
+++ b/src/resolver.rs
@@ -83,6 +83,7 @@ impl Resolver {
         &mut self,
         mut statements: Vec<Stmt>,
     ) -> Result<ResolvedCode, ParseError> {
+        let scopes = self.scopes.clone();
         let mut errors = Vec::new();
         for statement in statements.iter_mut() {
             let result = self.resolve_statement(statement);
@@ -94,6 +95,8 @@ impl Resolver {
         if errors.is_empty() {
             Ok(ResolvedCode::new(statements))
         } else {
+            // The code won't run, so forget what it declared.
+            self.scopes = scopes;
             Err(ParseError::new(errors))
         }
     }
-- 
2.43.0


From 235bed8373513c4db9783cb75bd3250e067f09b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:46 +0000
Subject: [PATCH 17/18] fix: leave the line end before a closing brace to the
 statement

A map without braces took the line end that ends its statement when a
closing brace followed, so the statement was rejected in braces.
---
 src/parser.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 36cf8f0..576a3f0 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -963,6 +963,12 @@ impl<'a> Parser<'a> {
 
                 let map = self.literal_map()?;
 
+                // Allow the closing brace on a line of its own.
+                if self.check(TokenType::Terminator)
+                    && self.check_next(TokenType::RightBrace)
+                {
+                    self.advance();
+                }
                 self.consume(
                     TokenType::RightBrace,
                     "Expect '}' after map entries.",
@@ -1067,9 +1073,8 @@ impl<'a> Parser<'a> {
                     || self.check_next_any_of(&[tt::Identifier, tt::String])
                         && self.check_next_next(tt::Colon))
                 || self.check(tt::Terminator)
-                    && (self.check_next_any_of(&[tt::Identifier, tt::String])
-                        && self.check_next_next(tt::Colon)
-                        || self.check_next(tt::RightBrace))
+                    && self.check_next_any_of(&[tt::Identifier, tt::String])
+                    && self.check_next_next(tt::Colon)
             {
                 // Consume the comma or terminator and continue parsing the map.
                 self.advance();
-- 
2.43.0


From 7909fe1799831f5873b4caeb986322c0042da9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:12 +0000
Subject: [PATCH 18/18] fix: a line after an indented expression was taken for
 an assignment to it

---
 src/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 576a3f0..b79c998 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -568,7 +568,9 @@ impl<'a> Parser<'a> {
                 TokenType::Outdent,
                 "Expect outdent after indented expression.",
             )?;
-            expr
+
+            // The next line is not a part of this expression.
+            return Ok(expr);
         } else {
             self.or()?
         };
-- 
2.43.0

