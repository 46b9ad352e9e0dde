From 01d6c560efdabb21595b32715dd79b4cf53799a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:15 +0000
Subject: [PATCH 01/16] fix: report end of input inside a regexp or \u{...}
 escape as an error

The lexer panicked when the source ended inside a regular expression body, a
regular expression character class, or a braced Unicode escape: the loop that
reads the body stops at end of input as well as at the closing delimiter, and
the delimiter was then consumed unconditionally.
---
 crates/joker/src/lexer.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/crates/joker/src/lexer.rs b/crates/joker/src/lexer.rs
index 2fb6e87..b46af5e 100644
--- a/crates/joker/src/lexer.rs
+++ b/crates/joker/src/lexer.rs
@@ -248,7 +248,9 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
         let mut s = String::new();
         self.reread('/');
         self.read_until_with(&|ch| ch == '/', &mut |this| { this.read_regexp_char(&mut s) })?;
-        self.reread('/');
+        if !self.matches('/') {
+            return Err(Error::UnterminatedRegExp(None));
+        }
         let flags = self.read_word_parts()?;
         Ok(span.end(self, TokenData::RegExp(RegExpLiteral {
             pattern: s,
@@ -278,7 +280,10 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
     fn read_regexp_class(&mut self, s: &mut String) -> Result<()> {
         s.push(self.reread('['));
         self.read_until_with(&|ch| ch == ']', &mut |this| { this.read_regexp_class_char(s) })?;
-        s.push(self.reread(']'));
+        if !self.matches(']') {
+            return Err(Error::UnterminatedRegExp(None));
+        }
+        s.push(']');
         Ok(())
     }
 
@@ -448,7 +453,10 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
                 digits.push(this.read_hex_digit_into(s)?);
                 Ok(())
             })?;
-            s.push(self.reread('}'));
+            if !self.matches('}') {
+                return Err(Error::MissingHexDigits);
+            }
+            s.push('}');
             Ok(add_digits(digits, 16))
         } else {
             let mut place = 0x1000;
-- 
2.43.0


From 02be42ac48d610d0a0d9b9d96dd7dfb8a7c85739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:15 +0000
Subject: [PATCH 02/16] fix: do not overflow on braced Unicode escapes with
 many digits

A braced escape with eight or more hex digits overflowed u32: a panic with
overflow checks, and a wrapped (possibly valid-looking) code point without.
Saturate instead; the saturated value is not a code point and is rejected the
same way as any other out-of-range escape.
---
 crates/joker/src/lexer.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/crates/joker/src/lexer.rs b/crates/joker/src/lexer.rs
index b46af5e..09d1e74 100644
--- a/crates/joker/src/lexer.rs
+++ b/crates/joker/src/lexer.rs
@@ -11,13 +11,7 @@ use result::Result;
 use std::collections::VecDeque;
 
 fn add_digits(digits: Vec<u32>, radix: u32) -> u32 {
-    let mut place = 1;
-    let mut sum = 0;
-    for digit in digits.iter().rev() {
-        sum += digit * place;
-        place *= radix;
-    }
-    sum
+    digits.iter().fold(0u32, |sum, digit| sum.saturating_mul(radix).saturating_add(*digit))
 }
 
 struct SpanTracker {
-- 
2.43.0


From 7f7c223f4fd1abd2be3b92a5a0a34a1ee836b8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:15 +0000
Subject: [PATCH 03/16] fix: never poll the character source again once it has
 ended

An iterator may return Some again after None. The reader kept polling, so the
lexer produced further tokens after EOF, and hit unreachable!() when the source
resumed inside an unterminated block comment.
---
 crates/joker/src/reader.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/joker/src/reader.rs b/crates/joker/src/reader.rs
index c2466d7..933dfaa 100644
--- a/crates/joker/src/reader.rs
+++ b/crates/joker/src/reader.rs
@@ -1,8 +1,9 @@
 use track::Posn;
 use std::collections::VecDeque;
+use std::iter::Fuse;
 
 pub struct Reader<I> {
-    chars: I,
+    chars: Fuse<I>,
     ahead: VecDeque<char>,
     curr_posn: Posn
 }
@@ -10,7 +11,7 @@ pub struct Reader<I> {
 impl<I> Reader<I> where I: Iterator<Item=char> {
     pub fn new(chars: I) -> Reader<I> {
         Reader {
-            chars: chars,
+            chars: chars.fuse(),
             ahead: VecDeque::with_capacity(4),
             curr_posn: Posn::origin()
         }
-- 
2.43.0


From 73ca72c975394c636f7bfa7f3558c881953ea904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:15 +0000
Subject: [PATCH 04/16] fix: allow an HTML close comment after a multi-line
 block comment

A block comment that contains a line terminator counts as a line terminator,
so a --> that follows it starts a comment (ES2015 B.1.3).
---
 crates/joker/src/lexer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/joker/src/lexer.rs b/crates/joker/src/lexer.rs
index 09d1e74..611f3d5 100644
--- a/crates/joker/src/lexer.rs
+++ b/crates/joker/src/lexer.rs
@@ -600,7 +600,10 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
                 }
                 (Some('/'), Some('/')) => { self.skip_line_comment(2); }
                 (Some('/'), Some('*')) => {
-                    found_newline = self.skip_block_comment()? || found_newline;
+                    if self.skip_block_comment()? {
+                        found_newline = true;
+                        self.empty_line = true;
+                    }
                 }
                 (Some('<'), Some('!')) => {
                     if self.reader.peek(2) == Some('-') && self.reader.peek(3) == Some('-') {
-- 
2.43.0


From afb7949b2310d421dd8bcaa63a1b25acd3a556da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:15 +0000
Subject: [PATCH 05/16] fix: report import and export as unsupported instead of
 panicking

Parsing a module or a program with an import or export declaration panicked
on any input that got that far; the parser already has an error for features
it does not support.
---
 src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index f508913..5a53252 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -301,9 +301,9 @@ impl<I: Iterator<Item=char>> Parser<I> {
             match self.peek()?.value {
                 TokenData::EOF => break,
                 // ES6: import declaration
-                TokenData::Reserved(Reserved::Import) => unimplemented!(),
+                TokenData::Reserved(Reserved::Import) => { return Err(Error::UnsupportedFeature("import declaration")); },
                 // ES6: export declaration
-                TokenData::Reserved(Reserved::Export) => unimplemented!(),
+                TokenData::Reserved(Reserved::Export) => { return Err(Error::UnsupportedFeature("export declaration")); },
                 _ => { }
             }
 
-- 
2.43.0


From 90c436e1b0b70ff8ffcab355d2c22d4fc1f2f540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:15 +0000
Subject: [PATCH 06/16] fix: do not silently drop the rest of a script after a
 stray '}' or case

A statement list ends at '}', 'case' and 'default' as well as at the end of
input. At the top level of a script nothing checked which, so everything from
a stray '}', 'case' or 'default' onwards was ignored and the parse reported
success.
---
 src/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 5a53252..f450907 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -225,7 +225,9 @@ impl<I: Iterator<Item=char>> Parser<I> {
         debug_assert_eq!(self.goal, Goal::Unknown);
         self.goal = Goal::Script;
         self.context.strict = TriState::from(strict);
-        self.script_body()
+        let script = self.script_body()?;
+        self.expect(TokenData::EOF)?;
+        Ok(script)
     }
 
     fn script_body(&mut self) -> Result<Script> {
-- 
2.43.0


From 677f02a3c76d608fa7e0387aacafb1bb26e58b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:15 +0000
Subject: [PATCH 07/16] fix: a slash after a string at the start of a body is a
 division

The token after a potential directive was read in expression context, so the
slash in "a" / 2 started a regular expression.
---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index f450907..b77867f 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -168,7 +168,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
         let token1 = self.read()?;
 
         if let TokenData::String(ref literal) = token1.value {
-            if !self.peek()?.expression_continuation() {
+            if !self.peek_op()?.expression_continuation() {
                 return Ok(Some(span.end_with_auto_semi(self, Newline::Required, |semi| Dir {
                     location: None,
                     string: literal.clone(),
-- 
2.43.0


From dee64507795e40dd0a09f49a4be60806b65fa01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:15 +0000
Subject: [PATCH 08/16] fix: accept break and continue at the very end of the
 input

Without a trailing newline or semicolon, the end of input was taken for a
label.
---
 src/state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/state.rs b/src/state.rs
index 48770bd..524836e 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -82,6 +82,6 @@ impl<I: Iterator<Item=char>> State for Parser<I> {
 
     fn has_arg_same_line(&mut self) -> Result<bool> {
         let next = self.peek()?;
-        Ok(!next.newline && next.value != TokenData::Semi && next.value != TokenData::RBrace)
+        Ok(!next.newline && next.value != TokenData::Semi && next.value != TokenData::RBrace && next.value != TokenData::EOF)
     }
 }
-- 
2.43.0


From 3fded9d7d4e6cf6f438b6438fe963f23d02d6dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:15 +0000
Subject: [PATCH 09/16] hook: let a simulator drive the parser over any
 character source

Off unless built with --cfg esprit_sim.
---
 src/lib.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index e6b8912..6dc25fc 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -49,3 +49,28 @@ pub fn module(s: &str) -> Result<Module> {
 pub fn program(s: &str) -> Result<Program> {
     Parser::from_chars(s.chars()).program()
 }
+
+/// Entry points for the deterministic simulator: the same parser, over an
+/// arbitrary (possibly faulty) character source instead of a string.
+#[cfg(esprit_sim)]
+pub mod sim {
+    use easter::stmt::{Script, Module};
+    use parser::{Parser, Program};
+    use result::Result;
+
+    pub fn script<I: Iterator<Item=char>>(chars: I) -> Result<Script> {
+        Parser::from_chars(chars).script(false)
+    }
+
+    pub fn strict<I: Iterator<Item=char>>(chars: I) -> Result<Script> {
+        Parser::from_chars(chars).script(true)
+    }
+
+    pub fn module<I: Iterator<Item=char>>(chars: I) -> Result<Module> {
+        Parser::from_chars(chars).module()
+    }
+
+    pub fn program<I: Iterator<Item=char>>(chars: I) -> Result<Program> {
+        Parser::from_chars(chars).program()
+    }
+}
-- 
2.43.0


From ad28b401d904b0496b371bf80b0cc2e6860421ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:32 +0000
Subject: [PATCH 10/16] fix: keep the position in step when the source unwinds
 after a carriage return

---
 crates/joker/src/reader.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/joker/src/reader.rs b/crates/joker/src/reader.rs
index 933dfaa..6300bdc 100644
--- a/crates/joker/src/reader.rs
+++ b/crates/joker/src/reader.rs
@@ -39,11 +39,13 @@ impl<I> Iterator for Reader<I> where I: Iterator<Item=char> {
     type Item = char;
 
     fn next(&mut self) -> Option<char> {
-        let curr_char = self.ahead.pop_front().or_else(|| {
-            self.chars.next()
-        });
+        // Pull everything the position depends on before consuming anything,
+        // so a source that unwinds leaves the buffer and the position in step.
+        let curr_char = self.peek(0);
+        let is_cr = curr_char == Some('\r') && self.peek(1) != Some('\n');
+        self.ahead.pop_front();
 
-        if (curr_char == Some('\r') && self.peek(0) != Some('\n')) ||
+        if is_cr ||
            curr_char == Some('\n') ||
            curr_char == Some('\u{2028}') ||
            curr_char == Some('\u{2029}') {
-- 
2.43.0


From 15429d729d0bfe2a74c5d3e2faf8ba5f3f453e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:36 +0000
Subject: [PATCH 11/16] fix: accept a rest element in an array assignment
 pattern

---
 crates/easter/src/cover.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/easter/src/cover.rs b/crates/easter/src/cover.rs
index 491e23a..89ef354 100644
--- a/crates/easter/src/cover.rs
+++ b/crates/easter/src/cover.rs
@@ -64,9 +64,9 @@ impl IntoAssignPatt for Expr {
                 let mut patts = Vec::with_capacity(exprs.len());
                 let mut rest = None;
                 if let Some(last) = exprs.pop() {
-                    if let Some(ExprListItem::Spread(None, expr)) = last {
+                    if let Some(ExprListItem::Spread(location, expr)) = last {
                         rest = Some(Box::new(RestPatt {
-                            location: None,
+                            location: location,
                             patt: expr.into_assign_patt()?
                         }));
                     } else {
-- 
2.43.0


From 53e812b4d2444340507701f63c4030731af4ac92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:36 +0000
Subject: [PATCH 12/16] fix: allow a comma expression as the object of for-in

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index b77867f..18b4643 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -922,7 +922,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
 
     // 'for' '(' head 'in' .
     fn more_for_in(&mut self, head: Box<ForInHead>) -> Result<Stmt> {
-        let obj = self.allow_in(true, |this| this.assignment_expression())?;
+        let obj = self.allow_in(true, |this| this.expression())?;
         self.expect(TokenData::RParen)?;
         let body = Box::new(self.iteration_body()?);
         Ok(Stmt::ForIn(None, head, obj, body))
-- 
2.43.0


From 27cb748b955cc22cb66bd936762942744e790218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:34 +0000
Subject: [PATCH 13/16] fix: a member access after the arguments of an inner
 new belongs to the callee of the outer

---
 src/parser.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 18b4643..6fbd5d9 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1374,23 +1374,22 @@ impl<I: Iterator<Item=char>> Parser<I> {
         self.primary_expression()
     }
 
-    // "new"+n . (MemberBaseExpression | "super" Deref) Deref* Arguments<n Suffix*
+    // "new"+n . (MemberBaseExpression | "super" Deref) Deref* (Arguments Deref*)<n Suffix*
     fn new_expression(&mut self, news: Vec<Token>) -> Result<Expr> {
         // ES6: if let Some(super) = self.match_token(TokenData::Reserved(Reserved::Super))? {
         let base = self.member_base_expression()?;
         self.more_new_expression(news, base)
     }
 
-    // "new"+n MemberBaseExpression . Deref* Arguments<n Suffix*
-    fn more_new_expression(&mut self, news: Vec<Token>, mut base: Expr) -> Result<Expr> {
-        while let Some(deref) = self.deref_opt()? {
-            base = deref.append_to(base);
-        }
+    // "new"+n MemberBaseExpression . Deref* (Arguments Deref*)<n Suffix*
+    fn more_new_expression(&mut self, news: Vec<Token>, base: Expr) -> Result<Expr> {
+        let mut base = self.more_derefs(base)?;
         let mut has_args = true;
         for new in news.into_iter().rev() {
             has_args = has_args && self.peek_op()?.value == TokenData::LParen;
             base = if has_args {
-                self.arguments()?.append_to_new(new, base)
+                let base = self.arguments()?.append_to_new(new, base);
+                self.more_derefs(base)?
             } else {
                 let location = span(&Some(new.location), &base);
                 Expr::New(location, Box::new(base), None)
@@ -1472,6 +1471,14 @@ impl<I: Iterator<Item=char>> Parser<I> {
         Ok(Deref::Dot(self.id_name()?))
     }
 
+    // MemberBaseExpression . Deref*
+    fn more_derefs(&mut self, mut result: Expr) -> Result<Expr> {
+        while let Some(deref) = self.deref_opt()? {
+            result = deref.append_to(result);
+        }
+        Ok(result)
+    }
+
     // MemberBaseExpression . Suffix*
     fn more_suffixes(&mut self, mut result: Expr) -> Result<Expr> {
         while let Some(suffix) = self.suffix_opt()? {
-- 
2.43.0


From e996ccde63b66273c072bcc02ba3404d6c459481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:01 +0000
Subject: [PATCH 14/16] fix: keep a line terminator seen before a failed scan
 for the next token's newline flag

---
 crates/joker/src/lexer.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/crates/joker/src/lexer.rs b/crates/joker/src/lexer.rs
index 611f3d5..e1ae9d4 100644
--- a/crates/joker/src/lexer.rs
+++ b/crates/joker/src/lexer.rs
@@ -9,6 +9,7 @@ use reader::Reader;
 use error::Error;
 use result::Result;
 use std::collections::VecDeque;
+use std::mem::replace;
 
 fn add_digits(digits: Vec<u32>, radix: u32) -> u32 {
     digits.iter().fold(0u32, |sum, digit| sum.saturating_mul(radix).saturating_add(*digit))
@@ -31,7 +32,8 @@ pub struct Lexer<I> {
     reader: Reader<I>,
     lookahead: VecDeque<Token>,
     wordmap: WordMap,
-    empty_line: bool
+    empty_line: bool,
+    found_newline: bool
 }
 
 impl<I> Lexer<I> where I: Iterator<Item=char> {
@@ -42,7 +44,8 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
             reader: Reader::new(chars),
             lookahead: VecDeque::with_capacity(2),
             wordmap: WordMap::new(),
-            empty_line: true
+            empty_line: true,
+            found_newline: false
         }
     }
 
@@ -229,6 +232,7 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
                 (Some(ch), Some(_)) => {
                     if ch.is_es_newline() {
                         found_newline = true;
+                        self.found_newline = true;
                     }
                     self.skip();
                 }
@@ -586,7 +590,6 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
 
     fn read_next_token(&mut self, operator: bool) -> Result<Token> {
         let mut pair;
-        let mut found_newline = false;
 
         // Skip whitespace and comments.
         loop {
@@ -594,14 +597,13 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
             match pair {
                 (Some(ch), _) if ch.is_es_whitespace() => { self.skip_whitespace(); }
                 (Some(ch), _) if ch.is_es_newline() => {
-                    self.skip_newlines();
-                    found_newline = true;
+                    self.found_newline = true;
                     self.empty_line = true;
+                    self.skip_newlines();
                 }
                 (Some('/'), Some('/')) => { self.skip_line_comment(2); }
                 (Some('/'), Some('*')) => {
                     if self.skip_block_comment()? {
-                        found_newline = true;
                         self.empty_line = true;
                     }
                 }
@@ -723,7 +725,7 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
                 Ok(Token::new(here, here, TokenData::EOF))
             }
         }?;
-        result.newline = found_newline;
+        result.newline = replace(&mut self.found_newline, false);
         Ok(result)
     }
 }
-- 
2.43.0


From 00ebc25852afcd2bd7cbe8f6fc8ba00417259f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:22 +0000
Subject: [PATCH 15/16] fix: recognise "use strict" by the text inside its
 quotes

---
 crates/easter/src/stmt.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/easter/src/stmt.rs b/crates/easter/src/stmt.rs
index c54c07e..4d97a7a 100644
--- a/crates/easter/src/stmt.rs
+++ b/crates/easter/src/stmt.rs
@@ -129,7 +129,8 @@ pub struct Dir {
 impl Dir {
     pub fn pragma(&self) -> &str {
         if let Some(ref source) = self.string.source {
-            source
+            // The source includes the quotes.
+            source.get(1..source.len().saturating_sub(1)).unwrap_or(source)
         } else {
             &self.string.value
         }
-- 
2.43.0


From 5255ae9db076fdea20653f8f460e267839f38674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:38 +0000
Subject: [PATCH 16/16] fix: an identifier written with escapes is the same
 name

Labels written with escapes were not found under their plain name (and the
other way round) when the name is one of the contextual keywords, and words
reserved in strict code were accepted there when written with an escape.
---
 src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 6fbd5d9..615b44f 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -571,6 +571,9 @@ impl<I: Iterator<Item=char>> Parser<I> {
     }
 
     fn new_id(&mut self, binding: bool, name: Name, location: Span) -> Result<Id> {
+        // Escapes keep a word from acting as a contextual keyword, but they
+        // do not make it a different name.
+        let name = Name::from(name.into_string());
         self.strict_check(|_| {
             if binding && name.is_illegal_strict_binding() {
                 return Some(Check::Strict(Error::IllegalStrictBinding(location, name.atom().unwrap())));
-- 
2.43.0

