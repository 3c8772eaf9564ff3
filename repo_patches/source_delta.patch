From dd517d3b169ddd7c31a9e5425793922b662a66e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 01/15] fix: do not accept a sign when parsing a redirect's
 source file descriptor

---
 src/parse.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 3c565d4..f102beb 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -719,9 +719,19 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
             }
         }
 
+        // File descriptors may only consist of digits, but `from_str_radix`
+        // would also accept a leading sign (e.g. the `+5` in `echo +5>file`)
+        fn parse_fd(s: &str) -> Option<u16> {
+            if s.chars().all(|c| c.is_digit(10)) {
+                u16::from_str_radix(s, 10).ok()
+            } else {
+                None
+            }
+        }
+
         fn as_num<C>(word: &ComplexWordKind<C>) -> Option<u16> {
             match *word {
-                Single(Simple(SimpleWordKind::Literal(ref s))) => u16::from_str_radix(s, 10).ok(),
+                Single(Simple(SimpleWordKind::Literal(ref s))) => parse_fd(s),
                 Single(_) => None,
                 Concat(ref fragments) => {
                     let mut buf = String::new();
@@ -733,7 +743,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                         }
                     }
 
-                    u16::from_str_radix(&buf, 10).ok()
+                    parse_fd(&buf)
                 }
             }
         }
-- 
2.43.0


From d482b2b5753bb5d5abdfad61b4610efa8e152a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 02/15] fix: <<- heredocs only strip leading tabs from each
 line

---
 src/parse.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index f102beb..3033194 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1011,7 +1011,8 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
             let mut line_start_pos = self.iter.pos();
             let mut line = Vec::new();
             'line: loop {
-                if strip_tabs {
+                // Only the tabs leading up to the line's contents should be stripped
+                if strip_tabs && line.is_empty() {
                     let skip_next = if let Some(&Whitespace(ref w)) = self.iter.peek() {
                         let stripped = w.trim_start_matches('\t');
                         let num_tabs = w.len() - stripped.len();
-- 
2.43.0


From 5e759bfc4c34cc3b3b9da65d6f8ae088f5a587d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 03/15] fix: keep comments found between a for variable and a
 semicolon

---
 src/parse.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 3033194..6dbc223 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2024,7 +2024,9 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
         } else if Some(&Semi) == self.iter.peek() {
             // `for name \n*;\n* do_group`
             eat!(self, { Semi => {} });
-            (None, self.linebreak())
+            let mut pre_body_comments = post_var_comments;
+            pre_body_comments.extend(self.linebreak());
+            (None, pre_body_comments)
         } else if self.peek_reserved_word(&[DO]).is_none() {
             // If we didn't find an `in` keyword, and we havent hit the body
             // (a `do` keyword), then we can reasonably say the script has
-- 
2.43.0


From e899f1f55678811593c0b69b770512623d9432ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 04/15] fix: report incomplete until commands as such

---
 src/parse.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 6dbc223..aabe60b 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1874,12 +1874,12 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
         &mut self,
     ) -> ParseResult<(builder::LoopKind, builder::GuardBodyPairGroup<B::Command>), B::Error> {
         let start_pos = self.iter.pos();
-        let kind = match self
+        let kw = self
             .reserved_word(&[WHILE, UNTIL])
-            .map_err(|_| self.make_unexpected_err())?
-        {
-            WHILE => builder::LoopKind::While,
-            UNTIL => builder::LoopKind::Until,
+            .map_err(|_| self.make_unexpected_err())?;
+        let (kind, kw) = match kw {
+            WHILE => (builder::LoopKind::While, WHILE),
+            UNTIL => (builder::LoopKind::Until, UNTIL),
             _ => unreachable!(),
         };
         let guard = self.command_group(CommandGroupDelimiters {
@@ -1895,7 +1895,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                 },
             )),
             None => Err(ParseError::IncompleteCmd(
-                WHILE,
+                kw,
                 start_pos,
                 DO,
                 self.iter.pos(),
-- 
2.43.0


From ce4fdc43f7c9e38fa58d378838da80636b8086ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 05/15] fix: account for peeked tokens in the lexer's size hint

---
 src/lexer.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index af7b2eb..6140474 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -259,8 +259,15 @@ impl<I: Iterator<Item = char>> Iterator for Lexer<I> {
         // number of characters processed, however, they can prepare
         // themselves for the worst possible case. A high estimate
         // is better than no estimate.
+        //
+        // Anything we have peeked but haven't yielded yet has already been
+        // taken out of the inner iterator and must be counted separately.
         let (_, hi) = self.inner.size_hint();
-        let low = if self.peeked.is_some() { 1 } else { 0 };
-        (low, hi)
+        let (low, peeked_hi) = match self.peeked {
+            Some(Escaped(Some(_))) => (2, 2),
+            Some(_) => (1, 1),
+            None => (0, 0),
+        };
+        (low, hi.and_then(|hi| hi.checked_add(peeked_hi)))
     }
 }
-- 
2.43.0


From dcb3b6492fabe3a02b18eace1bdc6b7b9de6dd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:46 +0000
Subject: [PATCH 06/15] fix: ignore quotes within a comment when looking for a
 heredoc's body

---
 src/parse.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index aabe60b..43cf83d 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -993,16 +993,29 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
         // we feed it).
         let saved_pos = self.iter.pos();
         let mut saved_tokens = Vec::new();
+        let mut at_word_start = true;
         while self.iter.peek().is_some() {
+            // Nothing within a comment is special, so any quotes or
+            // other delimeters found there need not be balanced
+            if at_word_start && self.iter.peek() == Some(&Pound) {
+                while self.iter.peek().is_some() && self.iter.peek() != Some(&Newline) {
+                    saved_tokens.push(self.iter.next().unwrap());
+                }
+            }
+
             // Make sure we save all tokens until the next UNQUOTED newilne
             if let Some(&Newline) = self.iter.peek() {
                 saved_tokens.push(self.iter.next().unwrap());
                 break;
             }
 
+            let chunk_start = saved_tokens.len();
             for t in self.iter.balanced() {
                 saved_tokens.push(try_map!(t));
             }
+
+            at_word_start = saved_tokens.len() == chunk_start + 1
+                && saved_tokens[chunk_start].is_word_delimiter();
         }
 
         let heredoc_start_pos = self.iter.pos();
-- 
2.43.0


From 1ad9c1f0e87fe2f32f869150624f3d6c877faaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:08 +0000
Subject: [PATCH 07/15] fix: keep the position of every token when rebuffering
 from a stream with removed characters

Backtick and heredoc capture rebuffered whole runs of tokens under a single
start position. When the stream being captured had itself lost characters
(nested backticks, heredocs inside backticks, tab stripped heredocs) every
later token of the run, and so any error raised on it, was misplaced.
---
 src/parse.rs      | 56 +++++++++++++++++++++++++++++++++--------------
 src/parse/iter.rs | 54 +++++++++++++++++++++++----------------------
 2 files changed, 68 insertions(+), 42 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 43cf83d..e70fe52 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -10,7 +10,9 @@ use std::iter::empty as empty_iter;
 use std::mem;
 use std::str::FromStr;
 
-use self::iter::{PeekableIterator, PositionIterator, TokenIter, TokenIterWrapper, TokenIterator};
+use self::iter::{
+    PeekableIterator, PositionIterator, TokenIter, TokenIterWrapper, TokenIterator, TokenOrPos,
+};
 use crate::ast::builder::ComplexWordKind::{self, Concat, Single};
 use crate::ast::builder::WordKind::{self, DoubleQuoted, Simple, SingleQuoted};
 use crate::ast::builder::{self, Builder, SimpleWordKind};
@@ -999,40 +1001,56 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
             // other delimeters found there need not be balanced
             if at_word_start && self.iter.peek() == Some(&Pound) {
                 while self.iter.peek().is_some() && self.iter.peek() != Some(&Newline) {
-                    saved_tokens.push(self.iter.next().unwrap());
+                    saved_tokens.push(TokenOrPos::Pos(self.iter.pos()));
+                    saved_tokens.push(TokenOrPos::Tok(self.iter.next().unwrap()));
                 }
             }
 
             // Make sure we save all tokens until the next UNQUOTED newilne
             if let Some(&Newline) = self.iter.peek() {
-                saved_tokens.push(self.iter.next().unwrap());
+                saved_tokens.push(TokenOrPos::Pos(self.iter.pos()));
+                saved_tokens.push(TokenOrPos::Tok(self.iter.next().unwrap()));
                 break;
             }
 
-            let chunk_start = saved_tokens.len();
-            for t in self.iter.balanced() {
-                saved_tokens.push(try_map!(t));
+            at_word_start = self.iter.peek().map_or(false, |t| t.is_word_delimiter());
+
+            let mut chunk_len = 0;
+            let mut chunk = self.iter.balanced();
+            loop {
+                let pos = chunk.pos();
+                match chunk.next() {
+                    Some(t) => {
+                        saved_tokens.push(TokenOrPos::Pos(pos));
+                        saved_tokens.push(TokenOrPos::Tok(try_map!(t)));
+                        chunk_len += 1;
+                    }
+                    None => break,
+                }
             }
 
-            at_word_start = saved_tokens.len() == chunk_start + 1
-                && saved_tokens[chunk_start].is_word_delimiter();
+            at_word_start &= chunk_len == 1;
         }
 
         let heredoc_start_pos = self.iter.pos();
         let mut heredoc = Vec::new();
         'heredoc: loop {
-            let mut line_start_pos = self.iter.pos();
             let mut line = Vec::new();
+            let mut line_with_pos = Vec::new();
             'line: loop {
                 // Only the tabs leading up to the line's contents should be stripped
                 if strip_tabs && line.is_empty() {
+                    let mut pos = self.iter.pos();
                     let skip_next = if let Some(&Whitespace(ref w)) = self.iter.peek() {
                         let stripped = w.trim_start_matches('\t');
                         let num_tabs = w.len() - stripped.len();
-                        line_start_pos.advance_tabs(num_tabs);
 
                         if !stripped.is_empty() {
-                            line.push(Whitespace(stripped.to_owned()));
+                            let stripped = Whitespace(stripped.to_owned());
+                            pos.advance_tabs(num_tabs);
+                            line_with_pos.push(TokenOrPos::Pos(pos));
+                            line_with_pos.push(TokenOrPos::Tok(stripped.clone()));
+                            line.push(stripped);
                         }
 
                         true
@@ -1045,6 +1063,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                     }
                 }
 
+                let pos = self.iter.pos();
                 let next = self.iter.next();
                 match next {
                     // If we haven't grabbed any input we must have hit EOF
@@ -1081,16 +1100,22 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                         }
 
                         if next == Some(Newline) {
+                            line_with_pos.push(TokenOrPos::Pos(pos));
+                            line_with_pos.push(TokenOrPos::Tok(Newline));
                             line.push(Newline);
                         }
                         break 'line;
                     }
 
-                    Some(t) => line.push(t),
+                    Some(t) => {
+                        line_with_pos.push(TokenOrPos::Pos(pos));
+                        line_with_pos.push(TokenOrPos::Tok(t.clone()));
+                        line.push(t);
+                    }
                 }
             }
 
-            heredoc.push((line, line_start_pos));
+            heredoc.push((line, line_with_pos));
         }
 
         self.iter
@@ -1101,9 +1126,8 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
             Single(Simple(SimpleWordKind::Literal(concat_tokens(&body))))
         } else {
             let mut tok_iter = TokenIter::with_position(empty_iter(), heredoc_start_pos);
-            while let Some((line, pos)) = heredoc.pop() {
-                tok_iter.buffer_tokens_to_yield_first(line, pos);
-            }
+            let body = heredoc.into_iter().flat_map(|(_, t)| t).collect::<Vec<_>>();
+            tok_iter.buffer_tokens_to_yield_first(body, heredoc_start_pos);
 
             let mut tok_backup = TokenIterWrapper::Buffered(tok_iter);
             mem::swap(&mut self.iter, &mut tok_backup);
diff --git a/src/parse/iter.rs b/src/parse/iter.rs
index e874b8d..bfa92bc 100644
--- a/src/parse/iter.rs
+++ b/src/parse/iter.rs
@@ -15,7 +15,7 @@ pub struct UnmatchedError(pub Token, pub SourcePos);
 /// An internal variant that indicates if a token should be yielded
 /// or the current position updated to some value.
 #[derive(Debug)]
-enum TokenOrPos {
+pub enum TokenOrPos {
     /// A consumed token which should be yielded.
     Tok(Token),
     /// The current position should be updated to the contained value.
@@ -277,13 +277,12 @@ impl<I: Iterator<Item = Token>> TokenIter<I> {
         self.updated_buffered_pos();
     }
 
-    /// Accepts a vector of tokens to be yielded completely before the inner
-    /// iterator is advanced further. The provided `buf_start` indicates
-    /// what the iterator's position should have been if we were to naturally
-    /// yield the provided buffer.
-    pub fn buffer_tokens_to_yield_first(&mut self, buf: Vec<Token>, buf_start: SourcePos) {
-        let tokens = buf.into_iter().map(TokenOrPos::Tok).collect();
-        self.buffer_tokens_and_positions_to_yield_first(tokens, Some(buf_start));
+    /// Accepts a vector of tokens (each optionally preceded by its position) to be
+    /// yielded completely before the inner iterator is advanced further. The provided
+    /// `buf_start` indicates what the iterator's position should have been if we were
+    /// to naturally yield the provided buffer.
+    pub fn buffer_tokens_to_yield_first(&mut self, buf: Vec<TokenOrPos>, buf_start: SourcePos) {
+        self.buffer_tokens_and_positions_to_yield_first(buf, Some(buf_start));
     }
 
     /// Collects all tokens yielded by `TokenIter::backticked_remove_backslashes`
@@ -407,7 +406,7 @@ impl<I: Iterator<Item = Token>> TokenIterWrapper<I> {
     }
 
     /// Delegates to `TokenIter::buffer_tokens_to_yield_first`.
-    pub fn buffer_tokens_to_yield_first(&mut self, buf: Vec<Token>, buf_start: SourcePos) {
+    pub fn buffer_tokens_to_yield_first(&mut self, buf: Vec<TokenOrPos>, buf_start: SourcePos) {
         match *self {
             TokenIterWrapper::Regular(ref mut inner) => {
                 inner.buffer_tokens_to_yield_first(buf, buf_start)
@@ -635,11 +634,13 @@ impl<I: PeekablePositionIterator<Item = Token>> BacktickBackslashRemover<I> {
     fn create_token_iter(
         mut iter: Balanced<I>,
     ) -> Result<TokenIter<std_iter::Empty<Token>>, UnmatchedError> {
-        let mut all_chunks = Vec::new();
-        let mut chunk_start = iter.pos();
-        let mut chunk = Vec::new();
+        // Any number of tokens may have already been removed from the underlying
+        // stream, so we must keep track of the position of each individual token.
+        let start_pos = iter.pos();
+        let mut buf = Vec::new();
 
         loop {
+            let pos = iter.pos();
             match iter.next() {
                 Some(Ok(Backslash)) => {
                     let next_pos = iter.pos();
@@ -647,33 +648,34 @@ impl<I: PeekablePositionIterator<Item = Token>> BacktickBackslashRemover<I> {
                         Some(Ok(tok @ Dollar))
                         | Some(Ok(tok @ Backtick))
                         | Some(Ok(tok @ Backslash)) => {
-                            all_chunks.push((chunk, chunk_start));
-                            chunk_start = next_pos;
-                            chunk = vec![tok];
+                            buf.push(TokenOrPos::Pos(next_pos));
+                            buf.push(TokenOrPos::Tok(tok));
                         }
 
                         Some(tok) => {
-                            chunk.push(Backslash);
-                            chunk.push(tok?);
+                            buf.push(TokenOrPos::Pos(pos));
+                            buf.push(TokenOrPos::Tok(Backslash));
+                            buf.push(TokenOrPos::Pos(next_pos));
+                            buf.push(TokenOrPos::Tok(tok?));
                         }
 
-                        None => chunk.push(Backslash),
+                        None => {
+                            buf.push(TokenOrPos::Pos(pos));
+                            buf.push(TokenOrPos::Tok(Backslash));
+                        }
                     }
                 }
 
-                Some(tok) => chunk.push(tok?),
+                Some(tok) => {
+                    buf.push(TokenOrPos::Pos(pos));
+                    buf.push(TokenOrPos::Tok(tok?));
+                }
                 None => break,
             }
         }
 
-        if !chunk.is_empty() {
-            all_chunks.push((chunk, chunk_start));
-        }
-
         let mut tok_iter = TokenIter::with_position(std_iter::empty(), iter.pos());
-        while let Some((chunk, chunk_end)) = all_chunks.pop() {
-            tok_iter.buffer_tokens_to_yield_first(chunk, chunk_end);
-        }
+        tok_iter.buffer_tokens_to_yield_first(buf, start_pos);
         Ok(tok_iter)
     }
 }
-- 
2.43.0


From 09613f5076937a7ce4e74e515cba3b8d69b74d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:51 +0000
Subject: [PATCH 08/15] hook: make the token stream module reachable under
 cfg(conch_verif)

---
 src/parse.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index e70fe52..aeae602 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -20,6 +20,11 @@ use crate::ast::{self, DefaultArithmetic, DefaultParameter};
 use crate::token::Token;
 use crate::token::Token::*;
 
+#[cfg(conch_verif)]
+#[allow(missing_copy_implementations, missing_debug_implementations, missing_docs)]
+#[doc(hidden)]
+pub mod iter;
+#[cfg(not(conch_verif))]
 mod iter;
 
 const CASE: &str = "case";
-- 
2.43.0


From cca34b8cddb45ed77aa05722a7e1157eda1d412e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:55 +0000
Subject: [PATCH 09/15] fix: heredoc body ending in a lone backslash at the end
 of input panicked

---
 src/parse.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index aeae602..5b5756d 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1374,7 +1374,9 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                         _ => false,
                     };
 
-                    if special || self.iter.peek() == delim_close.as_ref() {
+                    if special
+                        || (delim_close.is_some() && self.iter.peek() == delim_close.as_ref())
+                    {
                         store!(SimpleWordKind::Escaped(
                             self.iter.next().unwrap().to_string()
                         ))
-- 
2.43.0


From 736f72e40442eab6058b92be809e6db25acad423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:50 +0000
Subject: [PATCH 10/15] fix: count the tokens of a chunk of a heredoc's line in
 a usize

A chunk may hold more tokens than an i32 counts.
---
 src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 5b5756d..6a7e7f7 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1020,7 +1020,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
 
             at_word_start = self.iter.peek().map_or(false, |t| t.is_word_delimiter());
 
-            let mut chunk_len = 0;
+            let mut chunk_len = 0usize;
             let mut chunk = self.iter.balanced();
             loop {
                 let pos = chunk.pos();
-- 
2.43.0


From 5c9ff2dcf49841d5eb17d14f7307a5cb86244386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:32 +0000
Subject: [PATCH 11/15] fix: a second ! separated from the first by whitespace
 was taken for a command name

---
 src/parse.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parse.rs b/src/parse.rs
index 6a7e7f7..d349320 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -558,6 +558,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
         loop {
             // We've already passed an apropriate spot for !, so it
             // is an error if it appears before the start of a command.
+            self.skip_whitespace();
             if let Some(&Bang) = self.iter.peek() {
                 return Err(self.make_unexpected_err());
             }
-- 
2.43.0


From 1e2442ed7da69297f348ec0238644c40de66ee7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:40 +0000
Subject: [PATCH 12/15] fix: redirects after a `function name (subshell)` body
 were not attached to it

---
 src/parse.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index d349320..cfba306 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2331,7 +2331,8 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                     None
                 } else {
                     // Case like `function foo (subshell)`
-                    Some(self.builder.subshell(subshell, Vec::new())?)
+                    let io = self.redirect_list()?;
+                    Some(self.builder.subshell(subshell, io)?)
                 }
             } else {
                 None
-- 
2.43.0


From 9413a1b650af1ea7c669e6e4abbc5728e6b9d9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:48 +0000
Subject: [PATCH 13/15] fix: errors gave the position of the whitespace before
 a compound command's keyword

---
 src/parse.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index cfba306..de30b55 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1774,6 +1774,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
     /// reserved words. Each of the reserved words must be a literal token, and cannot be
     /// quoted or concatenated.
     pub fn do_group(&mut self) -> ParseResult<builder::CommandGroup<B::Command>, B::Error> {
+        self.skip_whitespace();
         let start_pos = self.iter.pos();
         self.reserved_word(&[DO])
             .map_err(|_| self.make_unexpected_err())?;
@@ -1791,6 +1792,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
     pub fn brace_group(&mut self) -> ParseResult<builder::CommandGroup<B::Command>, B::Error> {
         // CurlyClose must be encountered as a stand alone word,
         // even though it is represented as its own token
+        self.skip_whitespace();
         let start_pos = self.iter.pos();
         self.reserved_token(&[CurlyOpen])?;
         let cmds = self.command_group(CommandGroupDelimiters {
@@ -1918,6 +1920,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
     pub fn loop_command(
         &mut self,
     ) -> ParseResult<(builder::LoopKind, builder::GuardBodyPairGroup<B::Command>), B::Error> {
+        self.skip_whitespace();
         let start_pos = self.iter.pos();
         let kw = self
             .reserved_word(&[WHILE, UNTIL])
@@ -1954,6 +1957,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
     /// method returns the relevant parts of the `if` command, without constructing an
     /// AST node, it so that the caller can do so with redirections.
     pub fn if_command(&mut self) -> ParseResult<builder::IfFragments<B::Command>, B::Error> {
+        self.skip_whitespace();
         let start_pos = self.iter.pos();
         self.reserved_word(&[IF])
             .map_err(|_| self.make_unexpected_err())?;
@@ -2016,6 +2020,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
     pub fn for_command(
         &mut self,
     ) -> ParseResult<builder::ForFragments<B::Word, B::Command>, B::Error> {
+        self.skip_whitespace();
         let start_pos = self.iter.pos();
         self.reserved_word(&[FOR])
             .map_err(|_| self.make_unexpected_err())?;
@@ -2114,6 +2119,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
     pub fn case_command(
         &mut self,
     ) -> ParseResult<builder::CaseFragments<B::Word, B::Command>, B::Error> {
+        self.skip_whitespace();
         let start_pos = self.iter.pos();
 
         macro_rules! missing_in {
-- 
2.43.0


From 9acd82eaf9759bb7a185753d70eda5ade7cc46ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:23 +0000
Subject: [PATCH 14/15] fix: ${param:} was accepted and its colon dropped

---
 src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index de30b55..b09bac8 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1612,7 +1612,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
         let op = match self.iter.next() {
             Some(tok @ Dash) | Some(tok @ Equals) | Some(tok @ Question) | Some(tok @ Plus) => tok,
 
-            Some(CurlyClose) => return Ok(SimpleWordKind::Param(param)),
+            Some(CurlyClose) if !has_colon => return Ok(SimpleWordKind::Param(param)),
 
             Some(t) => return Err(ParseError::BadSubst(t, op_pos)),
             None => return Err(ParseError::Unmatched(CurlyOpen, curly_open_pos)),
-- 
2.43.0


From 5fefffc72f6a0e04ba411a772ed8c517a46a53a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:22 +0000
Subject: [PATCH 15/15] fix: a parenthesis within double quotes was taken as an
 opening one between backticks and next to heredocs

---
 src/parse/iter.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/parse/iter.rs b/src/parse/iter.rs
index bfa92bc..47d4982 100644
--- a/src/parse/iter.rs
+++ b/src/parse/iter.rs
@@ -446,6 +446,8 @@ pub struct Balanced<I> {
     escaped: Option<(Token, SourcePos)>,
     /// A stack of pending unmatched tokens we still must encounter.
     stack: Vec<(Token, SourcePos)>,
+    /// Indicates if the upcoming `(` is preceded by a `$`.
+    at_paren_subst: bool,
     /// Indicates if we should yield the final, outermost delimeter.
     skip_last_delimeter: bool,
     /// Makes the iterator *fused* by yielding None forever after we are done.
@@ -469,6 +471,7 @@ impl<I: PositionIterator> Balanced<I> {
             escaped: None,
             skip_last_delimeter: delim.is_some(),
             stack: delim.map_or(Vec::new(), |d| vec![d]),
+            at_paren_subst: false,
             done: false,
             pos: iter.pos(),
             iter,
@@ -554,7 +557,17 @@ impl<I: PeekablePositionIterator<Item = Token>> Iterator for Balanced<I> {
             }
 
             Some(ParenOpen) => {
-                self.stack.push((ParenClose, cur_pos));
+                // Just like ), a lone ( has no special meaning directly
+                // within " " or ${ }, unless it is a part of $( ).
+                let is_literal = match self.stack.last() {
+                    Some(&(DoubleQuote, _)) | Some(&(CurlyClose, _)) => !self.at_paren_subst,
+                    _ => false,
+                };
+
+                if !is_literal {
+                    self.stack.push((ParenClose, cur_pos));
+                }
+                self.at_paren_subst = false;
                 Some(Ok(ParenOpen))
             }
 
@@ -562,7 +575,7 @@ impl<I: PeekablePositionIterator<Item = Token>> Iterator for Balanced<I> {
                 let cur_pos = self.iter.pos(); // Want the pos of curly or paren, not $ here
                 match self.iter.peek() {
                     Some(&CurlyOpen) => self.stack.push((CurlyClose, cur_pos)),
-                    Some(&ParenOpen) => {} // Already handled by paren case above
+                    Some(&ParenOpen) => self.at_paren_subst = true, // Handled by paren case above
 
                     // We have nothing further to match
                     _ => {
-- 
2.43.0

