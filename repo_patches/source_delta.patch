From 7d966daaead7d24c7e360d49aebeca7dba6b6d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:49 +0000
Subject: [PATCH 01/65] fix: end the record at the newline after a quoted field

The whitespace skipping after a closing quote swallowed the record terminator
(and a whitespace separator), so the next record was merged into this one or
rejected.
---
 csvp/src/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/csvp/src/parser.rs b/csvp/src/parser.rs
index 7a67674..5c209d6 100644
--- a/csvp/src/parser.rs
+++ b/csvp/src/parser.rs
@@ -231,8 +231,9 @@ impl<'a> Parser<'a> {
     fn parse_rest_of_quoted_field(&mut self, fb: FieldBuilder) -> Result<FieldResult> {
         loop {
             match self.consume_char() {
-                Some(c) if c.is_whitespace() => continue,
                 Some(c) if self.is_field_separator(c) => return Ok(FieldResult::some(fb)),
+                Some(c) if is_record_terminator(c) => return Ok(FieldResult::last(fb)),
+                Some(c) if c.is_whitespace() => continue,
                 Some(c) => {
                     // it's not whitespace or a comma
                     return Err(self.parse_error(format!(
-- 
2.43.0


From e0a03d83fd5180ba0db9697c54cb8b2b08327144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:05 +0000
Subject: [PATCH 02/65] fix: do not swallow a whitespace field separator as
 padding

---
 csvp/src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/csvp/src/parser.rs b/csvp/src/parser.rs
index 5c209d6..01c2ff2 100644
--- a/csvp/src/parser.rs
+++ b/csvp/src/parser.rs
@@ -143,8 +143,8 @@ impl<'a> Parser<'a> {
     }
 
     fn consume_whitespace(&mut self) {
-        while let Some(c) = self.chars.peek() {
-            if !is_record_terminator(*c) && c.is_whitespace() {
+        while let Some(&c) = self.chars.peek() {
+            if !is_record_terminator(c) && !self.is_field_separator(c) && c.is_whitespace() {
                 self.consume_char();
             } else {
                 break;
-- 
2.43.0


From 34826de9c452da8f1d2b7a6c787bd508a9e5e810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:19 +0000
Subject: [PATCH 03/65] fix: parse fields iteratively so that long fields do
 not overflow the stack

---
 csvp/src/parser.rs | 99 +++++++++++++++++++---------------------------
 1 file changed, 40 insertions(+), 59 deletions(-)

diff --git a/csvp/src/parser.rs b/csvp/src/parser.rs
index 01c2ff2..2f6ddb7 100644
--- a/csvp/src/parser.rs
+++ b/csvp/src/parser.rs
@@ -153,75 +153,56 @@ impl<'a> Parser<'a> {
     }
 
     fn parse_field(&mut self, mut fb: FieldBuilder) -> Result<FieldResult> {
-        self.consume_whitespace();
-
-        match self.consume_char() {
-            Some(c) if self.is_field_separator(c) => Ok(FieldResult::some(fb)),
-            Some(c) if is_record_terminator(c) => Ok(FieldResult::last(fb)),
-            Some('\\') if self.next_is_newline() => {
-                // consume the newline then continue parsing this field
-                self.consume_char();
-                self.parse_field(fb)
-            }
-            // Some(c) if c.is_whitespace() => self.parse_field(fb),
-            Some('"') => Ok(self.parse_quoted_field(fb, false)?),
-            Some(c) => {
-                fb.push(c, &mut *self);
-                Ok(self.parse_unquoted_field(fb)?)
-            }
-            None => Ok(FieldResult::Eof),
+        loop {
+            self.consume_whitespace();
+
+            return match self.consume_char() {
+                Some(c) if self.is_field_separator(c) => Ok(FieldResult::some(fb)),
+                Some(c) if is_record_terminator(c) => Ok(FieldResult::last(fb)),
+                Some('\\') if self.next_is_newline() => {
+                    // consume the newline then continue parsing this field
+                    self.consume_char();
+                    continue;
+                }
+                Some('"') => self.parse_quoted_field(fb),
+                Some(c) => {
+                    fb.push(c, &mut *self);
+                    Ok(self.parse_unquoted_field(fb))
+                }
+                None => Ok(FieldResult::Eof),
+            };
         }
     }
 
-    fn parse_unquoted_field(&mut self, mut fb: FieldBuilder) -> Result<FieldResult> {
-        match self.consume_char() {
-            Some('\\') if self.next_is_newline() => {
-                // consume the newline then continue parsing this field
-                self.consume_char();
-                self.parse_unquoted_field(fb)
-            }
-            Some(c) if self.is_field_separator(c) => Ok(FieldResult::some(fb)),
-            Some(c) if is_record_terminator(c) => Ok(FieldResult::last(fb)),
-            Some(c) => {
-                fb.push(c, &mut *self);
-                self.parse_unquoted_field(fb)
+    fn parse_unquoted_field(&mut self, mut fb: FieldBuilder) -> FieldResult {
+        loop {
+            match self.consume_char() {
+                Some('\\') if self.next_is_newline() => {
+                    // consume the newline then continue parsing this field
+                    self.consume_char();
+                }
+                Some(c) if self.is_field_separator(c) => return FieldResult::some(fb),
+                Some(c) if is_record_terminator(c) => return FieldResult::last(fb),
+                Some(c) => fb.push(c, &mut *self),
+                None => return FieldResult::last(fb),
             }
-            None => Ok(FieldResult::last(fb)),
         }
     }
 
-    fn parse_quoted_field(
-        &mut self,
-        mut fb: FieldBuilder,
-        escape_mode: bool,
-    ) -> Result<FieldResult> {
-        let c = self.consume_char();
-        if escape_mode {
-            if let Some(c) = c {
-                fb.push(c, &mut *self);
-                return self.parse_quoted_field(fb, false);
-            }
-
-            return Err(self.parse_error("Expected a quoted character but got EOF"));
-        }
-
-        match c {
-            Some('"') => {
+    fn parse_quoted_field(&mut self, mut fb: FieldBuilder) -> Result<FieldResult> {
+        loop {
+            match self.consume_char() {
                 // is it two quotes in a row? if so it's a quoted quote
-                // TODO: or it could be a empty string? would we parse `foo,"",bar` correctly?
-                if let Some('"') = self.chars.peek() {
-                    self.parse_quoted_field(fb, true)
-                } else {
-                    // otherwise it's a terminating quote. we need to also make sure we consume any
-                    // trailing spaces and make sure there is a ','
-                    self.parse_rest_of_quoted_field(fb)
+                Some('"') if self.chars.peek() == Some(&'"') => {
+                    self.consume_char();
+                    fb.push('"', &mut *self);
                 }
+                // otherwise it's a terminating quote. we need to also make sure we consume any
+                // trailing spaces and make sure there is a ','
+                Some('"') => return self.parse_rest_of_quoted_field(fb),
+                Some(c) => fb.push(c, &mut *self),
+                None => return Ok(FieldResult::some(fb)),
             }
-            Some(c) => {
-                fb.push(c, &mut *self);
-                self.parse_quoted_field(fb, false)
-            }
-            None => Ok(FieldResult::some(fb)),
         }
     }
 
-- 
2.43.0


From cab3a4e6a99e22679c5324979b40bcda5adf2b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:42 +0000
Subject: [PATCH 04/65] fix: reject a quoted field which is never closed

It silently swallowed the rest of the file into one cell.
---
 csvp/src/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/csvp/src/parser.rs b/csvp/src/parser.rs
index 2f6ddb7..fc7d22a 100644
--- a/csvp/src/parser.rs
+++ b/csvp/src/parser.rs
@@ -201,7 +201,9 @@ impl<'a> Parser<'a> {
                 // trailing spaces and make sure there is a ','
                 Some('"') => return self.parse_rest_of_quoted_field(fb),
                 Some(c) => fb.push(c, &mut *self),
-                None => return Ok(FieldResult::some(fb)),
+                None => {
+                    return Err(self.parse_error("Expected a closing quote but got EOF"));
+                }
             }
         }
     }
-- 
2.43.0


From b6ae6fbfc84c7ce31294e8dbd3633fea0054b72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:18 +0000
Subject: [PATCH 05/65] fix: count columns from 0 on every line

Offsets were one too high on every line after the first (and the position of a
newline inside of a quoted field was on the next line).
---
 csvp/src/parser.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/csvp/src/parser.rs b/csvp/src/parser.rs
index fc7d22a..71964b3 100644
--- a/csvp/src/parser.rs
+++ b/csvp/src/parser.rs
@@ -26,6 +26,7 @@ pub struct Parser<'a> {
     chars: iter::Peekable<str::Chars<'a>>,
     source_line: usize,
     source_offset: isize,
+    saw_line_end: bool,
 }
 
 #[derive(Debug)]
@@ -74,6 +75,7 @@ impl<'a> Parser<'a> {
             source_line: 0,
             // -1 because we're going to increment as we consume characters
             source_offset: -1,
+            saw_line_end: false,
         }
     }
 
@@ -230,12 +232,14 @@ impl<'a> Parser<'a> {
 
     fn consume_char(&mut self) -> Option<char> {
         if let Some(c) = self.chars.next() {
-            if is_record_terminator(c) {
+            // a newline is the last character of it's line, so it's only once we move past it that
+            // we're on the next one
+            if self.saw_line_end {
                 self.source_line += 1;
-                self.source_offset = 0;
-            } else {
-                self.source_offset += 1;
+                self.source_offset = -1;
             }
+            self.source_offset += 1;
+            self.saw_line_end = is_record_terminator(c);
             Some(c)
         } else {
             None
-- 
2.43.0


From a97bcb3472481b85b8816375864e9d55e056606c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:57 +0000
Subject: [PATCH 06/65] fix: do not confuse bytes and characters when lexing
 cells

Multi-byte characters in cell options made the compiler panic, either on a
slice in the middle of a character or on a position outside of the field.
---
 src/parser/cell_lexer/mod.rs | 11 +++++++----
 src/parser/token_matcher.rs  |  3 ++-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/parser/cell_lexer/mod.rs b/src/parser/cell_lexer/mod.rs
index 0cc4725..9d0b1dd 100644
--- a/src/parser/cell_lexer/mod.rs
+++ b/src/parser/cell_lexer/mod.rs
@@ -280,7 +280,7 @@ impl<'a> CellLexer<'a> {
         for c in self.input.chars() {
             // due to escaping rules, we don't always put what we consume on `matched`.  so we need
             // to keep track of it separately
-            consumed += 1;
+            consumed += c.len_utf8();
 
             if start_quote {
                 if escape_mode {
@@ -339,9 +339,12 @@ impl<'a> CellLexer<'a> {
         self.cell_offset.saturating_sub(1)
     }
 
-    fn move_input(&mut self, amount: CharOffset) {
-        self.input = &self.input[amount..];
-        self.cell_offset += amount;
+    /// Move past `amount` bytes of the input.  `cell_offset` is in characters, just like the
+    /// positions that are stored on a `Field`
+    fn move_input(&mut self, amount: usize) {
+        let (consumed, rest) = self.input.split_at(amount);
+        self.input = rest;
+        self.cell_offset += consumed.chars().count();
     }
 
     fn replace_input(&mut self, new_input: &'a str, amount: CharOffset) {
diff --git a/src/parser/token_matcher.rs b/src/parser/token_matcher.rs
index a43b4f4..944ac75 100644
--- a/src/parser/token_matcher.rs
+++ b/src/parser/token_matcher.rs
@@ -16,7 +16,8 @@ fn whitespace_start(input: &str) -> usize {
     input
         .chars()
         .take_while(|ch| ch.is_whitespace() && *ch != '\n' && *ch != '\r')
-        .count()
+        .map(char::len_utf8)
+        .sum()
 }
 
 impl<T> TokenMatcher<T> {
-- 
2.43.0


From c35c532b84445e55746ad9b706ecd3ea1b2b09d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:57 +0000
Subject: [PATCH 07/65] fix: do not panic on a color with non-ASCII characters

---
 src/rgb/try_from.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rgb/try_from.rs b/src/rgb/try_from.rs
index 4967e8a..52b3b03 100644
--- a/src/rgb/try_from.rs
+++ b/src/rgb/try_from.rs
@@ -39,7 +39,7 @@ impl TryFrom<TokenMatch> for Rgb {
         let start_at = usize::from(str_match.starts_with('#'));
         let input_len = str_match.len() - start_at;
 
-        if input_len == 3 || input_len == 6 {
+        if str_match.is_ascii() && (input_len == 3 || input_len == 6) {
             let (r, g, b) = parse_str(&str_match[start_at..])
                 .map_err(|e| input.into_parse_error(format!("Error parsing hex string: {e}")))?;
             Ok(Rgb::new(r, g, b))
-- 
2.43.0


From d94dbb2cb224b6d8f947632380a15aa1c65f65be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:09 +0000
Subject: [PATCH 08/65] fix: do not panic when shortening unrecognized
 non-ASCII input

---
 src/parser/ast_lexer/unknown_token.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/parser/ast_lexer/unknown_token.rs b/src/parser/ast_lexer/unknown_token.rs
index 9adb416..3ac3ea2 100644
--- a/src/parser/ast_lexer/unknown_token.rs
+++ b/src/parser/ast_lexer/unknown_token.rs
@@ -13,8 +13,7 @@ pub(crate) struct UnknownToken {
 
 impl fmt::Display for UnknownToken {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        let mut shortened_bad_input = self.bad_input.clone();
-        shortened_bad_input.truncate(50);
+        let shortened_bad_input: String = self.bad_input.chars().take(50).collect();
         write!(f, "{shortened_bad_input}")
     }
 }
-- 
2.43.0


From 1a220d1753396c90366b609add26aecf1e166aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:03 +0000
Subject: [PATCH 09/65] fix: report the position of syntax errors in formulas

It did not account for any options in front of the formula, for multi-byte
characters nor for tokens which span lines.
---
 src/parser/ast_lexer/mod.rs | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/parser/ast_lexer/mod.rs b/src/parser/ast_lexer/mod.rs
index 50b6aac..f1e6f4e 100644
--- a/src/parser/ast_lexer/mod.rs
+++ b/src/parser/ast_lexer/mod.rs
@@ -60,7 +60,14 @@ impl<'a> AstLexer<'a> {
     ) -> ParseResult<AstLexer<'a>> {
         let token_library = TokenLibrary::library();
         let mut line_number = 0;
-        let mut line_offset = 0;
+        // a formula is at the end of it's field (following any options) and offsets into a field
+        // are in characters and continue across lines
+        let mut line_offset = field.as_ref().map_or(0, |f| {
+            f.value
+                .chars()
+                .count()
+                .saturating_sub(input.chars().count())
+        });
 
         let mut tokens: Vec<TokenMatch> = vec![];
         let mut p = if let Some(input) = input.strip_prefix('=') {
@@ -77,30 +84,37 @@ impl<'a> AstLexer<'a> {
                 let token = token_matcher.0;
 
                 if let Some(m) = token_matcher.try_match(p) {
-                    if token == Token::Newline {
-                        // just count the newline but don't store it on `tokens`
-                        line_number += 1;
-                    } else if token != Token::Comment {
+                    let (full_match, rest) = p.split_at(m.len_full_match);
+                    let leading_whitespace = &full_match[..m.len_leading_whitespace];
+
+                    if token != Token::Newline && token != Token::Comment {
                         // we'll want to consume everything except for comments and newlines (no point
                         // in the parsing logic needing to consider them)
                         tokens.push(TokenMatch {
                             token,
                             str_match: m.str_match,
-                            position: (line_offset + m.len_leading_whitespace, line_number).into(),
+                            position: (
+                                line_offset + leading_whitespace.chars().count(),
+                                line_number,
+                            )
+                                .into(),
                             field: field.clone(),
                             source_code: source_code.clone(),
                         });
                     }
 
-                    if token == Token::Newline {
+                    // any token can span lines (strings for example)
+                    line_number += full_match.matches('\n').count();
+
+                    if let (None, Some((_, last_line))) = (&field, full_match.rsplit_once('\n')) {
                         // move line_offset back to the beginning
-                        line_offset = 0;
+                        line_offset = last_line.chars().count();
                     } else {
-                        line_offset += m.len_full_match;
+                        line_offset += full_match.chars().count();
                     }
 
                     // move the input past the match
-                    p = &p[m.len_full_match..];
+                    p = rest;
                     matched = true;
 
                     break;
-- 
2.43.0


From 795d6192f64e91810ab3ecfa260e145dad9867c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:29 +0000
Subject: [PATCH 10/65] fix: only lex whole words as keywords

Identifiers starting with `use`, `true` or `false` could not be used.
---
 src/parser/ast_lexer/token_library.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/ast_lexer/token_library.rs b/src/parser/ast_lexer/token_library.rs
index 68659f4..1cb4d4e 100644
--- a/src/parser/ast_lexer/token_library.rs
+++ b/src/parser/ast_lexer/token_library.rs
@@ -37,8 +37,8 @@ impl TokenLibrary {
         static TOKEN_LIBRARY: sync::OnceLock<TokenLibrary> = sync::OnceLock::new();
 
         TOKEN_LIBRARY.get_or_init(|| Self {
-            boolean_true: TokenMatcher::new(r"true", Token::Boolean),
-            boolean_false: TokenMatcher::new(r"false", Token::Boolean),
+            boolean_true: TokenMatcher::new(r"true\b", Token::Boolean),
+            boolean_false: TokenMatcher::new(r"false\b", Token::Boolean),
             comma: TokenMatcher::new(r",", Token::Comma),
             comment: TokenMatcher::new(r"(?m)#.*", Token::Comment),
             code_section_eof: TokenMatcher::new(r"---", Token::CodeSectionEof),
@@ -54,7 +54,7 @@ impl TokenLibrary {
             newline: TokenMatcher::new(r"\n", Token::Newline),
             open_paren: TokenMatcher::new(r"\(", Token::OpenParen),
             reference: TokenMatcher::new(r"[$!\w:]+[$!\w:.]?", Token::Reference),
-            use_module: TokenMatcher::new(r"use", Token::UseModule),
+            use_module: TokenMatcher::new(r"use\b", Token::UseModule),
             var_assign: TokenMatcher::new(r":=", Token::VarAssign),
         })
     }
-- 
2.43.0


From 334f4613a59efc6ef74a4967e0cad730923f9bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:56 +0000
Subject: [PATCH 11/65] fix: reject trailing input after a formula

Everything following the first expression was silently dropped from the
compiled spreadsheet.
---
 src/parser/ast_parser.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parser/ast_parser.rs b/src/parser/ast_parser.rs
index 0959cf4..11152fe 100644
--- a/src/parser/ast_parser.rs
+++ b/src/parser/ast_parser.rs
@@ -53,7 +53,14 @@ impl<'a> AstParser<'a> {
         field: Option<Field>,
         source_code: ArcSourceCode,
     ) -> ParseResult<Ast> {
-        AstParser::new(&AstLexer::new(input, field, source_code)?, single_expr).expr_bp(0)
+        let lexer = AstLexer::new(input, field, source_code)?;
+        let ast = AstParser::new(&lexer, single_expr).expr_bp(0)?;
+
+        let next = lexer.next();
+        match next.token {
+            Token::Eof => Ok(ast),
+            _ => Err(next.into_parse_error("Expected the end of the expression")),
+        }
     }
 
     /// Parse `input` from the command line, specified as a simple key/value string like
-- 
2.43.0


From 517bb90e330687ace737a5e00de8338d9b487392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:43 +0000
Subject: [PATCH 12/65] fix: combine consecutive prefix signs instead of
 dropping one of them

---
 src/parser/ast_parser.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/parser/ast_parser.rs b/src/parser/ast_parser.rs
index 11152fe..09707f5 100644
--- a/src/parser/ast_parser.rs
+++ b/src/parser/ast_parser.rs
@@ -127,28 +127,35 @@ impl<'a> AstParser<'a> {
                     return Err(lhs_token.into_parse_error("Invalid prefix operator"));
                 };
 
-                let sign = if op == "+" {
-                    NumberSign::Positive
-                } else {
-                    NumberSign::Negative
+                // consecutive signs cancel each other out (`--1` is `+1`)
+                let with_sign = |sign: Option<NumberSign>| {
+                    Some(match (op, sign) {
+                        ("+", Some(s)) => s,
+                        ("+", None) | ("-", Some(NumberSign::Negative)) => NumberSign::Positive,
+                        _ => NumberSign::Negative,
+                    })
                 };
 
                 let rhs = self.expr_bp(r_bp)?;
                 match *rhs {
                     Node::Integer {
-                        percentage, value, ..
+                        percentage,
+                        sign,
+                        value,
                     } => Node::Integer {
                         percentage,
-                        sign: Some(sign),
+                        sign: with_sign(sign),
                         value,
                     }
                     .into(),
 
                     Node::Float {
-                        percentage, value, ..
+                        percentage,
+                        sign,
+                        value,
                     } => Node::Float {
                         percentage,
-                        sign: Some(sign),
+                        sign: with_sign(sign),
                         value,
                     }
                     .into(),
-- 
2.43.0


From c1ad8b60ad9203e92133d72ee15f681c669120e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:55 +0000
Subject: [PATCH 13/65] fix: reject a second `%` rather than dropping it

---
 src/parser/ast_parser.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/parser/ast_parser.rs b/src/parser/ast_parser.rs
index 09707f5..8ce240d 100644
--- a/src/parser/ast_parser.rs
+++ b/src/parser/ast_parser.rs
@@ -229,14 +229,22 @@ impl<'a> AstParser<'a> {
                     Node::FunctionCall { name: id, args }.into()
                 } else if op == "%" {
                     match *lhs {
-                        Node::Float { sign, value, .. } => Node::Float {
+                        Node::Float {
+                            percentage: false,
+                            sign,
+                            value,
+                        } => Node::Float {
                             percentage: true,
                             sign,
                             value,
                         }
                         .into(),
 
-                        Node::Integer { sign, value, .. } => Node::Integer {
+                        Node::Integer {
+                            percentage: false,
+                            sign,
+                            value,
+                        } => Node::Integer {
                             percentage: true,
                             sign,
                             value,
-- 
2.43.0


From b84df76c0f23c4f25b81b79d60b2a3001445050f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:45 +0000
Subject: [PATCH 14/65] fix: keep omitted function arguments in their place

`IF(A1,,5)` was compiled to `IF(A1, 5)`.
---
 src/parser/ast_parser.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/parser/ast_parser.rs b/src/parser/ast_parser.rs
index 8ce240d..04ae7cb 100644
--- a/src/parser/ast_parser.rs
+++ b/src/parser/ast_parser.rs
@@ -213,16 +213,23 @@ impl<'a> AstParser<'a> {
                     let mut args = vec![];
 
                     // consume arguments (expressions) until we see a close paren
-                    loop {
-                        match self.lexer.peek().token {
-                            Token::CloseParen => {
-                                self.lexer.next();
-                                break;
+                    if self.lexer.peek().token == Token::CloseParen {
+                        self.lexer.next();
+                    } else {
+                        loop {
+                            args.push(match self.lexer.peek().token {
+                                // the argument was left out - keep it's place because the position
+                                // of the ones following it matters
+                                Token::Comma | Token::CloseParen => Node::reference("").into(),
+                                _ => self.expr_bp(0)?,
+                            });
+
+                            let t = self.lexer.next();
+                            match t.token {
+                                Token::CloseParen => break,
+                                Token::Comma => (),
+                                _ => return Err(t.into_parse_error("Expected an expression")),
                             }
-                            Token::Comma => {
-                                self.lexer.next();
-                            }
-                            _ => args.push(self.expr_bp(0)?),
                         }
                     }
 
-- 
2.43.0


From bf2a84c62ece8267692176cf2f90826d36bbec96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:14 +0000
Subject: [PATCH 15/65] fix: report the expected and received argument counts
 the right way around

---
 src/ast/eval.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ast/eval.rs b/src/ast/eval.rs
index 2c6bfc7..7234062 100644
--- a/src/ast/eval.rs
+++ b/src/ast/eval.rs
@@ -115,8 +115,8 @@ impl Ast {
                                 fn_ast.to_string(),
                                 format!(
                                     "Expected {} arguments but received {}",
-                                    args.len(),
-                                    resolved_args.len()
+                                    resolved_args.len(),
+                                    args.len()
                                 ),
                             ));
                         }
-- 
2.43.0


From 08d6e46ef47464f7cc0103d0da98806e7c28c374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:28 +0000
Subject: [PATCH 16/65] fix: expand calls nested in the arguments of a call to
 the same function

---
 src/ast/eval.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/ast/eval.rs b/src/ast/eval.rs
index 7234062..029e5e6 100644
--- a/src/ast/eval.rs
+++ b/src/ast/eval.rs
@@ -121,10 +121,15 @@ impl Ast {
                             ));
                         }
 
+                        // the arguments themselves can contain calls
+                        let called_args = args
+                            .into_iter()
+                            .map(|arg| arg.call_function(fn_id, fn_ast))
+                            .collect::<EvalResult<Vec<_>>>()?;
+
                         let mut evaled_body = body;
-                        for (i, resolved_arg) in resolved_args.iter().enumerate() {
-                            evaled_body =
-                                evaled_body.replace_variable(resolved_arg, args[i].clone());
+                        for (resolved_arg, called_arg) in resolved_args.iter().zip(called_args) {
+                            evaled_body = evaled_body.replace_variable(resolved_arg, called_arg);
                         }
 
                         evaled_body
-- 
2.43.0


From 0e2a8de7061e41e17c941c819e0cc2beb944aeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:54 +0000
Subject: [PATCH 17/65] fix: substitute all of the arguments of a call at once

An argument referencing the name of another parameter was replaced again by
that parameter's argument.
---
 src/ast/eval.rs | 37 ++++++++++++++++---------------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/src/ast/eval.rs b/src/ast/eval.rs
index 029e5e6..376bda6 100644
--- a/src/ast/eval.rs
+++ b/src/ast/eval.rs
@@ -77,12 +77,7 @@ impl Ast {
     /// Use the mapping in `variable_values` to replace each variable referenced in the AST with
     /// it's given replacement.
     fn eval_variables(&self, variable_values: Variables) -> Self {
-        let mut evaled_ast = self.clone();
-        for (var_id, replacement) in variable_values {
-            evaled_ast = evaled_ast.replace_variable(&var_id, replacement);
-        }
-
-        evaled_ast
+        self.replace_variables(&variable_values)
     }
 
     /// Do a depth-first-search on the AST, "calling" the function wherever we see a
@@ -127,12 +122,7 @@ impl Ast {
                             .map(|arg| arg.call_function(fn_id, fn_ast))
                             .collect::<EvalResult<Vec<_>>>()?;
 
-                        let mut evaled_body = body;
-                        for (resolved_arg, called_arg) in resolved_args.iter().zip(called_args) {
-                            evaled_body = evaled_body.replace_variable(resolved_arg, called_arg);
-                        }
-
-                        evaled_body
+                        body.replace_variables(&resolved_args.into_iter().zip(called_args).collect())
                     }
 
                     // otherwise the function resolved to a non-function.  just treat that as
@@ -182,8 +172,10 @@ impl Ast {
         })
     }
 
-    /// Depth-first-search replacing `Node::Reference`s of `var_id` with `replacement`.
-    fn replace_variable(&self, var_id: &str, replacement: Self) -> Self {
+    /// Depth-first-search replacing `Node::Reference`s with their `replacements`.  They have to be
+    /// replaced all at once because a replacement can itself contain references that are named the
+    /// same as something we're replacing.
+    fn replace_variables(&self, replacements: &Variables) -> Self {
         let inner = (**self).clone();
         Ast::new(match inner {
             Node::FunctionCall { args, name } => {
@@ -191,7 +183,7 @@ impl Ast {
                     // recursively call for each arg to a function
                     args: args
                         .into_iter()
-                        .map(|a| a.replace_variable(var_id, replacement.clone()))
+                        .map(|a| a.replace_variables(replacements))
                         .collect(),
                     name,
                 }
@@ -200,7 +192,7 @@ impl Ast {
             Node::Function { args, body, name } => Node::Function {
                 name,
                 args,
-                body: body.replace_variable(var_id, replacement.clone()),
+                body: body.replace_variables(replacements),
             },
 
             Node::InfixFunctionCall {
@@ -208,20 +200,23 @@ impl Ast {
                 operator,
                 right,
             } => Node::InfixFunctionCall {
-                left: left.replace_variable(var_id, replacement.clone()),
+                left: left.replace_variables(replacements),
                 operator,
-                right: right.replace_variable(var_id, replacement.clone()),
+                right: right.replace_variables(replacements),
             },
 
-            // a reference matching our variable - take the replacement
-            Node::Reference(r) if var_id == r => replacement.into_inner(),
+            // a reference matching one of our variables - take the replacement
+            Node::Reference(ref r) => match replacements.get(r) {
+                Some(replacement) => replacement.clone().into_inner(),
+                None => inner,
+            },
 
             Node::Variable {
                 value: VariableValue::Ast(ast),
                 name,
             } => Node::Variable {
                 name,
-                value: VariableValue::Ast(ast.replace_variable(var_id, replacement.clone())),
+                value: VariableValue::Ast(ast.replace_variables(replacements)),
             },
 
             // otherwise keep the Node unmodified
-- 
2.43.0


From 6d33dcd607e58117f1ebf9fe201b8329ace5de54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:05 +0000
Subject: [PATCH 18/65] fix: do not replace function parameters by module
 variables

When a module is imported the bodies of it's functions are evaluated, where any
parameter named like a variable of the module was replaced by it's value.
---
 src/ast/eval.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/ast/eval.rs b/src/ast/eval.rs
index 376bda6..aeaac51 100644
--- a/src/ast/eval.rs
+++ b/src/ast/eval.rs
@@ -189,11 +189,17 @@ impl Ast {
                 }
             }
 
-            Node::Function { args, body, name } => Node::Function {
-                name,
-                args,
-                body: body.replace_variables(replacements),
-            },
+            // within the body a parameter shadows any variable with the same name
+            Node::Function { args, body, name } => {
+                let mut unshadowed = replacements.clone();
+                unshadowed.retain(|var_id, _| !args.contains(var_id));
+
+                Node::Function {
+                    name,
+                    args,
+                    body: body.replace_variables(&unshadowed),
+                }
+            }
 
             Node::InfixFunctionCall {
                 left,
-- 
2.43.0


From 0e7abb74df8d8c018591576831fd7abd728cb7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 19/65] fix: report circular definitions instead of expanding
 them forever

---
 src/ast/eval.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/ast/eval.rs b/src/ast/eval.rs
index aeaac51..64ce4ba 100644
--- a/src/ast/eval.rs
+++ b/src/ast/eval.rs
@@ -14,6 +14,8 @@ impl Ast {
     pub(crate) fn eval(self, scope: &Scope, position: Option<a1::Address>) -> EvalResult<Self> {
         let mut evaled_ast = self;
         let mut last_round_refs = AstReferences::default();
+        let mut seen_refs = collections::BTreeSet::new();
+        let mut rounds = 0;
 
         loop {
             let refs = evaled_ast.extract_references(scope);
@@ -22,6 +24,18 @@ impl Ast {
             }
             last_round_refs = refs.clone();
 
+            // each round gets rid of at least one definition for good (the ones that no other
+            // definition that we're left with refers to), unless they refer to each other
+            seen_refs.extend(refs.functions.iter().map(|f| format!("{f}()")));
+            seen_refs.extend(refs.variables.iter().cloned());
+            rounds += 1;
+            if rounds > seen_refs.len() {
+                return Err(EvalError::new(
+                    seen_refs.into_iter().collect::<Vec<_>>().join(", "),
+                    "Circular definition of functions or variables",
+                ));
+            }
+
             evaled_ast = evaled_ast
                 .eval_variables(Self::resolve_variables(
                     scope,
-- 
2.43.0


From b3d693e7c9b6ad35ec5cc057b848c0c1d2106dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:59 +0000
Subject: [PATCH 20/65] fix: do not reuse object code which is out of date

Cached object code was used although a dependency had changed, although other
variables were given on the command line, with --no-cache, for another role
(main module or dependency) than it was written for, and when it was written by
an older version.
---
 src/compiler/mod.rs      |  13 +++-
 src/module/mod.rs        | 145 +++++++++++++++++++++------------------
 src/module_loader/mod.rs | 115 +++++++++++++------------------
 3 files changed, 135 insertions(+), 138 deletions(-)

diff --git a/src/compiler/mod.rs b/src/compiler/mod.rs
index d4b6ac4..2feed6e 100644
--- a/src/compiler/mod.rs
+++ b/src/compiler/mod.rs
@@ -44,8 +44,15 @@ impl Compiler {
         let main_module_path: ModulePath =
             path::Path::new(main_filename).to_path_buf().try_into()?;
 
-        let main_module =
-            Module::load_from_cache_from_filename(main_module_path, self.input_filename.clone())?;
+        // what we'd cache depends on the variables given on the command line, so only use it when
+        // there are none
+        let use_main_cache = self.config.use_cache && self.config.key_values.is_empty();
+
+        let main_module = if use_main_cache {
+            Module::load_from_cache_from_filename(main_module_path, self.input_filename.clone())?
+        } else {
+            Module::load_from_source_from_filename(main_module_path, self.input_filename.clone())?
+        };
 
         debug!("Loading dependencies for {}", &main_module.module_path);
         let mut main_module =
@@ -56,7 +63,7 @@ impl Compiler {
             main_module = self.eval(main_module)?;
             main_module.needs_eval = false;
 
-            if self.config.use_cache {
+            if use_main_cache {
                 debug!(
                     "Writing object file {:?}",
                     main_module.source_code.object_code_filename()
diff --git a/src/module/mod.rs b/src/module/mod.rs
index 5d9d807..5a91222 100644
--- a/src/module/mod.rs
+++ b/src/module/mod.rs
@@ -15,7 +15,7 @@ use crate::{
 };
 use log::{debug, error, info, warn};
 use rayon::prelude::*;
-use std::{cmp, fs, path};
+use std::{fs, io, path, time};
 
 mod display;
 
@@ -66,40 +66,51 @@ impl Module {
         })
     }
 
-    fn load_from_object_code<P: AsRef<path::Path>>(
-        module_path: ModulePath,
-        relative_to: &ModulePath,
-        loader_root: P,
-    ) -> Option<Self> {
-        let filename = loader_root
-            .as_ref()
-            .join(module_path.filename_relative_to(relative_to));
-        Self::load_from_object_code_from_filename(filename)
-    }
-
-    fn load_from_object_code_from_filename(mut filename: path::PathBuf) -> Option<Self> {
-        filename.set_extension("csvpo");
-
-        if !filename.exists() {
-            return None;
+    /// Load the previously compiled object code for the source file `filename`, as long as it is
+    /// usable in place of that file.  `as_main` says which role the module has: the object code of
+    /// a main module is fully evaluated whereas that of a dependency only has an evaluated scope.
+    /// So one can't be used as the other.
+    fn load_from_object_code_from_filename(
+        filename: &path::Path,
+        as_main: bool,
+    ) -> Result<Option<Self>> {
+        let object_code_filename = filename.with_extension("csvpo");
+
+        if !object_code_filename.exists() {
+            return Ok(None);
         }
 
-        let obj_file_reader = match fs::File::open(&filename) {
+        let obj_file_reader = match fs::File::open(&object_code_filename) {
             Ok(r) => r,
             Err(e) => compiler_error(format!("Error opening object code: {e}")),
         };
 
-        let Ok(loaded_module) = bincode::deserialize_from(obj_file_reader) else {
+        let Ok(mut loaded_module) =
+            bincode::deserialize_from::<_, Self>(io::BufReader::new(obj_file_reader))
+        else {
             // if we fail to load the old object file just warn about it and move on.  for whatever
             // reason (written by an old version) it's not compatible with our current version
             warn!(
                 "Error loading object code from {}.  Was it written with an old version of csv++?",
-                filename.display()
+                object_code_filename.display()
             );
-            return None;
+            return Ok(None);
         };
 
-        Some(loaded_module)
+        if loaded_module.needs_eval
+            || loaded_module.source_code.filename != filename
+            || loaded_module.spreadsheet.fills_expanded != as_main
+        {
+            return Ok(None);
+        }
+
+        loaded_module.check_if_is_dirty()?;
+
+        Ok(if loaded_module.is_dirty {
+            None
+        } else {
+            Some(loaded_module)
+        })
     }
 
     // TODO: I would love to cut down on all these load_from_* functions
@@ -148,18 +159,10 @@ impl Module {
         module_path: ModulePath,
         filename: path::PathBuf,
     ) -> Result<Self> {
-        if let Some(mut loaded_module) = Self::load_from_object_code_from_filename(filename.clone())
-        {
-            loaded_module.check_if_is_dirty()?;
-
-            // if we have a clean cache read we can just return that, otherwise we'll need to
-            // reload below
-            if !loaded_module.is_dirty {
-                return Ok(loaded_module);
-            }
+        match Self::load_from_object_code_from_filename(&filename, true)? {
+            Some(loaded_module) => Ok(loaded_module),
+            None => Self::load_from_source_from_filename(module_path, filename),
         }
-
-        Self::load_from_source_from_filename(module_path, filename)
     }
 
     pub(crate) fn load_from_cache<P: AsRef<path::Path>>(
@@ -167,17 +170,13 @@ impl Module {
         relative_to: &ModulePath,
         loader_root: P,
     ) -> Result<Self> {
-        if let Some(mut loaded_module) =
-            Self::load_from_object_code(module_path.clone(), relative_to, &loader_root)
-        {
-            loaded_module.check_if_is_dirty()?;
-            Ok(loaded_module)
-        } else {
-            Self::load_from_source_relative(
-                module_path,
-                relative_to,
-                loader_root.as_ref().to_path_buf().clone(),
-            )
+        let filename = loader_root
+            .as_ref()
+            .join(module_path.clone().filename_relative_to(relative_to));
+
+        match Self::load_from_object_code_from_filename(&filename, false)? {
+            Some(loaded_module) => Ok(loaded_module),
+            None => Self::load_from_source_from_filename(module_path, filename),
         }
     }
 
@@ -212,25 +211,12 @@ impl Module {
     /// * `Error::SourceCodeError` - if unable to stat the source code file
     /// * `Error::SourceCodeError` - if unable to stat the cached object code file
     pub fn check_if_is_dirty(&mut self) -> Result<()> {
-        let object_code_filename = self.source_code.object_code_filename();
-
-        let obj_file_modified = fs::metadata(&object_code_filename)
-            .and_then(|s| s.modified())
-            .map_err(|e| Error::SourceCodeError {
-                filename: object_code_filename,
-                message: format!("Unable to stat object code: {e}"),
-            })?;
-
-        let source_file_modified = fs::metadata(&self.source_code.filename)
-            .and_then(|s| s.modified())
-            .map_err(|e| Error::SourceCodeError {
-                filename: self.source_code.filename.clone(),
-                message: format!("Unable to stat source code: {e}"),
-            })?;
+        let obj_file_modified = self.object_code_modified()?;
+        let source_file_modified = self.source_code_modified()?;
 
         // is the object code more recent than the source? (i.e., no changes since it was last
         // written)
-        if source_file_modified > obj_file_modified {
+        if source_file_modified >= obj_file_modified {
             self.is_dirty = true;
             self.needs_eval = true;
             return Ok(());
@@ -252,15 +238,42 @@ impl Module {
             )),
         };
 
-        // if the version is less than ours, don't use it and recompile instead.  otherwise we can
-        // trust that it's ok to use
-        self.is_dirty = match this_version.cmp(&loaded_version) {
-            cmp::Ordering::Equal | cmp::Ordering::Greater => false,
-            cmp::Ordering::Less => true,
-        };
+        // if the version is not ours, don't use it and recompile instead.  otherwise we can trust
+        // that it's ok to use
+        self.is_dirty = this_version != loaded_version;
 
         Ok(())
     }
+
+    /// When was the object code for this module last written?
+    ///
+    /// # Errors
+    ///
+    /// * `Error::SourceCodeError` - if unable to stat the cached object code file
+    pub(crate) fn object_code_modified(&self) -> Result<time::SystemTime> {
+        let object_code_filename = self.source_code.object_code_filename();
+
+        fs::metadata(&object_code_filename)
+            .and_then(|s| s.modified())
+            .map_err(|e| Error::SourceCodeError {
+                filename: object_code_filename,
+                message: format!("Unable to stat object code: {e}"),
+            })
+    }
+
+    /// When was the source code of this module last changed?
+    ///
+    /// # Errors
+    ///
+    /// * `Error::SourceCodeError` - if unable to stat the source code file
+    pub(crate) fn source_code_modified(&self) -> Result<time::SystemTime> {
+        fs::metadata(&self.source_code.filename)
+            .and_then(|s| s.modified())
+            .map_err(|e| Error::SourceCodeError {
+                filename: self.source_code.filename.clone(),
+                message: format!("Unable to stat source code: {e}"),
+            })
+    }
 }
 
 #[cfg(test)]
diff --git a/src/module_loader/mod.rs b/src/module_loader/mod.rs
index dcdf549..5bcfdb3 100644
--- a/src/module_loader/mod.rs
+++ b/src/module_loader/mod.rs
@@ -28,7 +28,6 @@ pub(super) struct ModuleLoader {
     loaded: Loaded,
     loader_root: path::PathBuf,
     main_module: Module,
-    is_dirty: bool,
     use_cache: bool,
 }
 
@@ -64,30 +63,13 @@ impl ModuleLoader {
             loaded: sync::Arc::default(),
             main_module,
             loader_root: relative_to.into(),
-            is_dirty: false,
             use_cache,
         };
-        let mut were_any_deps_dirty = false;
-
-        // we need to do this in a loop because every time we reload dirty dependencies we're
-        // pulling in changes to the source code, which could mean the author added a new `use ...`
-        // in which case we need to load it
-        loop {
-            module_loader.load(&module_loader.main_module)?;
-            module_loader = module_loader.propagate_dirty_flag()?;
-            if module_loader.is_dirty {
-                were_any_deps_dirty = true;
-                module_loader.reload_dirty_modules()?;
-            } else {
-                break;
-            }
-        }
 
+        module_loader.load(&module_loader.main_module)?;
+        module_loader.reload_stale_modules()?;
         module_loader.eval_dependencies()?;
-
-        let mut main = module_loader.merge_direct_dependencies()?;
-        main.is_dirty = were_any_deps_dirty;
-        Ok(main)
+        module_loader.merge_direct_dependencies()
     }
 
     /// Returns only the direct dependencies for this module graph.  For example if our Module A
@@ -157,68 +139,61 @@ impl ModuleLoader {
         dep_graph
     }
 
-    fn dirty_nodes(&self) -> collections::HashSet<ModulePath> {
-        let loaded = self.loaded.read().unwrap();
-        let dep_graph = self.load_dependency_graph();
+    /// Object code has what its module uses from its dependencies compiled into it.  So if any of
+    /// the (direct or indirect) dependencies has changed since it was written, it can't be used.
+    fn is_stale(&self, module: &Module) -> Result<bool> {
+        if module.needs_eval {
+            // it was loaded from the source
+            return Ok(false);
+        }
+
+        let loaded = self.loaded.read()?;
+        let object_code_modified = module.object_code_modified()?;
 
-        let mut dirty_nodes: collections::HashSet<ModulePath> = collections::HashSet::default();
-        for node in dep_graph.node_indices().collect::<Vec<_>>() {
-            let Some(module) = loaded.get(&dep_graph[node]) else {
+        let mut seen = collections::HashSet::new();
+        let mut to_check = module.required_modules.iter().collect::<Vec<_>>();
+        while let Some(module_path) = to_check.pop() {
+            let Some(dependency) = loaded.get(module_path) else {
                 continue;
             };
 
-            if module.is_dirty {
-                for graph_path in algo::simple_paths::all_simple_paths::<Vec<_>, _>(
-                    &dep_graph,
-                    // just assume that the main module is at index 0
-                    graph::NodeIndex::new(0),
-                    node,
-                    1,
-                    None,
-                ) {
-                    for n in graph_path {
-                        dirty_nodes.insert(dep_graph[n].clone());
-                    }
-                }
+            if !seen.insert(module_path) {
+                continue;
             }
+
+            if dependency.source_code_modified()? >= object_code_modified {
+                return Ok(true);
+            }
+            to_check.extend(&dependency.required_modules);
         }
 
-        dirty_nodes
+        Ok(false)
     }
 
-    fn propagate_dirty_flag(self) -> Result<Self> {
-        let dirty_nodes = self.dirty_nodes();
-        let mut loaded = sync::Arc::try_unwrap(self.loaded)
-            .expect("Unable to access loaded")
-            .into_inner()?;
-
-        let is_dirty = !dirty_nodes.is_empty();
+    /// Any modules which came from object code that can't be used have to be compiled again.  Their
+    /// own source code hasn't changed, so the modules they require have already been loaded.
+    fn reload_stale_modules(&mut self) -> Result<()> {
+        let reload = |module: &Module| {
+            Module::load_from_source_from_filename(
+                module.module_path.clone(),
+                module.source_code.filename.clone(),
+            )
+        };
 
-        for mp in dirty_nodes {
-            if let Some(n) = loaded.get_mut(&mp) {
-                n.is_dirty = true;
+        let mut reloaded = vec![];
+        for module in self.loaded.read()?.values() {
+            if self.is_stale(module)? {
+                reloaded.push(reload(module)?);
             }
         }
 
-        Ok(Self {
-            loaded: sync::Arc::new(sync::RwLock::new(loaded)),
-            is_dirty,
-            ..self
-        })
-    }
+        if self.is_stale(&self.main_module)? {
+            self.main_module = reload(&self.main_module)?;
+        }
 
-    fn reload_dirty_modules(&mut self) -> Result<()> {
-        let loaded = self.loaded.read().unwrap();
-        for (mp, module) in loaded.iter() {
-            if module.is_dirty {
-                self.loaded.write()?.insert(
-                    mp.clone(),
-                    Module::load_from_source_from_filename(
-                        mp.clone(),
-                        module.source_code.filename.clone(),
-                    )?,
-                );
-            }
+        let mut loaded = self.loaded.write()?;
+        for module in reloaded {
+            loaded.insert(module.module_path.clone(), module);
         }
 
         Ok(())
@@ -266,6 +241,8 @@ impl ModuleLoader {
             eval_ast!(to_resolve.scope, variables, to_resolve.source_code);
             eval_ast!(to_resolve.scope, functions, to_resolve.source_code);
 
+            to_resolve.needs_eval = false;
+
             // now that we've evaled it that's the last step, write the csvpo file
             if self.use_cache {
                 to_resolve.write_object_file()?;
-- 
2.43.0


From 6279d38d7a44f3965790414a7740dcfa27c4ce94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:53 +0000
Subject: [PATCH 21/65] fix: report modules which can't be loaded and allow
 using a module twice

Missing indirect dependencies and repeated use statements made the compiler
panic.
---
 src/module_loader/mod.rs | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/module_loader/mod.rs b/src/module_loader/mod.rs
index 5bcfdb3..b50dc3c 100644
--- a/src/module_loader/mod.rs
+++ b/src/module_loader/mod.rs
@@ -67,6 +67,14 @@ impl ModuleLoader {
         };
 
         module_loader.load(&module_loader.main_module)?;
+        if module_loader.has_failures() {
+            return Err(Error::ModuleLoadErrors(
+                sync::Arc::try_unwrap(module_loader.failed)
+                    .expect("Unable to access failed")
+                    .into_inner()?,
+            ));
+        }
+
         module_loader.reload_stale_modules()?;
         module_loader.eval_dependencies()?;
         module_loader.merge_direct_dependencies()
@@ -76,24 +84,20 @@ impl ModuleLoader {
     /// requires Module B which in turn requires Module C, we will only get vars & functions from
     /// Module B, not from Module C (or any other indirect dependencies)
     fn merge_direct_dependencies(self) -> Result<Module> {
-        if self.has_failures() {
-            Err(Error::ModuleLoadErrors(
-                sync::Arc::try_unwrap(self.failed)
-                    .expect("Unable to access failed")
-                    .into_inner()?,
-            ))
-        } else {
-            let mut loaded = self.loaded.write()?;
-            let mut main_module = self.main_module;
+        let loaded = self.loaded.read()?;
+        let mut main_module = self.main_module;
 
-            for req_path in &main_module.required_modules {
-                main_module
-                    .scope
-                    .merge(&loaded.remove(req_path).unwrap().scope);
-            }
+        for req_path in &main_module.required_modules {
+            let Some(dependency) = loaded.get(req_path) else {
+                compiler_error(format!(
+                    "Expected dependent module to have been loaded: {req_path}"
+                ))
+            };
 
-            Ok(main_module)
+            main_module.scope.merge(&dependency.scope);
         }
+
+        Ok(main_module)
     }
 
     fn load_dependency_graph(&self) -> graph::Graph<ModulePath, ()> {
-- 
2.43.0


From 58b6e7f3b1aa6093291f083d20886837ae29af83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:50 +0000
Subject: [PATCH 22/65] fix: expand the calls which the functions of a
 dependency make

The functions that a dependency itself imports aren't visible to the module
using it, so calls to them have to be expanded in the dependency.
---
 src/ast/eval.rs          |  8 ++++++++
 src/module_loader/mod.rs | 31 +++++++++++++++++++++++++++----
 2 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/src/ast/eval.rs b/src/ast/eval.rs
index 64ce4ba..9514ea2 100644
--- a/src/ast/eval.rs
+++ b/src/ast/eval.rs
@@ -181,6 +181,14 @@ impl Ast {
             }
             .into(),
 
+            // the body of a function can call other functions
+            Node::Function { args, body, name } => Node::Function {
+                name,
+                args,
+                body: body.call_function(fn_id, fn_ast)?,
+            }
+            .into(),
+
             // otherwise just don't modify it
             _ => inner.clone().into(),
         })
diff --git a/src/module_loader/mod.rs b/src/module_loader/mod.rs
index b50dc3c..ba63e20 100644
--- a/src/module_loader/mod.rs
+++ b/src/module_loader/mod.rs
@@ -33,11 +33,11 @@ pub(super) struct ModuleLoader {
 
 // TODO: ideally this shouldn't take a $source_code and the calling part does the map_err
 macro_rules! eval_ast {
-    ($scope:expr, $functions_or_variables:ident, $source_code:expr) => {{
+    ($scope:expr, $functions_or_variables:ident, $eval_in:expr, $source_code:expr) => {{
         for (name, ast) in $scope.$functions_or_variables.clone().into_iter() {
             $scope.$functions_or_variables.insert(
                 name,
-                ast.eval(&$scope, None)
+                ast.eval($eval_in, None)
                     .map_err(|e| $source_code.eval_error(e, None))?,
             );
         }
@@ -242,8 +242,31 @@ impl ModuleLoader {
                 to_resolve.scope.merge(dep_scope);
             }
 
-            eval_ast!(to_resolve.scope, variables, to_resolve.source_code);
-            eval_ast!(to_resolve.scope, functions, to_resolve.source_code);
+            eval_ast!(
+                to_resolve.scope,
+                variables,
+                &to_resolve.scope,
+                to_resolve.source_code
+            );
+
+            // resolve the variables in all of the functions before expanding any of the calls they
+            // make.  Otherwise a variable could end up in a function with a parameter of that name
+            let only_variables = Scope {
+                functions: collections::HashMap::default(),
+                ..to_resolve.scope.clone()
+            };
+            eval_ast!(
+                to_resolve.scope,
+                functions,
+                &only_variables,
+                to_resolve.source_code
+            );
+            eval_ast!(
+                to_resolve.scope,
+                functions,
+                &to_resolve.scope,
+                to_resolve.source_code
+            );
 
             to_resolve.needs_eval = false;
 
-- 
2.43.0


From 30701dbe684cf2b46df9eed22fc3e840277474d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:02 +0000
Subject: [PATCH 23/65] fix: allow use statements after a definition

---
 src/parser/ast_parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/ast_parser.rs b/src/parser/ast_parser.rs
index 04ae7cb..b4faef2 100644
--- a/src/parser/ast_parser.rs
+++ b/src/parser/ast_parser.rs
@@ -175,9 +175,9 @@ impl<'a> AstParser<'a> {
 
             if self.single_expr {
                 // in the case where we're just looking for a single expr, we can terminate
-                // iteration when we see a reference (beginning of `foo := ...`) or `fn`.
+                // iteration when we see a reference (beginning of `foo := ...`), `fn` or `use`.
                 match op_token.token {
-                    Token::Reference | Token::FunctionDefinition => break,
+                    Token::Reference | Token::FunctionDefinition | Token::UseModule => break,
                     // otherwise do nothing and the next match statement will do it's thing
                     // (regardless of the `single_expr` context)
                     _ => (),
-- 
2.43.0


From 0dd1c3ce002cdb9114482a74869316b7bff2458e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:31 +0000
Subject: [PATCH 24/65] fix: end the range of a fill without an amount at its
 last row

---
 src/spreadsheet/mod.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/spreadsheet/mod.rs b/src/spreadsheet/mod.rs
index e308216..7c58f2c 100644
--- a/src/spreadsheet/mod.rs
+++ b/src/spreadsheet/mod.rs
@@ -1,7 +1,7 @@
 //! # Spreadsheet
 //!
 use crate::ast::{Ast, Node, VariableValue, Variables};
-use crate::cell_options::ROW_MAX;
+use crate::cell_options::{Fill, ROW_MAX};
 use crate::{ArcSourceCode, Error, EvalError, EvalResult, Result, Row};
 use log::trace;
 use serde::{Deserialize, Serialize};
@@ -39,8 +39,12 @@ impl Spreadsheet {
 
         for row in self.rows {
             if let Some(f) = row.fill {
-                let new_fill = f.clone_to_row(row_num);
-                let fill_amount = new_fill.amount.unwrap_or(rows_left_over);
+                // from here on we know how far a fill without an amount goes
+                let fill_amount = f.amount.unwrap_or(rows_left_over);
+                let new_fill = Fill {
+                    amount: Some(fill_amount),
+                    ..f.clone_to_row(row_num)
+                };
 
                 for _ in 0..fill_amount {
                     rows.push(Row {
-- 
2.43.0


From 2cc19ce332cd8f3fd8afc122f7c2eb2a814ff365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:01 +0000
Subject: [PATCH 25/65] fix: do not end the range of a fill before its last row

---
 src/cell_options/fill/mod.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cell_options/fill/mod.rs b/src/cell_options/fill/mod.rs
index c9468da..a9be384 100644
--- a/src/cell_options/fill/mod.rs
+++ b/src/cell_options/fill/mod.rs
@@ -2,7 +2,6 @@
 //!
 use a1::Row;
 use serde::{Deserialize, Serialize};
-use std::cmp;
 
 mod into;
 
@@ -26,7 +25,7 @@ impl Fill {
     #[must_use]
     pub(crate) fn end_row(&self) -> Row {
         if let Some(a) = self.amount {
-            cmp::min(self.start_row.y + a, ROW_MAX).into()
+            (self.start_row.y + a).into()
         } else {
             ROW_MAX.into()
         }
-- 
2.43.0


From 497084dc5907e7c4e550ced7f99bd59a7e2f354a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:20 +0000
Subject: [PATCH 26/65] fix: keep existing CSV values next to and below the
 ones being written

---
 src/target/csv/compilation_target.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/target/csv/compilation_target.rs b/src/target/csv/compilation_target.rs
index f60b960..77d2b5b 100644
--- a/src/target/csv/compilation_target.rs
+++ b/src/target/csv/compilation_target.rs
@@ -1,5 +1,6 @@
 use crate::target::{file_backer_upper, merge_rows, CompilationTarget, Csv, MergeResult};
 use crate::{Module, Result};
+use std::cmp;
 
 impl CompilationTarget for Csv<'_> {
     fn write_backup(&self) -> Result<()> {
@@ -10,7 +11,15 @@ impl CompilationTarget for Csv<'_> {
     fn write(&self, module: &Module) -> Result<()> {
         let existing_values = Self::read(&self.path, &self.compiler.output)?;
 
-        let widest_row = module.spreadsheet.widest_row();
+        let module_rows = &module.spreadsheet.rows;
+
+        // the existing values might have more rows or columns than what we're writing
+        let total_rows = cmp::max(module_rows.len(), existing_values.cells.len());
+        let widest_row = existing_values
+            .cells
+            .iter()
+            .map(Vec::len)
+            .fold(module.spreadsheet.widest_row(), cmp::max);
 
         let mut writer = csv::WriterBuilder::new()
             .flexible(true)
@@ -20,13 +29,13 @@ impl CompilationTarget for Csv<'_> {
                     .output_error(format!("Unable to open output file for writing: {e:?}"))
             })?;
 
-        for (index, row) in module.spreadsheet.rows.iter().enumerate() {
+        for index in 0..total_rows {
             let mut output_row: Vec<String> = merge_rows(
                 existing_values
                     .cells
                     .get(index)
                     .unwrap_or(&vec![].to_owned()),
-                &row.cells,
+                module_rows.get(index).map_or(&[], |row| &row.cells),
                 &self.compiler.config,
             )
             .iter()
-- 
2.43.0


From 210829a0fa9ff80c8703a8e0a278a8ace8941da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:14 +0000
Subject: [PATCH 27/65] fix: write the color of borders to Excel

---
 src/target/excel/excel_cell.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/target/excel/excel_cell.rs b/src/target/excel/excel_cell.rs
index 819b5bd..a4fbdb5 100644
--- a/src/target/excel/excel_cell.rs
+++ b/src/target/excel/excel_cell.rs
@@ -111,7 +111,10 @@ impl<'a> ExcelCell<'a> {
             return;
         }
 
-        let border_style: umya_spreadsheet::Border = self.0.border_style.into();
+        let mut border_style: umya_spreadsheet::Border = self.0.border_style.into();
+        if let Some(c) = self.0.border_color.clone() {
+            border_style.set_color(c.into());
+        }
 
         let b = s.get_borders_mut();
         if self.0.side_has_border(BorderSide::Left) {
-- 
2.43.0


From a53bcc9490541776d7d903517ec8f51acd2a7d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:26 +0000
Subject: [PATCH 28/65] fix: attach notes to their own cell in Excel

---
 src/target/excel/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/target/excel/mod.rs b/src/target/excel/mod.rs
index 7f354fb..2a59159 100644
--- a/src/target/excel/mod.rs
+++ b/src/target/excel/mod.rs
@@ -104,8 +104,13 @@ impl<'a> Excel<'a> {
         rt.set_text(note);
 
         let coord = comment.get_coordinate_mut();
-        coord.set_col_num(u32::try_from(position.column.x).expect("32 bit coordinate for comment"));
-        coord.set_row_num(u32::try_from(position.row.y).expect("32 bit coordinate for comment"));
+        // the coordinates of a comment start from 1, ours from 0
+        coord.set_col_num(
+            u32::try_from(position.column.x + 1).expect("32 bit coordinate for comment"),
+        );
+        coord.set_row_num(
+            u32::try_from(position.row.y + 1).expect("32 bit coordinate for comment"),
+        );
 
         worksheet.add_comments(comment);
     }
-- 
2.43.0


From 74dbe1146b3632392db7fb41f6113aca34827e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:39 +0000
Subject: [PATCH 29/65] fix: replace the note of an Excel cell instead of
 adding another

---
 src/target/excel/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/target/excel/mod.rs b/src/target/excel/mod.rs
index 2a59159..d87decc 100644
--- a/src/target/excel/mod.rs
+++ b/src/target/excel/mod.rs
@@ -112,6 +112,11 @@ impl<'a> Excel<'a> {
             u32::try_from(position.row.y + 1).expect("32 bit coordinate for comment"),
         );
 
+        // a cell can only have one comment
+        let address = comment.get_coordinate().to_string();
+        worksheet
+            .get_comments_mut()
+            .retain(|c| c.get_coordinate().to_string() != address);
         worksheet.add_comments(comment);
     }
 
-- 
2.43.0


From 0e68d467cee6e5e7a697cf8823f319bc90862ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:51 +0000
Subject: [PATCH 30/65] fix: keep the data validations of the Excel cells which
 are not written

---
 src/target/excel/mod.rs | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/target/excel/mod.rs b/src/target/excel/mod.rs
index d87decc..d3576dd 100644
--- a/src/target/excel/mod.rs
+++ b/src/target/excel/mod.rs
@@ -5,7 +5,7 @@
 use super::{merge_cell, ExistingCell, MergeResult};
 use crate::ast::Node;
 use crate::{Cell, Compiler, Module, Result};
-use std::{ffi, path};
+use std::{collections, ffi, path};
 use umya_spreadsheet as u;
 
 mod cell_validation;
@@ -42,6 +42,7 @@ impl<'a> Excel<'a> {
     /// depending on the merge strategy).
     fn build_worksheet(&self, module: &Module, worksheet: &mut u::Worksheet) {
         let mut cell_validations = Vec::with_capacity(module.spreadsheet.rows.len());
+        let mut written = collections::HashSet::new();
 
         for (row_index, row) in module.spreadsheet.rows.iter().enumerate() {
             for (cell_index, cell) in row.cells.iter().enumerate() {
@@ -60,6 +61,7 @@ impl<'a> Excel<'a> {
 
                     // build a new value
                     MergeResult::New(cell) => {
+                        written.insert(position.to_string());
                         let e = worksheet.get_cell_mut(position.to_string());
 
                         Self::set_value(e, &cell);
@@ -78,21 +80,29 @@ impl<'a> Excel<'a> {
             }
         }
 
-        Self::set_data_validations(worksheet, cell_validations);
+        Self::set_data_validations(worksheet, &written, cell_validations);
     }
 
-    fn set_data_validations(worksheet: &mut u::Worksheet, cell_validations: Vec<CellValidation>) {
-        let mut validations = u::DataValidations::default();
-        if cell_validations.is_empty() {
+    /// Set the validations of the cells that we've written, keeping the ones which the other cells
+    /// of the worksheet already have.
+    fn set_data_validations(
+        worksheet: &mut u::Worksheet,
+        written: &collections::HashSet<String>,
+        cell_validations: Vec<CellValidation>,
+    ) {
+        let mut validation_list = worksheet
+            .get_data_validations()
+            .map_or_else(Vec::new, |v| v.get_data_validation_list().clone());
+        validation_list.retain(|v| !written.contains(&v.get_sequence_of_references().get_sqref()));
+        validation_list.extend(cell_validations.into_iter().map(std::convert::Into::into));
+
+        if validation_list.is_empty() {
+            worksheet.remove_data_validations();
             return;
         }
 
-        validations.set_data_validation_list(
-            cell_validations
-                .into_iter()
-                .map(std::convert::Into::into)
-                .collect(),
-        );
+        let mut validations = u::DataValidations::default();
+        validations.set_data_validation_list(validation_list);
         worksheet.set_data_validations(validations);
     }
 
-- 
2.43.0


From a3144999e45187a57005b3bb6aadfb8ce99195bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:13 +0000
Subject: [PATCH 31/65] fix: keep all of the file name in the name of a backup

---
 src/target/file_backer_upper.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/target/file_backer_upper.rs b/src/target/file_backer_upper.rs
index 543dbed..d7fdc95 100644
--- a/src/target/file_backer_upper.rs
+++ b/src/target/file_backer_upper.rs
@@ -49,8 +49,12 @@ pub(crate) fn backup_file<P: AsRef<path::Path>>(
         let timestamp = now.format(time_format);
 
         let mut new_file = file_parent.to_path_buf();
-        new_file.push(format!("{}-{timestamp}", file_stem.to_str().unwrap()));
-        new_file.set_extension(file_extension);
+        // note that `set_extension` would replace everything after a `.` in the name
+        new_file.push(format!(
+            "{}-{timestamp}.{}",
+            file_stem.to_str().unwrap(),
+            file_extension.to_str().unwrap()
+        ));
 
         if new_file.exists() {
             continue;
-- 
2.43.0


From 586e82b7a18161205db85d6372b36ea709705580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:35 +0000
Subject: [PATCH 32/65] fix: report errors in the command line arguments

---
 src/compiler/try_from.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/compiler/try_from.rs b/src/compiler/try_from.rs
index 3a66aa4..d3059b1 100644
--- a/src/compiler/try_from.rs
+++ b/src/compiler/try_from.rs
@@ -7,6 +7,11 @@ impl TryFrom<&CliArgs> for Compiler {
     type Error = crate::Error;
 
     fn try_from(cli_args: &CliArgs) -> std::result::Result<Self, Self::Error> {
+        // errors are reported via the logger, so it has to be set up before there can be any
+        logger::init(
+            logger::u8_into_level_filter(cli_args.verbose).unwrap_or(log::LevelFilter::Error),
+        );
+
         let config = Config {
             key_values: AstParser::parse_key_value_str(
                 &cli_args.key_values,
@@ -15,8 +20,6 @@ impl TryFrom<&CliArgs> for Compiler {
             ..Config::try_from(cli_args)?
         };
 
-        logger::init(config.verbosity);
-
         let compiler = Self {
             config,
             output: Output::try_from(cli_args)?,
-- 
2.43.0


From 39d6ef276bbb7fa71eaa2d83da8e3f7072f263e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:47 +0000
Subject: [PATCH 33/65] fix: report an error rather than panic for the
 unsupported .ods output

---
 src/target/open_document/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/target/open_document/mod.rs b/src/target/open_document/mod.rs
index 58b389d..dac9d42 100644
--- a/src/target/open_document/mod.rs
+++ b/src/target/open_document/mod.rs
@@ -19,7 +19,9 @@ impl CompilationTarget for OpenDocument<'_> {
     }
 
     fn write(&self, _module: &Module) -> Result<()> {
-        todo!()
+        Err(self
+            .compiler
+            .output_error("Writing .ods files is not supported yet"))
     }
 }
 
-- 
2.43.0


From aab3a4a57f01c9bae8444bfe95a33ecd37bf74b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:44 +0000
Subject: [PATCH 34/65] fix: allow dots anywhere within the name of a function

Functions like STDEV.S or NORM.DIST couldn't be called.
---
 src/parser/ast_lexer/token_library.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/ast_lexer/token_library.rs b/src/parser/ast_lexer/token_library.rs
index 1cb4d4e..b90121a 100644
--- a/src/parser/ast_lexer/token_library.rs
+++ b/src/parser/ast_lexer/token_library.rs
@@ -53,7 +53,7 @@ impl TokenLibrary {
             fn_def: TokenMatcher::new(r"fn\s+", Token::FunctionDefinition),
             newline: TokenMatcher::new(r"\n", Token::Newline),
             open_paren: TokenMatcher::new(r"\(", Token::OpenParen),
-            reference: TokenMatcher::new(r"[$!\w:]+[$!\w:.]?", Token::Reference),
+            reference: TokenMatcher::new(r"[$!\w:][$!\w:.]*", Token::Reference),
             use_module: TokenMatcher::new(r"use\b", Token::UseModule),
             var_assign: TokenMatcher::new(r":=", Token::VarAssign),
         })
-- 
2.43.0


From 71c3f8989f8bf1129e9c6917e8db5eba6fd75028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:16 +0000
Subject: [PATCH 35/65] fix: do not count trimmed whitespace in the positions
 of a quoted field

---
 csvp/src/field_builder.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/csvp/src/field_builder.rs b/csvp/src/field_builder.rs
index b43603b..141f833 100644
--- a/csvp/src/field_builder.rs
+++ b/csvp/src/field_builder.rs
@@ -8,11 +8,14 @@ pub(crate) struct FieldBuilder {
 }
 
 impl From<FieldBuilder> for Field {
-    fn from(pf: FieldBuilder) -> Self {
+    fn from(mut pf: FieldBuilder) -> Self {
+        let value = pf.value.trim();
+        // the value is trimmed, so it's first character isn't necessarily the first one we saw
+        let trimmed_start = pf.value.chars().count() - pf.value.trim_start().chars().count();
         Field {
             address: pf.address,
-            value: pf.value.trim().to_string(),
-            positions: pf.positions,
+            value: value.to_string(),
+            positions: pf.positions.split_off(trimmed_start),
         }
     }
 }
-- 
2.43.0


From 3466f73fb61f29760916677a16316a0f3d688bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:40 +0000
Subject: [PATCH 36/65] fix: escape quotes in the texts of Excel data
 validations

---
 src/target/excel/cell_validation.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/target/excel/cell_validation.rs b/src/target/excel/cell_validation.rs
index 56c7a41..b45ca72 100644
--- a/src/target/excel/cell_validation.rs
+++ b/src/target/excel/cell_validation.rs
@@ -4,6 +4,11 @@ use umya_spreadsheet as u;
 #[derive(Debug)]
 pub(super) struct CellValidation(pub(super) a1::Address, pub(super) DataValidation);
 
+/// `text` as it has to be written in a formula
+fn string_literal(text: &str) -> String {
+    format!("\"{}\"", text.replace('"', "\"\""))
+}
+
 macro_rules! custom_validation {
     ($v:ident, $type:ident, $formula1:expr, $prompt:expr) => {
         $v.set_formula1($formula1.to_string())
@@ -169,17 +174,17 @@ impl From<CellValidation> for u::DataValidation {
             }
 
             DataValidation::TextContains(t) => {
-                let f = format!("=ISNUMBER(SEARCH(\"{t}\", {position}))");
+                let f = format!("=ISNUMBER(SEARCH({}, {position}))", string_literal(&t));
                 custom_validation!(v, Custom, f, format!("Text contains \"{t}\""))
             }
 
             DataValidation::TextDoesNotContain(t) => {
-                let f = format!("=NOT(ISNUMBER(SEARCH(\"{t}\", {position})))");
+                let f = format!("=NOT(ISNUMBER(SEARCH({}, {position})))", string_literal(&t));
                 custom_validation!(v, Custom, f, format!("Text does not contain \"{t}\""))
             }
 
             DataValidation::TextEqualTo(t) => {
-                let f = format!("{position} = \"{t}\"");
+                let f = format!("{position} = {}", string_literal(&t));
                 custom_validation!(v, Custom, f, format!("Text equal to \"{t}\""))
             }
 
-- 
2.43.0


From df26b0492550fea944a1a7223be8833e831a7016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:23 +0000
Subject: [PATCH 37/65] fix: do not pass the imports of a module on to those
 that use it

---
 src/module_loader/mod.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/module_loader/mod.rs b/src/module_loader/mod.rs
index ba63e20..ccaf107 100644
--- a/src/module_loader/mod.rs
+++ b/src/module_loader/mod.rs
@@ -231,6 +231,11 @@ impl ModuleLoader {
                 continue;
             }
 
+            let own_functions: collections::HashSet<_> =
+                to_resolve.scope.functions.keys().cloned().collect();
+            let own_variables: collections::HashSet<_> =
+                to_resolve.scope.variables.keys().cloned().collect();
+
             // let mut local_scope = to_resolve.scope.clone();
             for req_path in to_resolve.required_modules.iter().rev() {
                 let Some(dep_scope) = scopes.get(req_path) else {
@@ -268,6 +273,17 @@ impl ModuleLoader {
                 to_resolve.source_code
             );
 
+            // everything it needs from its dependencies has been resolved, so don't pass those on (a
+            // function can have the same name as a variable it exports, and the other way around)
+            to_resolve
+                .scope
+                .functions
+                .retain(|name, _| own_functions.contains(name));
+            to_resolve
+                .scope
+                .variables
+                .retain(|name, _| own_variables.contains(name));
+
             to_resolve.needs_eval = false;
 
             // now that we've evaled it that's the last step, write the csvpo file
-- 
2.43.0


From cf4dd665ee2ad006de6e8bc73bf64d0d421d75bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:16 +0000
Subject: [PATCH 38/65] fix: reject a use statement without the name of a
 module

---
 src/parser/code_section_parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser/code_section_parser.rs b/src/parser/code_section_parser.rs
index 99a4b85..7b09971 100644
--- a/src/parser/code_section_parser.rs
+++ b/src/parser/code_section_parser.rs
@@ -77,7 +77,12 @@ impl<'a> CodeSectionParser<'a> {
 
     /// parses `use` followed by a module name
     fn parse_use_module(&self) -> Result<ModulePath> {
-        self.lexer.next().try_into()
+        match self.lexer.next() {
+            token @ TokenMatch {
+                token: Token::Eof, ..
+            } => Err(token.into_error("Expected the name of a module").into()),
+            token => token.try_into(),
+        }
     }
 
     /// parses a `:=` folloed by an `<expr>`
-- 
2.43.0


From 5d279385547546268e31fa7a8d5ae3193e30e896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:02 +0000
Subject: [PATCH 39/65] fix: recompile when the object code is corrupt instead
 of aborting

---
 src/module/mod.rs | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/module/mod.rs b/src/module/mod.rs
index 5a91222..156b67b 100644
--- a/src/module/mod.rs
+++ b/src/module/mod.rs
@@ -15,7 +15,7 @@ use crate::{
 };
 use log::{debug, error, info, warn};
 use rayon::prelude::*;
-use std::{fs, io, path, time};
+use std::{fs, path, time};
 
 mod display;
 
@@ -80,13 +80,11 @@ impl Module {
             return Ok(None);
         }
 
-        let obj_file_reader = match fs::File::open(&object_code_filename) {
-            Ok(r) => r,
-            Err(e) => compiler_error(format!("Error opening object code: {e}")),
-        };
-
-        let Ok(mut loaded_module) =
-            bincode::deserialize_from::<_, Self>(io::BufReader::new(obj_file_reader))
+        // NOTE: it's read as a whole so that a corrupt length can't ask for more memory than there are
+        // bytes in the file
+        let Some(mut loaded_module) = fs::read(&object_code_filename)
+            .ok()
+            .and_then(|encoded| bincode::deserialize::<Self>(&encoded).ok())
         else {
             // if we fail to load the old object file just warn about it and move on.  for whatever
             // reason (written by an old version) it's not compatible with our current version
@@ -230,12 +228,10 @@ impl Module {
             )),
         };
 
-        let loaded_version = match semver::Version::parse(&self.compiler_version) {
-            Ok(v) => v,
-            Err(e) => compiler_error(format!(
-                "Unable to parse loaded module version `{}`: {e}",
-                &self.compiler_version
-            )),
+        let Ok(loaded_version) = semver::Version::parse(&self.compiler_version) else {
+            // no version of ours has written it
+            self.is_dirty = true;
+            return Ok(());
         };
 
         // if the version is not ours, don't use it and recompile instead.  otherwise we can trust
-- 
2.43.0


From 8dd823c57ad2b2417fd02cfdbfb38221f6ca3d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:41 +0000
Subject: [PATCH 40/65] fix: do not compile a regex for every line of the
 source

---
 src/source_code/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/source_code/mod.rs b/src/source_code/mod.rs
index 27febd8..b1b8ba6 100644
--- a/src/source_code/mod.rs
+++ b/src/source_code/mod.rs
@@ -38,10 +38,10 @@ impl SourceCode {
     {
         let str_input: String = input.into();
 
-        if let Some(p) = str_input
-            .lines()
-            .position(|l| regex::Regex::new(r"^\s*---\s*$").unwrap().is_match(l))
-        {
+        // compiling a regex is expensive so don't do it for every line
+        let separator = regex::Regex::new(r"^\s*---\s*$").unwrap();
+
+        if let Some(p) = str_input.lines().position(|l| separator.is_match(l)) {
             let lines: Vec<_> = str_input.lines().collect();
             let csv_lines = &lines[(p + 1)..];
             let code_lines = &lines[..p];
-- 
2.43.0


From f788dcf504d04b21b1f0b60b8f64be0fc5b60401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:09 +0000
Subject: [PATCH 41/65] fix: report an error if there are more columns or rows
 than Excel supports

---
 src/target/excel/compilation_target.rs |  2 ++
 src/target/excel/mod.rs                | 16 ++++++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/target/excel/compilation_target.rs b/src/target/excel/compilation_target.rs
index ad49796..58b10c6 100644
--- a/src/target/excel/compilation_target.rs
+++ b/src/target/excel/compilation_target.rs
@@ -10,6 +10,8 @@ impl CompilationTarget for Excel<'_> {
     }
 
     fn write(&self, module: &Module) -> Result<()> {
+        self.check_size(module)?;
+
         let mut spreadsheet = self.open_spreadsheet()?;
 
         self.create_worksheet(&mut spreadsheet)?;
diff --git a/src/target/excel/mod.rs b/src/target/excel/mod.rs
index d3576dd..4cb8d19 100644
--- a/src/target/excel/mod.rs
+++ b/src/target/excel/mod.rs
@@ -16,6 +16,10 @@ use cell_validation::CellValidation;
 
 type ExcelValue = u::Cell;
 
+/// the largest worksheet that Excel supports
+const MAX_COLUMNS: usize = 16_384;
+const MAX_ROWS: usize = 1_048_576;
+
 #[derive(Debug)]
 pub(crate) struct Excel<'a> {
     path: path::PathBuf,
@@ -170,6 +174,18 @@ impl<'a> Excel<'a> {
         }
     }
 
+    fn check_size(&self, module: &Module) -> Result<()> {
+        let rows = &module.spreadsheet.rows;
+
+        if rows.len() > MAX_ROWS || rows.iter().any(|r| r.cells.len() > MAX_COLUMNS) {
+            return Err(self.compiler.output_error(format!(
+                "Excel only supports {MAX_ROWS} rows and {MAX_COLUMNS} columns"
+            )));
+        }
+
+        Ok(())
+    }
+
     fn open_spreadsheet(&self) -> Result<u::Spreadsheet> {
         if self.path.exists() {
             u::reader::xlsx::read(self.path.as_path()).map_err(|e| {
-- 
2.43.0


From 03b7911526c33a06ca1d3aea79bf67664ab3ffc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:22 +0000
Subject: [PATCH 42/65] fix: reject malformed ranges of validations instead of
 panicking

---
 src/parser/cell_parser/validate.rs | 33 +++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/parser/cell_parser/validate.rs b/src/parser/cell_parser/validate.rs
index 56eeec1..0a347d1 100644
--- a/src/parser/cell_parser/validate.rs
+++ b/src/parser/cell_parser/validate.rs
@@ -27,6 +27,33 @@ macro_rules! validate {
     };
 }
 
+/// `a1::new` assumes that every side of a range has the parts it's supposed to have, so check that
+/// before parsing it.
+fn is_a1(a1: &str) -> bool {
+    let range = a1.rsplit_once('!').map_or(a1, |(_, range)| range);
+
+    regex::Regex::new(
+        r"(?xi)^(
+            \$?[A-Z]{1,3}\$?[0-9]+ (:\$?[A-Z]{1,3}\$?[0-9]+)?
+            | \$?[A-Z]{1,3}:\$?[A-Z]{1,3}
+            | \$?[0-9]+:\$?[0-9]+
+        )$",
+    )
+    .unwrap()
+    .is_match(range)
+}
+
+/// `a1::new` can't handle quoted sheet names which aren't ASCII.  They only need their quotes if
+/// there is a quote in them.
+fn unquote_sheet_name(a1: &str) -> String {
+    match a1.strip_prefix('\'').and_then(|s| s.split_once("'!")) {
+        Some((sheet_name, range)) if !sheet_name.contains('\'') => {
+            format!("{sheet_name}!{range}")
+        }
+        _ => a1.to_string(),
+    }
+}
+
 impl CellParser<'_, '_> {
     pub(super) fn validate(&mut self) -> ParseResult<()> {
         let name = self.lexer.take_option_right_side()?;
@@ -258,8 +285,12 @@ impl CellParser<'_, '_> {
     validate!(self, validate_value_in_range, {
         take_parens!(self, {
             let a1_match = self.lexer.take_token(Token::A1)?;
+            if !is_a1(&a1_match.str_match) {
+                return Err(a1_match.into_parse_error("Expected an A1 reference"));
+            }
+
             DataValidation::ValueInRange(
-                a1::new(&a1_match.str_match).map_err(|e| {
+                a1::new(&unquote_sheet_name(&a1_match.str_match)).map_err(|e| {
                     a1_match.into_parse_error(format!("Expected an A1 reference: {e}"))
                 })?,
             )
-- 
2.43.0


From 364307fcb5614d21e287dd2096315f9104c993e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:44 +0000
Subject: [PATCH 43/65] fix: reject key/values without a key and ignore blanks
 around it

---
 src/parser/ast_parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser/ast_parser.rs b/src/parser/ast_parser.rs
index b4faef2..7a75747 100644
--- a/src/parser/ast_parser.rs
+++ b/src/parser/ast_parser.rs
@@ -75,7 +75,12 @@ impl<'a> AstParser<'a> {
         let input_filename = input_filename.into();
 
         for kv in key_values {
-            if let Some((key, value)) = kv.split_once('=') {
+            let key_value = kv
+                .split_once('=')
+                .map(|(key, value)| (key.trim(), value))
+                .filter(|(key, _)| !key.is_empty());
+
+            if let Some((key, value)) = key_value {
                 // the lexer requires that we have a `SourceCode`, but we're trying to parse something that
                 // came from the CLI. so we kinda need to fudge together a SourceCode here:
                 let source_input = format!("{key} := {value}");
-- 
2.43.0


From dbbc916ae8d70f856d20f2361a2950d97684679e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:33 +0000
Subject: [PATCH 44/65] fix: fill blank formatted cells of existing worksheets
 in safe mode

---
 src/target/excel/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/target/excel/mod.rs b/src/target/excel/mod.rs
index 4cb8d19..96cb949 100644
--- a/src/target/excel/mod.rs
+++ b/src/target/excel/mod.rs
@@ -167,10 +167,10 @@ impl<'a> Excel<'a> {
         worksheet: &u::Worksheet,
     ) -> ExistingCell<ExcelValue> {
         let cell_value = worksheet.get_cell(position.to_string());
-        if let Some(cell) = cell_value {
-            ExistingCell::Value(cell.clone())
-        } else {
-            ExistingCell::Empty
+        match cell_value {
+            // a blank cell which is only there for its formatting has no value to keep
+            Some(cell) if !cell.get_cell_value().is_empty() => ExistingCell::Value(cell.clone()),
+            _ => ExistingCell::Empty,
         }
     }
 
-- 
2.43.0


From 2cda786f94e1699bb2b051a08c437344b602173d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:17 +0000
Subject: [PATCH 45/65] fix: report the same error whatever order rows and
 modules are processed in

---
 src/error/display.rs     |  3 +++
 src/module/mod.rs        |  4 ++++
 src/module_loader/mod.rs | 11 +++++++++--
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/error/display.rs b/src/error/display.rs
index 2941bdd..dba575a 100644
--- a/src/error/display.rs
+++ b/src/error/display.rs
@@ -74,6 +74,9 @@ csv++ with `GOOGLE_APPLICATION_CREDENTIALS` or the `--google-account-credentials
             }
 
             Self::ModuleLoadErrors(errors) => {
+                let mut errors = errors.iter().collect::<Vec<_>>();
+                errors.sort_by_key(|(m, _)| m.to_string());
+
                 for (m, e) in errors {
                     writeln!(f, "Error loading module {m}")?;
                     writeln!(f, "{e}")?;
diff --git a/src/module/mod.rs b/src/module/mod.rs
index 156b67b..8112b3d 100644
--- a/src/module/mod.rs
+++ b/src/module/mod.rs
@@ -54,6 +54,10 @@ impl Module {
             .into_par_iter()
             .enumerate()
             .map(|(row_index, row)| row.eval(&self.source_code, &scope, row_index.into()))
+            // collecting into a `Result` in parallel could return the error of any row rather than
+            // the one of the first
+            .collect::<Vec<_>>()
+            .into_iter()
             .collect::<Result<Vec<_>>>()?;
 
         Ok(Self {
diff --git a/src/module_loader/mod.rs b/src/module_loader/mod.rs
index ccaf107..fae80fc 100644
--- a/src/module_loader/mod.rs
+++ b/src/module_loader/mod.rs
@@ -34,7 +34,10 @@ pub(super) struct ModuleLoader {
 // TODO: ideally this shouldn't take a $source_code and the calling part does the map_err
 macro_rules! eval_ast {
     ($scope:expr, $functions_or_variables:ident, $eval_in:expr, $source_code:expr) => {{
-        for (name, ast) in $scope.$functions_or_variables.clone().into_iter() {
+        // in a definite order so that the same error is reported every time
+        let definitions: collections::BTreeMap<_, _> =
+            $scope.$functions_or_variables.clone().into_iter().collect();
+        for (name, ast) in definitions {
             $scope.$functions_or_variables.insert(
                 name,
                 ast.eval($eval_in, None)
@@ -118,7 +121,11 @@ impl ModuleLoader {
             dep_graph.add_edge(main_node, direct_dep_node, ());
         }
 
-        for (p, dep_mod) in loaded.iter() {
+        // in a definite order so that modules are always resolved in the same order
+        let mut loaded_in_order = loaded.iter().collect::<Vec<_>>();
+        loaded_in_order.sort_by_key(|(p, _)| p.to_string());
+
+        for (p, dep_mod) in loaded_in_order {
             // TODO: clean this up with a macro or something. or maybe wrap the petgraph into a
             // `UniqueGraph` of my own making
             let dep_node = loaded_nodes
-- 
2.43.0


From 3995803f5bace9f790d72e3f77fe48a24a859678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:12 +0000
Subject: [PATCH 46/65] fix: do not panic on an output extension which is not
 UTF-8

---
 src/output/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/output/mod.rs b/src/output/mod.rs
index 11da65c..7cc1515 100644
--- a/src/output/mod.rs
+++ b/src/output/mod.rs
@@ -56,7 +56,7 @@ impl Output {
         } else {
             Err(Error::InitError(format!(
                 "{} is an unsupported extension: only .csv, .xlsx or .ods are supported.",
-                ext.to_str().unwrap()
+                ext.to_string_lossy()
             )))
         }
     }
-- 
2.43.0


From d58ef99a9f853ec16dcb275fccf4e90462d14ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:12 +0000
Subject: [PATCH 47/65] fix: allow dashes and underscores in the ids of Google
 sheets

---
 src/output/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/output/mod.rs b/src/output/mod.rs
index 7cc1515..8a4fc79 100644
--- a/src/output/mod.rs
+++ b/src/output/mod.rs
@@ -62,11 +62,14 @@ impl Output {
     }
 
     fn from_google_sheet_id(sheet_id: String) -> Result<Self> {
-        if sheet_id.chars().all(char::is_alphanumeric) {
+        if sheet_id
+            .chars()
+            .all(|c| c.is_alphanumeric() || c == '-' || c == '_')
+        {
             Ok(Self::GoogleSheets(sheet_id))
         } else {
             Err(Error::InitError(
-                "The GOOGLE_SHEET_ID must be all letters and digits.".to_string(),
+                "The GOOGLE_SHEET_ID must be all letters, digits, dashes and underscores.".to_string(),
             ))
         }
     }
-- 
2.43.0


From 9c14c2e9c486ce515f6c214fa00b9dfb6eeb2ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:49 +0000
Subject: [PATCH 48/65] fix: use the names the Google Sheets API has for
 alignments and wrapping

The API has no horizontal alignment MIDDLE and no wrap strategy OVERFLOW and
refuses the whole request, which is every one as cells are centered by default.
---
 src/target/google_sheets/google_sheets_cell.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/target/google_sheets/google_sheets_cell.rs b/src/target/google_sheets/google_sheets_cell.rs
index a38fc45..b34ad76 100644
--- a/src/target/google_sheets/google_sheets_cell.rs
+++ b/src/target/google_sheets/google_sheets_cell.rs
@@ -205,7 +205,7 @@ impl<'a> GoogleSheetsCell<'a> {
     fn horizontal_alignment(&self) -> String {
         match self.0.horizontal_align {
             HorizontalAlign::Left => "LEFT",
-            HorizontalAlign::Center => "MIDDLE",
+            HorizontalAlign::Center => "CENTER",
             HorizontalAlign::Right => "RIGHT",
         }
         .to_string()
@@ -277,7 +277,7 @@ impl<'a> GoogleSheetsCell<'a> {
     fn wrap_strategy(&self) -> String {
         match self.0.text_wrap {
             TextWrap::Wrap => "WRAP",
-            TextWrap::Overflow => "OVERFLOW",
+            TextWrap::Overflow => "OVERFLOW_CELL",
             TextWrap::Clip => "CLIP",
         }
         .to_string()
-- 
2.43.0


From 8515e46fd55cf3593e4c0434995a917d895ebe7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:49 +0000
Subject: [PATCH 49/65] fix: border=all in Google Sheets

It set none of the four borders.
---
 src/target/google_sheets/google_sheets_cell.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/target/google_sheets/google_sheets_cell.rs b/src/target/google_sheets/google_sheets_cell.rs
index b34ad76..be35d26 100644
--- a/src/target/google_sheets/google_sheets_cell.rs
+++ b/src/target/google_sheets/google_sheets_cell.rs
@@ -153,7 +153,7 @@ impl<'a> GoogleSheetsCell<'a> {
     }
 
     fn border_side(&self, side: BorderSide) -> Option<api::Border> {
-        if self.0.borders.contains(&side) {
+        if self.0.borders.contains(&BorderSide::All) || self.0.borders.contains(&side) {
             Some(self.border())
         } else {
             None
-- 
2.43.0


From 4bc7f315273b8aef98a1abceb7fe6f619ed3e773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:08 +0000
Subject: [PATCH 50/65] fix: use the names the Google Sheets API has for data
 validations

They were the ones of Apps Script, which the API refuses.
---
 .../google_sheets/google_sheets_cell.rs       | 30 +++++++++----------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/target/google_sheets/google_sheets_cell.rs b/src/target/google_sheets/google_sheets_cell.rs
index be35d26..55b58b6 100644
--- a/src/target/google_sheets/google_sheets_cell.rs
+++ b/src/target/google_sheets/google_sheets_cell.rs
@@ -85,14 +85,14 @@ impl<'a> GoogleSheetsCell<'a> {
     pub(super) fn data_validation_rule(&self) -> Option<api::DataValidationRule> {
         Some(api::DataValidationRule {
             condition: Some(match self.0.data_validation.as_ref()? {
-                DataValidation::Custom(c) => validate_str!("CUSTOM", c),
+                DataValidation::Custom(c) => validate_str!("CUSTOM_FORMULA", c),
                 DataValidation::DateAfter(d) => validate_date!("DATE_AFTER", d),
                 DataValidation::DateBefore(d) => validate_date!("DATE_BEFORE", d),
                 DataValidation::DateBetween(da, db) => {
                     validate_date!("DATE_BETWEEN", da, db)
                 }
-                DataValidation::DateEqualTo(d) => validate_date!("DATE_EQUAL_TO", d),
-                DataValidation::DateIsValid => validate_date!("DATE_IS_VALID_DATE"),
+                DataValidation::DateEqualTo(d) => validate_date!("DATE_EQ", d),
+                DataValidation::DateIsValid => validate_date!("DATE_IS_VALID"),
                 DataValidation::DateNotBetween(da, db) => {
                     validate_date!("DATE_NOT_BETWEEN", da, db)
                 }
@@ -104,34 +104,34 @@ impl<'a> GoogleSheetsCell<'a> {
                 DataValidation::NumberBetween(na, nb) => {
                     validate_str!("NUMBER_BETWEEN", na, nb)
                 }
-                DataValidation::NumberEqualTo(n) => validate_str!("NUMBER_EQUAL_TO", n),
+                DataValidation::NumberEqualTo(n) => validate_str!("NUMBER_EQ", n),
                 DataValidation::NumberGreaterThan(n) => {
-                    validate_str!("NUMBER_GREATER_THAN", n)
+                    validate_str!("NUMBER_GREATER", n)
                 }
                 DataValidation::NumberGreaterThanOrEqualTo(n) => {
-                    validate_str!("NUMBER_GREATER_THAN_OR_EQUAL_TO", n)
+                    validate_str!("NUMBER_GREATER_THAN_EQ", n)
                 }
                 DataValidation::NumberLessThan(n) => {
-                    validate_str!("NUMBER_LESS_THAN", n)
+                    validate_str!("NUMBER_LESS", n)
                 }
                 DataValidation::NumberLessThanOrEqualTo(n) => {
-                    validate_str!("NUMBER_LESS_THAN_OR_EQUAL_TO", n)
+                    validate_str!("NUMBER_LESS_THAN_EQ", n)
                 }
                 DataValidation::NumberNotBetween(na, nb) => {
                     validate_str!("NUMBER_NOT_BETWEEN", na, nb)
                 }
                 DataValidation::NumberNotEqualTo(n) => {
-                    validate_str!("NUMBER_NOT_EQUAL_TO", n)
+                    validate_str!("NUMBER_NOT_EQ", n)
                 }
                 DataValidation::TextContains(t) => validate_str!("TEXT_CONTAINS", t),
                 DataValidation::TextDoesNotContain(t) => {
-                    validate_str!("TEXT_DOES_NOT_CONTAIN", t)
+                    validate_str!("TEXT_NOT_CONTAINS", t)
                 }
-                DataValidation::TextEqualTo(t) => validate_str!("TEXT_EQUAL_TO", t),
-                DataValidation::TextIsValidEmail => validate_str!("TEXT_IS_VALID_EMAIL"),
-                DataValidation::TextIsValidUrl => validate_str!("TEXT_IS_VALID_URL"),
+                DataValidation::TextEqualTo(t) => validate_str!("TEXT_EQ", t),
+                DataValidation::TextIsValidEmail => validate_str!("TEXT_IS_EMAIL"),
+                DataValidation::TextIsValidUrl => validate_str!("TEXT_IS_URL"),
                 DataValidation::ValueInList(list) => api::BooleanCondition {
-                    type_: Some("VALUE_IN_LIST".to_string()),
+                    type_: Some("ONE_OF_LIST".to_string()),
                     values: Some(
                         list.iter()
                             .map(|l| api::ConditionValue {
@@ -141,7 +141,7 @@ impl<'a> GoogleSheetsCell<'a> {
                             .collect(),
                     ),
                 },
-                DataValidation::ValueInRange(a1) => validate_str!("VALUE_IN_RANGE", a1),
+                DataValidation::ValueInRange(a1) => validate_str!("ONE_OF_RANGE", a1),
             }),
             // TODO: show a helpful message?
             input_message: None,
-- 
2.43.0


From b721daf42df72b91cb50b69546fd236b484210ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:09 +0000
Subject: [PATCH 51/65] fix: give the dates of data validations as values in
 Google Sheets

They were sent as relative dates, which are names such as TODAY and aren't
supported by data validations.
---
 .../google_sheets/google_sheets_cell.rs       | 34 ++++++-------------
 1 file changed, 11 insertions(+), 23 deletions(-)

diff --git a/src/target/google_sheets/google_sheets_cell.rs b/src/target/google_sheets/google_sheets_cell.rs
index 55b58b6..0f696bd 100644
--- a/src/target/google_sheets/google_sheets_cell.rs
+++ b/src/target/google_sheets/google_sheets_cell.rs
@@ -14,14 +14,14 @@ use google_sheets4::api;
 
 pub(super) struct GoogleSheetsCell<'a>(pub(super) &'a Cell);
 
-macro_rules! build_boolean_condition {
-    ($gs_name:literal, $conditional_value_attr:ident $(, $dv:ident)*) => {
+macro_rules! validate_str {
+    ($gs_name:literal $(, $dv:ident)*) => {
         api::BooleanCondition {
             type_: Some($gs_name.to_string()),
             values: Some(vec![
                 $(
                     api::ConditionValue {
-                        $conditional_value_attr: Some($dv.to_string()),
+                        user_entered_value: Some($dv.to_string()),
                         ..Default::default()
                     },
                 )*
@@ -30,18 +30,6 @@ macro_rules! build_boolean_condition {
     };
 }
 
-macro_rules! validate_date {
-    ($gs_name:literal $(, $dv:ident)*) => {
-        build_boolean_condition!($gs_name, relative_date $(,$dv)*)
-    };
-}
-
-macro_rules! validate_str {
-    ($gs_name:literal $(, $dv:ident)*) => {
-        build_boolean_condition!($gs_name, user_entered_value $(,$dv)*)
-    };
-}
-
 fn color_style(rgb: &Option<Rgb>) -> Option<api::ColorStyle> {
     if let Some(rgb) = rgb {
         let (r, g, b): (f32, f32, f32) = rgb.into();
@@ -86,19 +74,19 @@ impl<'a> GoogleSheetsCell<'a> {
         Some(api::DataValidationRule {
             condition: Some(match self.0.data_validation.as_ref()? {
                 DataValidation::Custom(c) => validate_str!("CUSTOM_FORMULA", c),
-                DataValidation::DateAfter(d) => validate_date!("DATE_AFTER", d),
-                DataValidation::DateBefore(d) => validate_date!("DATE_BEFORE", d),
+                DataValidation::DateAfter(d) => validate_str!("DATE_AFTER", d),
+                DataValidation::DateBefore(d) => validate_str!("DATE_BEFORE", d),
                 DataValidation::DateBetween(da, db) => {
-                    validate_date!("DATE_BETWEEN", da, db)
+                    validate_str!("DATE_BETWEEN", da, db)
                 }
-                DataValidation::DateEqualTo(d) => validate_date!("DATE_EQ", d),
-                DataValidation::DateIsValid => validate_date!("DATE_IS_VALID"),
+                DataValidation::DateEqualTo(d) => validate_str!("DATE_EQ", d),
+                DataValidation::DateIsValid => validate_str!("DATE_IS_VALID"),
                 DataValidation::DateNotBetween(da, db) => {
-                    validate_date!("DATE_NOT_BETWEEN", da, db)
+                    validate_str!("DATE_NOT_BETWEEN", da, db)
                 }
-                DataValidation::DateOnOrAfter(d) => validate_date!("DATE_ON_OR_AFTER", d),
+                DataValidation::DateOnOrAfter(d) => validate_str!("DATE_ON_OR_AFTER", d),
                 DataValidation::DateOnOrBefore(d) => {
-                    validate_date!("DATE_ON_OR_BEFORE", d)
+                    validate_str!("DATE_ON_OR_BEFORE", d)
                 }
                 // TODO: these might need to be prefixed with `"="`
                 DataValidation::NumberBetween(na, nb) => {
-- 
2.43.0


From ee799944ad58865bb56b1af01ca1ad7937ced687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:10 +0000
Subject: [PATCH 52/65] fix: send formulas and ranges of data validations as
 formulas to Google Sheets

---
 src/target/google_sheets/google_sheets_cell.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/target/google_sheets/google_sheets_cell.rs b/src/target/google_sheets/google_sheets_cell.rs
index 0f696bd..c7884ba 100644
--- a/src/target/google_sheets/google_sheets_cell.rs
+++ b/src/target/google_sheets/google_sheets_cell.rs
@@ -30,6 +30,11 @@ macro_rules! validate_str {
     };
 }
 
+/// Formulas within conditions have to start with `=`
+fn formula(f: &str) -> String {
+    format!("={}", f.trim_start().trim_start_matches('='))
+}
+
 fn color_style(rgb: &Option<Rgb>) -> Option<api::ColorStyle> {
     if let Some(rgb) = rgb {
         let (r, g, b): (f32, f32, f32) = rgb.into();
@@ -73,7 +78,10 @@ impl<'a> GoogleSheetsCell<'a> {
     pub(super) fn data_validation_rule(&self) -> Option<api::DataValidationRule> {
         Some(api::DataValidationRule {
             condition: Some(match self.0.data_validation.as_ref()? {
-                DataValidation::Custom(c) => validate_str!("CUSTOM_FORMULA", c),
+                DataValidation::Custom(c) => {
+                    let c = formula(c);
+                    validate_str!("CUSTOM_FORMULA", c)
+                }
                 DataValidation::DateAfter(d) => validate_str!("DATE_AFTER", d),
                 DataValidation::DateBefore(d) => validate_str!("DATE_BEFORE", d),
                 DataValidation::DateBetween(da, db) => {
@@ -129,7 +137,10 @@ impl<'a> GoogleSheetsCell<'a> {
                             .collect(),
                     ),
                 },
-                DataValidation::ValueInRange(a1) => validate_str!("ONE_OF_RANGE", a1),
+                DataValidation::ValueInRange(a1) => {
+                    let a1 = formula(&a1.to_string());
+                    validate_str!("ONE_OF_RANGE", a1)
+                }
             }),
             // TODO: show a helpful message?
             input_message: None,
-- 
2.43.0


From 60d8194fe3d9ad3f2b56b9c0ad9fec8bcd918ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:41 +0000
Subject: [PATCH 53/65] fix: items of lists without quotes in data validations
 of Google Sheets

---
 src/target/google_sheets/google_sheets_cell.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/target/google_sheets/google_sheets_cell.rs b/src/target/google_sheets/google_sheets_cell.rs
index c7884ba..8b95391 100644
--- a/src/target/google_sheets/google_sheets_cell.rs
+++ b/src/target/google_sheets/google_sheets_cell.rs
@@ -5,6 +5,7 @@
 //! sending a bunch of default values and prefer to return None instead.  In other words the API
 //! payloads should reflect only the things the user specified on the cell.
 //!
+use crate::ast::{Ast, Node};
 use crate::cell_options::{
     BorderSide, BorderStyle, DataValidation, HorizontalAlign, NumberFormat, TextFormat, TextWrap,
     VerticalAlign,
@@ -35,6 +36,14 @@ fn formula(f: &str) -> String {
     format!("={}", f.trim_start().trim_start_matches('='))
 }
 
+/// The text of an item of a list, which is a value rather than a formula
+fn list_item(item: &Ast) -> String {
+    match &**item {
+        Node::Text(t) => t.clone(),
+        _ => item.to_string(),
+    }
+}
+
 fn color_style(rgb: &Option<Rgb>) -> Option<api::ColorStyle> {
     if let Some(rgb) = rgb {
         let (r, g, b): (f32, f32, f32) = rgb.into();
@@ -131,7 +140,7 @@ impl<'a> GoogleSheetsCell<'a> {
                     values: Some(
                         list.iter()
                             .map(|l| api::ConditionValue {
-                                user_entered_value: Some(l.to_string()),
+                                user_entered_value: Some(list_item(l)),
                                 ..Default::default()
                             })
                             .collect(),
-- 
2.43.0


From f07fc9a632def7c2431952491520c6f4da5751be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:41 +0000
Subject: [PATCH 54/65] fix: write the rows after the first 1000 to their place
 in Google Sheets

Every request started at the same row, so the later ones overwrote what the
first had written.
---
 .../google_sheets/batch_update_builder.rs       | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/target/google_sheets/batch_update_builder.rs b/src/target/google_sheets/batch_update_builder.rs
index f0c9d4a..8368380 100644
--- a/src/target/google_sheets/batch_update_builder.rs
+++ b/src/target/google_sheets/batch_update_builder.rs
@@ -7,6 +7,8 @@ use crate::{Cell, Compiler, Module};
 use google_sheets4::api;
 use std::str::FromStr;
 
+const ROWS_PER_REQUEST: usize = 1000;
+
 pub(super) struct BatchUpdateBuilder<'a> {
     existing_values: &'a ExistingValues<SheetsValue>,
     compiler: &'a Compiler,
@@ -39,9 +41,10 @@ impl<'a> BatchUpdateBuilder<'a> {
 
         // split the rows into requests with 1000 per
         all_rows
-            .chunks(1000)
-            .map(|rows| api::Request {
-                update_cells: Some(self.update_cells_request(rows)),
+            .chunks(ROWS_PER_REQUEST)
+            .enumerate()
+            .map(|(i, rows)| api::Request {
+                update_cells: Some(self.update_cells_request(i * ROWS_PER_REQUEST, rows)),
                 ..Default::default()
             })
             .collect()
@@ -91,7 +94,11 @@ impl<'a> BatchUpdateBuilder<'a> {
             .collect()
     }
 
-    fn update_cells_request(&self, rows: &[api::RowData]) -> api::UpdateCellsRequest {
+    fn update_cells_request(
+        &self,
+        first_row: usize,
+        rows: &[api::RowData],
+    ) -> api::UpdateCellsRequest {
         api::UpdateCellsRequest {
             fields: Some(google_sheets4::FieldMask::from_str("*").unwrap()),
             start: Some(api::GridCoordinate {
@@ -101,7 +108,7 @@ impl<'a> BatchUpdateBuilder<'a> {
                         .expect("a 32-bit value for column offset"),
                 ),
                 row_index: Some(
-                    i32::try_from(self.compiler.config.offset.0)
+                    i32::try_from(self.compiler.config.offset.0 as usize + first_row)
                         .expect("a 32-bit value for row offset"),
                 ),
                 sheet_id: None,
-- 
2.43.0


From b4fd71d1ed5f3327bf6595e51ccf08df70ec0973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:41 +0000
Subject: [PATCH 55/65] fix: row and column offset in Google Sheets

They were swapped, the cells at the offset weren't the ones that were merged
and offsets of more than 31 bits panicked.
---
 .../google_sheets/batch_update_builder.rs     | 36 +++++++++++++------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/src/target/google_sheets/batch_update_builder.rs b/src/target/google_sheets/batch_update_builder.rs
index 8368380..a19293a 100644
--- a/src/target/google_sheets/batch_update_builder.rs
+++ b/src/target/google_sheets/batch_update_builder.rs
@@ -15,6 +15,11 @@ pub(super) struct BatchUpdateBuilder<'a> {
     module: &'a Module,
 }
 
+/// Larger ones than the API can express are far outside of any sheet and refused by it
+fn grid_index(index: usize) -> i32 {
+    i32::try_from(index).unwrap_or(i32::MAX)
+}
+
 impl<'a> BatchUpdateBuilder<'a> {
     pub(super) fn new(
         compiler: &'a Compiler,
@@ -76,7 +81,14 @@ impl<'a> BatchUpdateBuilder<'a> {
             .collect()
     }
 
+    /// The column and row of the sheet that the first cell is written to
+    fn offset(&self) -> (usize, usize) {
+        let (x, y) = self.compiler.config.offset;
+        (x as usize, y as usize)
+    }
+
     fn row_data(&self) -> Vec<api::RowData> {
+        let (x_offset, y_offset) = self.offset();
         self.module
             .spreadsheet
             .rows
@@ -84,8 +96,16 @@ impl<'a> BatchUpdateBuilder<'a> {
             .enumerate()
             .map(|(i, row)| {
                 let empty_row = vec![];
-                let existing_row = self.existing_values.cells.get(i).unwrap_or(&empty_row);
-                let merged_row = merge_rows(existing_row, &row.cells, &self.compiler.config);
+                let existing_row = self
+                    .existing_values
+                    .cells
+                    .get(i + y_offset)
+                    .unwrap_or(&empty_row);
+                let merged_row = merge_rows(
+                    existing_row.get(x_offset..).unwrap_or_default(),
+                    &row.cells,
+                    &self.compiler.config,
+                );
 
                 api::RowData {
                     values: Some(Self::cell_data(&merged_row)),
@@ -99,18 +119,12 @@ impl<'a> BatchUpdateBuilder<'a> {
         first_row: usize,
         rows: &[api::RowData],
     ) -> api::UpdateCellsRequest {
+        let (x_offset, y_offset) = self.offset();
         api::UpdateCellsRequest {
             fields: Some(google_sheets4::FieldMask::from_str("*").unwrap()),
             start: Some(api::GridCoordinate {
-                // TODO: get rid of the unwraps
-                column_index: Some(
-                    i32::try_from(self.compiler.config.offset.1)
-                        .expect("a 32-bit value for column offset"),
-                ),
-                row_index: Some(
-                    i32::try_from(self.compiler.config.offset.0 as usize + first_row)
-                        .expect("a 32-bit value for row offset"),
-                ),
+                column_index: Some(grid_index(x_offset)),
+                row_index: Some(grid_index(y_offset + first_row)),
                 sheet_id: None,
             }),
             rows: Some(rows.to_vec()),
-- 
2.43.0


From f886cd38042361cde4789993414a092085dd9ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:42 +0000
Subject: [PATCH 56/65] fix: fill blank cells of existing Google sheets in safe
 mode

The API also returns the cells which have no value.
---
 .../google_sheets/batch_update_builder.rs     | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/target/google_sheets/batch_update_builder.rs b/src/target/google_sheets/batch_update_builder.rs
index a19293a..44ea487 100644
--- a/src/target/google_sheets/batch_update_builder.rs
+++ b/src/target/google_sheets/batch_update_builder.rs
@@ -2,7 +2,7 @@
 //!
 use super::{google_sheets_cell, SheetsValue};
 use crate::ast::Node;
-use crate::target::{merge_rows, ExistingValues, MergeResult};
+use crate::target::{merge_rows, ExistingCell, ExistingValues, MergeResult};
 use crate::{Cell, Compiler, Module};
 use google_sheets4::api;
 use std::str::FromStr;
@@ -101,11 +101,21 @@ impl<'a> BatchUpdateBuilder<'a> {
                     .cells
                     .get(i + y_offset)
                     .unwrap_or(&empty_row);
-                let merged_row = merge_rows(
-                    existing_row.get(x_offset..).unwrap_or_default(),
-                    &row.cells,
-                    &self.compiler.config,
-                );
+                let existing_row: Vec<_> = existing_row
+                    .iter()
+                    .skip(x_offset)
+                    .enumerate()
+                    .map(|(j, cell)| match cell {
+                        // a blank cell which we write to has no value to keep
+                        ExistingCell::Value(v)
+                            if j < row.cells.len() && v.user_entered_value.is_none() =>
+                        {
+                            ExistingCell::Empty
+                        }
+                        _ => cell.clone(),
+                    })
+                    .collect();
+                let merged_row = merge_rows(&existing_row, &row.cells, &self.compiler.config);
 
                 api::RowData {
                     values: Some(Self::cell_data(&merged_row)),
-- 
2.43.0


From 952bb168db0e4daaf2e33ee2c1820e38c7bcb2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:24 +0000
Subject: [PATCH 57/65] fix: write to the Google sheet whose cells were read

The cells were merged with those of the first sheet but written to the one with
the id 0, which is another if the sheets were reordered.
---
 .../google_sheets/batch_update_builder.rs     | 10 +++++-
 src/target/google_sheets/mod.rs               | 34 +++++++++++--------
 2 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/src/target/google_sheets/batch_update_builder.rs b/src/target/google_sheets/batch_update_builder.rs
index 44ea487..f34d7b5 100644
--- a/src/target/google_sheets/batch_update_builder.rs
+++ b/src/target/google_sheets/batch_update_builder.rs
@@ -13,6 +13,7 @@ pub(super) struct BatchUpdateBuilder<'a> {
     existing_values: &'a ExistingValues<SheetsValue>,
     compiler: &'a Compiler,
     module: &'a Module,
+    sheet_id: Option<i32>,
 }
 
 /// Larger ones than the API can express are far outside of any sheet and refused by it
@@ -30,9 +31,16 @@ impl<'a> BatchUpdateBuilder<'a> {
             existing_values,
             compiler,
             module,
+            sheet_id: None,
         }
     }
 
+    /// The sheet to write to, which is the one with the id 0 otherwise
+    pub(super) fn sheet_id(mut self, sheet_id: Option<i32>) -> Self {
+        self.sheet_id = sheet_id;
+        self
+    }
+
     /// Loops over each row of the spreadsheet, building up `UpdateCellsRequest`s.  
     pub(super) fn build(&self) -> api::BatchUpdateSpreadsheetRequest {
         api::BatchUpdateSpreadsheetRequest {
@@ -135,7 +143,7 @@ impl<'a> BatchUpdateBuilder<'a> {
             start: Some(api::GridCoordinate {
                 column_index: Some(grid_index(x_offset)),
                 row_index: Some(grid_index(y_offset + first_row)),
-                sheet_id: None,
+                sheet_id: self.sheet_id,
             }),
             rows: Some(rows.to_vec()),
             range: None,
diff --git a/src/target/google_sheets/mod.rs b/src/target/google_sheets/mod.rs
index 62e876e..146d9c3 100644
--- a/src/target/google_sheets/mod.rs
+++ b/src/target/google_sheets/mod.rs
@@ -30,7 +30,7 @@ macro_rules! unwrap_or_empty {
     ($to_unwrap:expr) => {{
         match $to_unwrap {
             Some(s) => s,
-            None => return Ok(ExistingValues::default()),
+            None => return ExistingValues::default(),
         }
     }};
 }
@@ -56,35 +56,38 @@ impl<'a> GoogleSheets<'a> {
         })
     }
 
-    async fn read_existing_cells(&self, hub: &SheetsHub) -> Result<ExistingValues<SheetsValue>> {
-        let spreadsheet = match hub
+    /// The sheet (of possibly many) that we merge with and write to.
+    async fn read_sheet(&self, hub: &SheetsHub) -> Result<Option<google_sheets4::api::Sheet>> {
+        match hub
             .spreadsheets()
             .get(&self.sheet_id)
             .include_grid_data(true)
             .doit()
             .await
         {
-            Ok((_, s)) => s,
+            Ok((_, s)) => Ok(s.sheets.and_then(|sheets| sheets.into_iter().next())),
             Err(e) => {
                 match e {
                     google_sheets4::Error::BadRequest(obj)
                         if obj["error"]["code"].as_u64().is_some_and(|c| c == 404) =>
                     {
                         // 404 is fine, it just means it doesn't exist yet
-                        return Ok(ExistingValues::default());
+                        Ok(None)
                     }
                     _ => {
                         warn!("Google Sheets API error response: {e}");
 
                         // TODO: show just the message
-                        return Err(Error::GoogleSetupError(format!(
+                        Err(Error::GoogleSetupError(format!(
                             "Error reading existing sheet: {e}",
-                        )));
+                        )))
                     }
                 }
             }
-        };
+        }
+    }
 
+    fn existing_cells(sheet: &google_sheets4::api::Sheet) -> ExistingValues<SheetsValue> {
         /* TODO: ugh why won't this work!!
         let row_data = spreadsheet
             .sheets
@@ -98,13 +101,11 @@ impl<'a> GoogleSheets<'a> {
         };
         */
 
-        let sheets = unwrap_or_empty!(spreadsheet.sheets); // Vec<Sheet>
-        let sheet = unwrap_or_empty!(sheets.first()); // &Sheet
         let data = unwrap_or_empty!(&sheet.data); // &Vec<GridData>
         let grid_data = unwrap_or_empty!(data.first()); // &GridData
         let row_data = unwrap_or_empty!(&grid_data.row_data); // &Vec<RowData>
 
-        Ok(ExistingValues {
+        ExistingValues {
             cells: row_data
                 .iter()
                 .map(|row| {
@@ -117,7 +118,7 @@ impl<'a> GoogleSheets<'a> {
                     }
                 })
                 .collect(),
-        })
+        }
     }
 
     async fn drive_hub(&self) -> Result<DriveHub> {
@@ -157,9 +158,12 @@ impl<'a> GoogleSheets<'a> {
 
     async fn write_sheet(&self, module: &Module) -> Result<()> {
         let hub = self.sheets_hub().await?;
-        let existing_values = self.read_existing_cells(&hub).await?;
-        let batch_update_request =
-            BatchUpdateBuilder::new(self.compiler, module, &existing_values).build();
+        let sheet = self.read_sheet(&hub).await?;
+        let existing_values = sheet.as_ref().map(Self::existing_cells).unwrap_or_default();
+        let sheet_id = sheet.and_then(|s| s.properties).and_then(|p| p.sheet_id);
+        let batch_update_request = BatchUpdateBuilder::new(self.compiler, module, &existing_values)
+            .sheet_id(sheet_id)
+            .build();
 
         hub.spreadsheets()
             .batch_update(batch_update_request, &self.sheet_id)
-- 
2.43.0


From 1de030e08e08cc5a53d9a7bc470f04068b998bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:41 +0000
Subject: [PATCH 58/65] fix: compile programs without cells to Google Sheets

The API refuses a batch update without any request.
---
 src/target/google_sheets/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/target/google_sheets/mod.rs b/src/target/google_sheets/mod.rs
index 146d9c3..e0f4adb 100644
--- a/src/target/google_sheets/mod.rs
+++ b/src/target/google_sheets/mod.rs
@@ -165,6 +165,15 @@ impl<'a> GoogleSheets<'a> {
             .sheet_id(sheet_id)
             .build();
 
+        // the API refuses to do nothing
+        if batch_update_request
+            .requests
+            .as_ref()
+            .map_or(true, Vec::is_empty)
+        {
+            return Ok(());
+        }
+
         hub.spreadsheets()
             .batch_update(batch_update_request, &self.sheet_id)
             .doit()
-- 
2.43.0


From b954bd24d6fb465fcfc62551b9c929a98f6f8d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:04 +0000
Subject: [PATCH 59/65] fix: use modules with a dot in their name

---
 src/module_path/try_from.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/module_path/try_from.rs b/src/module_path/try_from.rs
index c45a8c6..5b4f264 100644
--- a/src/module_path/try_from.rs
+++ b/src/module_path/try_from.rs
@@ -6,7 +6,10 @@ use std::path;
 impl From<ModulePath> for path::PathBuf {
     fn from(mn: ModulePath) -> path::PathBuf {
         let mut p: path::PathBuf = mn.0.iter().collect();
-        p.set_extension("csvpp");
+        if let Some(name) = mn.0.last() {
+            // note that `set_extension` would replace everything after a `.` in the name
+            p.set_file_name(format!("{name}.csvpp"));
+        }
         p
     }
 }
-- 
2.43.0


From e69d192f55d8dc630f31a60b9dc7c2431b39c045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:34 +0000
Subject: [PATCH 60/65] fix: quote the names of sheets in the ranges of data
 validations which need it

---
 src/cell_options/data_validation.rs           | 21 +++++++++++++++++++
 src/cell_options/mod.rs                       |  2 +-
 src/target/excel/cell_validation.rs           |  3 ++-
 .../google_sheets/google_sheets_cell.rs       |  6 +++---
 4 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/cell_options/data_validation.rs b/src/cell_options/data_validation.rs
index f39c385..c7cc6c0 100644
--- a/src/cell_options/data_validation.rs
+++ b/src/cell_options/data_validation.rs
@@ -34,3 +34,24 @@ pub enum DataValidation {
     ValueInList(Vec<Ast>),
     ValueInRange(a1::A1),
 }
+
+/// Can the name of a sheet not be part of a reference as it is?  It has to be a word that can't be
+/// taken for a reference itself.
+fn needs_quotes(sheet_name: &str) -> bool {
+    let matches = |re| regex::Regex::new(re).unwrap().is_match(sheet_name);
+
+    !matches(r"^[\p{L}_][\p{L}\p{N}_]*$")
+        || matches(r"(?i)^([A-Z]{1,3}[0-9]+|R[0-9]*(C[0-9]*)?|C[0-9]*)$")
+}
+
+/// A reference as formulas and data validations have it, with quotes around the name of the sheet
+/// if it needs them.
+pub(crate) fn display_reference(a1: &a1::A1) -> String {
+    let range = a1.clone().without_sheet_name();
+
+    match &a1.sheet_name {
+        Some(n) if needs_quotes(n) => format!("'{}'!{range}", n.replace('\'', "''")),
+        Some(n) => format!("{n}!{range}"),
+        None => range.to_string(),
+    }
+}
diff --git a/src/cell_options/mod.rs b/src/cell_options/mod.rs
index 7bb882f..daf7504 100644
--- a/src/cell_options/mod.rs
+++ b/src/cell_options/mod.rs
@@ -10,7 +10,7 @@ mod vertical_align;
 
 pub(crate) use border_side::BorderSide;
 pub(crate) use border_style::BorderStyle;
-pub(crate) use data_validation::DataValidation;
+pub(crate) use data_validation::{display_reference, DataValidation};
 pub(crate) use fill::{Fill, ROW_MAX};
 pub(crate) use horizontal_align::HorizontalAlign;
 pub(crate) use number_format::NumberFormat;
diff --git a/src/target/excel/cell_validation.rs b/src/target/excel/cell_validation.rs
index b45ca72..85591d0 100644
--- a/src/target/excel/cell_validation.rs
+++ b/src/target/excel/cell_validation.rs
@@ -1,4 +1,4 @@
-use crate::cell_options::DataValidation;
+use crate::cell_options::{display_reference, DataValidation};
 use umya_spreadsheet as u;
 
 #[derive(Debug)]
@@ -220,6 +220,7 @@ impl From<CellValidation> for u::DataValidation {
             }
 
             DataValidation::ValueInRange(a1) => {
+                let a1 = display_reference(&a1);
                 validation!(v, List, Equal, a1, format!("Value in range {a1}"))
             }
         };
diff --git a/src/target/google_sheets/google_sheets_cell.rs b/src/target/google_sheets/google_sheets_cell.rs
index 8b95391..34b5d58 100644
--- a/src/target/google_sheets/google_sheets_cell.rs
+++ b/src/target/google_sheets/google_sheets_cell.rs
@@ -7,8 +7,8 @@
 //!
 use crate::ast::{Ast, Node};
 use crate::cell_options::{
-    BorderSide, BorderStyle, DataValidation, HorizontalAlign, NumberFormat, TextFormat, TextWrap,
-    VerticalAlign,
+    display_reference, BorderSide, BorderStyle, DataValidation, HorizontalAlign, NumberFormat,
+    TextFormat, TextWrap, VerticalAlign,
 };
 use crate::{Cell, Rgb};
 use google_sheets4::api;
@@ -147,7 +147,7 @@ impl<'a> GoogleSheetsCell<'a> {
                     ),
                 },
                 DataValidation::ValueInRange(a1) => {
-                    let a1 = formula(&a1.to_string());
+                    let a1 = formula(&display_reference(a1));
                     validate_str!("ONE_OF_RANGE", a1)
                 }
             }),
-- 
2.43.0


From f6dab284ef318898cc68d61b589dea9f92a783c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:10 +0000
Subject: [PATCH 61/65] fix: accept sheet names with blanks and quotes in the
 ranges of data validations

---
 src/parser/cell_lexer/mod.rs       | 23 +++++++++++++++++++----
 src/parser/cell_parser/validate.rs | 23 +++++++++++++----------
 2 files changed, 32 insertions(+), 14 deletions(-)

diff --git a/src/parser/cell_lexer/mod.rs b/src/parser/cell_lexer/mod.rs
index 9d0b1dd..890b149 100644
--- a/src/parser/cell_lexer/mod.rs
+++ b/src/parser/cell_lexer/mod.rs
@@ -7,6 +7,7 @@ use super::TokenMatcher;
 use crate::error::{BadInput, ParseError, ParseResult};
 use crate::{ArcSourceCode, CharOffset};
 use csvp::Field;
+use std::cell;
 
 mod token;
 mod token_library;
@@ -118,10 +119,24 @@ impl<'a> CellLexer<'a> {
         self.take_whitespace();
 
         match token {
-            Token::A1 => self.take_while(token, |ch| {
-                // TODO: make a list of valid A1 characters somewhere
-                ch.is_alphanumeric() || ch == '!' || ch == '\'' || ch == ':' || ch == '$'
-            }),
+            Token::A1 => {
+                // anything can be in a quoted sheet name (a quote in it is doubled)
+                let in_quotes = cell::Cell::new(false);
+                self.take_while(token, |ch| {
+                    if ch == '\'' {
+                        in_quotes.set(!in_quotes.get());
+                    }
+
+                    // TODO: make a list of valid A1 characters somewhere
+                    in_quotes.get()
+                        || ch.is_alphanumeric()
+                        || ch == '_'
+                        || ch == '!'
+                        || ch == '\''
+                        || ch == ':'
+                        || ch == '$'
+                })
+            }
             Token::CloseParenthesis => self.take(token, ")"),
             Token::Color => self.take_color(),
             Token::Date => self.take_date(),
diff --git a/src/parser/cell_parser/validate.rs b/src/parser/cell_parser/validate.rs
index 0a347d1..8736c4d 100644
--- a/src/parser/cell_parser/validate.rs
+++ b/src/parser/cell_parser/validate.rs
@@ -43,15 +43,18 @@ fn is_a1(a1: &str) -> bool {
     .is_match(range)
 }
 
-/// `a1::new` can't handle quoted sheet names which aren't ASCII.  They only need their quotes if
-/// there is a quote in them.
-fn unquote_sheet_name(a1: &str) -> String {
-    match a1.strip_prefix('\'').and_then(|s| s.split_once("'!")) {
-        Some((sheet_name, range)) if !sheet_name.contains('\'') => {
-            format!("{sheet_name}!{range}")
-        }
-        _ => a1.to_string(),
-    }
+/// `a1::new` can't handle all quoted sheet names, so take them off before parsing the range.
+fn parse_reference(a1: &str) -> a1::Result<a1::A1> {
+    let Some((sheet_name, range)) = a1.rsplit_once('!') else {
+        return a1::new(a1);
+    };
+
+    let sheet_name = sheet_name
+        .strip_prefix('\'')
+        .and_then(|s| s.strip_suffix('\''))
+        .map_or_else(|| sheet_name.to_string(), |s| s.replace("''", "'"));
+
+    Ok(a1::new(range)?.with_sheet_name(&sheet_name))
 }
 
 impl CellParser<'_, '_> {
@@ -290,7 +293,7 @@ impl CellParser<'_, '_> {
             }
 
             DataValidation::ValueInRange(
-                a1::new(&unquote_sheet_name(&a1_match.str_match)).map_err(|e| {
+                parse_reference(&a1_match.str_match).map_err(|e| {
                     a1_match.into_parse_error(format!("Expected an A1 reference: {e}"))
                 })?,
             )
-- 
2.43.0


From 809c0d54cf54ec478017076bfe6629cb6fd171a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:11 +0000
Subject: [PATCH 62/65] fix: keep the quotes in the items of lists of Excel
 data validations

---
 src/target/excel/cell_validation.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/target/excel/cell_validation.rs b/src/target/excel/cell_validation.rs
index 85591d0..3a44786 100644
--- a/src/target/excel/cell_validation.rs
+++ b/src/target/excel/cell_validation.rs
@@ -1,3 +1,4 @@
+use crate::ast::{Ast, Node};
 use crate::cell_options::{display_reference, DataValidation};
 use umya_spreadsheet as u;
 
@@ -9,6 +10,14 @@ fn string_literal(text: &str) -> String {
     format!("\"{}\"", text.replace('"', "\"\""))
 }
 
+/// The text of an item of a list, which is a value rather than a formula
+fn list_item(item: &Ast) -> String {
+    match &**item {
+        Node::Text(t) => t.clone(),
+        _ => item.to_string(),
+    }
+}
+
 macro_rules! custom_validation {
     ($v:ident, $type:ident, $formula1:expr, $prompt:expr) => {
         $v.set_formula1($formula1.to_string())
@@ -205,7 +214,7 @@ impl From<CellValidation> for u::DataValidation {
                     "\"{}\"",
                     &values
                         .into_iter()
-                        .map(|v| v.to_string().replace('"', ""))
+                        .map(|v| list_item(&v).replace('"', "\"\""))
                         .collect::<Vec<String>>()
                         .join(", ")
                 );
-- 
2.43.0


From 2fde2ad32b08fdffc0542a975ccb94bea6ccef9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:32 +0000
Subject: [PATCH 63/65] fix: single-quoted items of lists with double quotes in
 them

---
 src/parser/cell_lexer/token_match.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/cell_lexer/token_match.rs b/src/parser/cell_lexer/token_match.rs
index b926d7c..dfafab9 100644
--- a/src/parser/cell_lexer/token_match.rs
+++ b/src/parser/cell_lexer/token_match.rs
@@ -71,7 +71,7 @@ impl TryFrom<TokenMatch> for Ast {
         Ok(Ast::new(match tm.token {
             Token::Date => Node::DateTime(DateTime::try_from(tm)?),
             Token::A1 | Token::Identifier => Node::Reference(tm.str_match),
-            Token::String => Node::parse_text(tm)?,
+            Token::String => Node::Text(tm.str_match),
             Token::Number | Token::PositiveNumber => {
                 if tm.str_match.contains('.') {
                     tm.into_float()?.into()
-- 
2.43.0


From 3db74223b78882f38381fe6e71c2f48ca90bfba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:56 +0000
Subject: [PATCH 64/65] fix: report an Excel output whose end can't be written

---
 src/target/excel/compilation_target.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/target/excel/compilation_target.rs b/src/target/excel/compilation_target.rs
index 58b10c6..24bdc93 100644
--- a/src/target/excel/compilation_target.rs
+++ b/src/target/excel/compilation_target.rs
@@ -1,6 +1,7 @@
 use super::super::{file_backer_upper, CompilationTarget};
 use super::Excel;
 use crate::{Module, Result};
+use std::{fs, result};
 use umya_spreadsheet as u;
 
 impl CompilationTarget for Excel<'_> {
@@ -22,7 +23,7 @@ impl CompilationTarget for Excel<'_> {
 
         self.build_worksheet(module, worksheet);
 
-        u::writer::xlsx::write(&spreadsheet, self.path.clone()).map_err(|e| {
+        self.save(&spreadsheet).map_err(|e| {
             self.compiler.output_error(format!(
                 "Unable to write target file {}: {e}",
                 self.path.display()
@@ -33,6 +34,26 @@ impl CompilationTarget for Excel<'_> {
     }
 }
 
+impl Excel<'_> {
+    /// Writes to a temporary file which replaces the output once all of it is written.
+    /// `umya_spreadsheet::writer::xlsx::write` does so as well, but it doesn't notice when the end
+    /// of the file can't be written (it never flushes its buffer) and replaces the output anyway.
+    fn save(&self, spreadsheet: &u::Spreadsheet) -> result::Result<(), u::XlsxError> {
+        let temporary = self.path.with_extension("xlsxtmp");
+
+        let file = fs::File::create(&temporary)?;
+
+        let saved = u::writer::xlsx::write_writer(spreadsheet, file)
+            .and_then(|()| Ok(fs::rename(&temporary, &self.path)?));
+
+        if saved.is_err() {
+            // the error which matters is the first one
+            let _ = fs::remove_file(&temporary);
+        }
+        saved
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 872057c515650c1a80ddd5ea594d0277ca26d66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:17 +0000
Subject: [PATCH 65/65] fix: escape the characters which XML can't hold in
 Excel files

---
 src/target/excel/cell_validation.rs |  5 ++--
 src/target/excel/excel_cell.rs      |  2 +-
 src/target/excel/mod.rs             | 44 ++++++++++++++++++++++++++---
 3 files changed, 44 insertions(+), 7 deletions(-)

diff --git a/src/target/excel/cell_validation.rs b/src/target/excel/cell_validation.rs
index 3a44786..6acbc0c 100644
--- a/src/target/excel/cell_validation.rs
+++ b/src/target/excel/cell_validation.rs
@@ -1,3 +1,4 @@
+use super::escape_control_characters;
 use crate::ast::{Ast, Node};
 use crate::cell_options::{display_reference, DataValidation};
 use umya_spreadsheet as u;
@@ -20,11 +21,11 @@ fn list_item(item: &Ast) -> String {
 
 macro_rules! custom_validation {
     ($v:ident, $type:ident, $formula1:expr, $prompt:expr) => {
-        $v.set_formula1($formula1.to_string())
+        $v.set_formula1(escape_control_characters(&$formula1.to_string()))
             .set_show_input_message(true)
             .set_show_error_message(true)
             .set_type(u::DataValidationValues::$type)
-            .set_prompt($prompt)
+            .set_prompt(escape_control_characters(&$prompt.to_string()))
     };
     ($v:ident, $type:ident, $formula1:expr, $formula2:expr, $prompt:expr) => {
         custom_validation!($v, $type, $formula1, $prompt).set_formula2($formula2.to_string())
diff --git a/src/target/excel/excel_cell.rs b/src/target/excel/excel_cell.rs
index a4fbdb5..3e6c5d7 100644
--- a/src/target/excel/excel_cell.rs
+++ b/src/target/excel/excel_cell.rs
@@ -150,7 +150,7 @@ impl<'a> ExcelCell<'a> {
         }
 
         if let Some(ff) = self.0.font_family.clone() {
-            font.set_name(ff);
+            font.set_name(super::escape_control_characters(&ff));
         }
 
         if let Some(fc) = self.0.font_color.clone() {
diff --git a/src/target/excel/mod.rs b/src/target/excel/mod.rs
index 96cb949..17ec794 100644
--- a/src/target/excel/mod.rs
+++ b/src/target/excel/mod.rs
@@ -20,6 +20,42 @@ type ExcelValue = u::Cell;
 const MAX_COLUMNS: usize = 16_384;
 const MAX_ROWS: usize = 1_048_576;
 
+/// XML can't hold most of the control characters.  In the texts of a workbook `_xHHHH_` stands for
+/// one.
+fn escape_control_characters(text: &str) -> String {
+    let mut escaped = String::with_capacity(text.len());
+    for c in text.chars() {
+        match c {
+            '\t' | '\n' | '\r' => escaped.push(c),
+            '\0'..='\u{1f}' | '\u{fffe}' | '\u{ffff}' => {
+                escaped.push_str(&format!("_x{:04X}_", u32::from(c)));
+            }
+            c => escaped.push(c),
+        }
+    }
+    escaped
+}
+
+/// A text as it's written to a workbook, where what looks like a `_xHHHH_` of the user's has to be
+/// told from the ones that stand for a character.
+fn escape_text(text: &str) -> String {
+    let is_escape = |rest: &str| {
+        let rest = rest.as_bytes();
+        rest.starts_with(b"_x")
+            && rest.get(2..6).is_some_and(|h| h.iter().all(u8::is_ascii_hexdigit))
+            && rest.get(6) == Some(&b'_')
+    };
+
+    let mut escaped = String::with_capacity(text.len());
+    for (i, c) in text.char_indices() {
+        if is_escape(&text[i..]) {
+            escaped.push_str("_x005F");
+        }
+        escaped.push(c);
+    }
+    escape_control_characters(&escaped)
+}
+
 #[derive(Debug)]
 pub(crate) struct Excel<'a> {
     path: path::PathBuf,
@@ -115,7 +151,7 @@ impl<'a> Excel<'a> {
         comment.set_author("csvpp");
 
         let rt = comment.get_text_mut();
-        rt.set_text(note);
+        rt.set_text(escape_text(note));
 
         let coord = comment.get_coordinate_mut();
         // the coordinates of a comment start from 1, ours from 0
@@ -139,7 +175,7 @@ impl<'a> Excel<'a> {
         if let Some(ast) = &cell.ast {
             match ast.clone().into_inner() {
                 Node::Boolean(b) => existing_cell.set_value_bool(b),
-                Node::Text(t) => existing_cell.set_value_string(t),
+                Node::Text(t) => existing_cell.set_value_string(escape_text(&t)),
                 Node::Float {
                     value,
                     percentage,
@@ -151,10 +187,10 @@ impl<'a> Excel<'a> {
                     percentage,
                     sign: None,
                 } if !percentage => existing_cell.set_value_number(value as f64),
-                _ => existing_cell.set_formula(ast.to_string()),
+                _ => existing_cell.set_formula(escape_control_characters(&ast.to_string())),
             };
         } else if !cell.parsed_value.is_empty() {
-            existing_cell.set_value_string(cell.parsed_value.clone());
+            existing_cell.set_value_string(escape_text(&cell.parsed_value));
         }
     }
 
-- 
2.43.0

