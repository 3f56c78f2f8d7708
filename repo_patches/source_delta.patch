From 02db7fa12dc0119eb7c2196007e9216ef29bc4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:34 +0000
Subject: [PATCH 01/24] fix: saturate the value of overlong \u{...} escapes
 instead of overflowing

---
 crates/joker/src/lexer.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/crates/joker/src/lexer.rs b/crates/joker/src/lexer.rs
index 2fb6e87..3606fee 100644
--- a/crates/joker/src/lexer.rs
+++ b/crates/joker/src/lexer.rs
@@ -11,13 +11,10 @@ use result::Result;
 use std::collections::VecDeque;
 
 fn add_digits(digits: Vec<u32>, radix: u32) -> u32 {
-    let mut place = 1;
-    let mut sum = 0;
-    for digit in digits.iter().rev() {
-        sum += digit * place;
-        place *= radix;
-    }
-    sum
+    // Saturate rather than overflow: any value above 0x10FFFF is equally illegal.
+    digits.iter().fold(0u32, |sum, &digit| {
+        sum.saturating_mul(radix).saturating_add(digit)
+    })
 }
 
 struct SpanTracker {
-- 
2.43.0


From 5e45242ad22020226683efecef6008b8fc64db77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:34 +0000
Subject: [PATCH 02/24] fix: report an error instead of panicking when a regexp
 or \u{ escape is cut off by the end of input

---
 crates/joker/src/lexer.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/crates/joker/src/lexer.rs b/crates/joker/src/lexer.rs
index 3606fee..2a68516 100644
--- a/crates/joker/src/lexer.rs
+++ b/crates/joker/src/lexer.rs
@@ -245,7 +245,9 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
         let mut s = String::new();
         self.reread('/');
         self.read_until_with(&|ch| ch == '/', &mut |this| { this.read_regexp_char(&mut s) })?;
-        self.reread('/');
+        if !self.matches('/') {
+            return Err(Error::UnterminatedRegExp(None));
+        }
         let flags = self.read_word_parts()?;
         Ok(span.end(self, TokenData::RegExp(RegExpLiteral {
             pattern: s,
@@ -275,7 +277,10 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
     fn read_regexp_class(&mut self, s: &mut String) -> Result<()> {
         s.push(self.reread('['));
         self.read_until_with(&|ch| ch == ']', &mut |this| { this.read_regexp_class_char(s) })?;
-        s.push(self.reread(']'));
+        if !self.matches(']') {
+            return Err(Error::UnterminatedRegExp(None));
+        }
+        s.push(']');
         Ok(())
     }
 
@@ -445,7 +450,10 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
                 digits.push(this.read_hex_digit_into(s)?);
                 Ok(())
             })?;
-            s.push(self.reread('}'));
+            if !self.matches('}') {
+                return Err(Error::MissingHexDigits);
+            }
+            s.push('}');
             Ok(add_digits(digits, 16))
         } else {
             let mut place = 0x1000;
-- 
2.43.0


From cc089bf391ad2c9c9441e5af9aac0628367f2679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:34 +0000
Subject: [PATCH 03/24] fix: a line terminator inside a regexp character class
 ends the literal

---
 crates/joker/src/lexer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/joker/src/lexer.rs b/crates/joker/src/lexer.rs
index 2a68516..8e50834 100644
--- a/crates/joker/src/lexer.rs
+++ b/crates/joker/src/lexer.rs
@@ -287,6 +287,7 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
     fn read_regexp_class_char(&mut self, s: &mut String) -> Result<()> {
         match self.peek() {
             Some('\\') => self.read_regexp_backslash(s),
+            Some(ch) if ch.is_es_newline() => Err(Error::UnterminatedRegExp(Some(ch))),
             Some(ch) => { s.push(self.reread(ch)); Ok(()) }
             None => Err(Error::UnterminatedRegExp(None))
         }
-- 
2.43.0


From 6252f5345f17cdfa9c833aa765f5cd867b1527f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:34 +0000
Subject: [PATCH 04/24] fix: U+2007 and U+2008 are white space (Unicode
 category Zs)

---
 crates/joker/src/char.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/joker/src/char.rs b/crates/joker/src/char.rs
index 82fc594..6a65a5a 100644
--- a/crates/joker/src/char.rs
+++ b/crates/joker/src/char.rs
@@ -24,7 +24,7 @@ impl ESCharExt for char {
         match self {
               '\u{0009}' | '\u{000b}' | '\u{000c}' | '\u{0020}' | '\u{00a0}'
             | '\u{1680}' | '\u{2000}' | '\u{2001}' | '\u{2002}' | '\u{2003}' | '\u{2004}'
-            | '\u{2005}' | '\u{2006}' | '\u{2009}' | '\u{200a}' | '\u{202f}' | '\u{205f}'
+            | '\u{2005}' | '\u{2006}' | '\u{2007}' | '\u{2008}' | '\u{2009}' | '\u{200a}' | '\u{202f}' | '\u{205f}'
             | '\u{3000}' | '\u{feff}' => true,
             _ => false
         }
-- 
2.43.0


From d50c0c473a1831135d606a297da6da7f7297d009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:34 +0000
Subject: [PATCH 05/24] fix: round binary, octal and hexadecimal literals once,
 to the nearest double

---
 crates/joker/src/token.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/crates/joker/src/token.rs b/crates/joker/src/token.rs
index edacecd..99990c1 100644
--- a/crates/joker/src/token.rs
+++ b/crates/joker/src/token.rs
@@ -212,11 +212,22 @@ impl NumberSource {
             }
             NumberSource::RadixInt(ref radix, ref src) => {
                 let radix = radix.value();
-                let mult = radix as f64;
-
-                src.chars()
-                .map(|c| c.to_digit(radix).unwrap() as f64)
-                .fold(0f64, |res, digit| res.mul_add(mult, digit))
+                let bits = radix.trailing_zeros();
+
+                // Accumulate the leading bits exactly and remember whether any later bit was
+                // set, so that the result is only rounded once.
+                let mut mantissa = 0u64;
+                let mut sticky = false;
+                let mut exp = 0;
+                for digit in src.chars().map(|c| c.to_digit(radix).unwrap()) {
+                    if mantissa >> 60 == 0 {
+                        mantissa = (mantissa << bits) | digit as u64;
+                    } else {
+                        exp += bits as i32;
+                        sticky |= digit != 0;
+                    }
+                }
+                ((mantissa | sticky as u64) as f64) * 2f64.powi(exp)
             }
             NumberSource::Float(ref ip, ref fp, None) => {
                 format!("{}.{}", format_int(ip), format_int(fp)).parse().unwrap()
-- 
2.43.0


From 387e5c2bed95bb30f2240f49f8e879bc0a7f1aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:12 +0000
Subject: [PATCH 06/24] fix: an escape in an identifier must denote a character
 an identifier may contain there

---
 crates/joker/src/lexer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/joker/src/lexer.rs b/crates/joker/src/lexer.rs
index 8e50834..a7af91b 100644
--- a/crates/joker/src/lexer.rs
+++ b/crates/joker/src/lexer.rs
@@ -556,9 +556,11 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
         }
         let mut dummy = String::with_capacity(4);
         let code_point = self.read_unicode_escape_seq(&mut dummy)?;
+        let first = s.text.is_empty();
         match char::from_u32(code_point) {
-            Some(ch) => { s.text.push(ch); Ok(()) }
-            None => Err(Error::IllegalUnicode(code_point))
+            Some(ch) if (first && ch.is_es_identifier_start())
+                     || (!first && ch.is_es_identifier_continue()) => { s.text.push(ch); Ok(()) }
+            _ => Err(Error::IllegalUnicode(code_point))
         }
     }
 
-- 
2.43.0


From 171888e38d44bc38f82817f0644c3cbf85dad071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:13 +0000
Subject: [PATCH 07/24] fix: a number must not be followed by an identifier
 that starts with an escape

---
 crates/joker/src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/joker/src/lexer.rs b/crates/joker/src/lexer.rs
index a7af91b..0239c8d 100644
--- a/crates/joker/src/lexer.rs
+++ b/crates/joker/src/lexer.rs
@@ -401,7 +401,7 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
             (None, _) => { panic!("read_number() called at EOF"); }
         }?;
         match self.peek() {
-            Some(ch) if ch.is_es_identifier_start() => { return Err(Error::IdAfterNumber(ch)); }
+            Some(ch) if ch == '\\' || ch.is_es_identifier_start() => { return Err(Error::IdAfterNumber(ch)); }
             Some(ch) if ch.is_es_dec_digit() => { return Err(Error::DigitAfterNumber(ch)); }
             _ => {}
         }
-- 
2.43.0


From a413471dd7b7894702a1e7d9e06df3fdb4fe0d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:13 +0000
Subject: [PATCH 08/24] fix: --> may close an HTML-like comment after a block
 comment that spans lines

---
 crates/joker/src/lexer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/joker/src/lexer.rs b/crates/joker/src/lexer.rs
index 0239c8d..cbdc237 100644
--- a/crates/joker/src/lexer.rs
+++ b/crates/joker/src/lexer.rs
@@ -606,7 +606,10 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
                 }
                 (Some('/'), Some('/')) => { self.skip_line_comment(2); }
                 (Some('/'), Some('*')) => {
-                    found_newline = self.skip_block_comment()? || found_newline;
+                    if self.skip_block_comment()? {
+                        found_newline = true;
+                        self.empty_line = true;
+                    }
                 }
                 (Some('<'), Some('!')) => {
                     if self.reader.peek(2) == Some('-') && self.reader.peek(3) == Some('-') {
-- 
2.43.0


From b61cabd65bc0c40550faa120c01cf6444cee9120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:14 +0000
Subject: [PATCH 09/24] fix: => is one token

---
 crates/joker/src/lexer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/joker/src/lexer.rs b/crates/joker/src/lexer.rs
index cbdc237..2a20d9e 100644
--- a/crates/joker/src/lexer.rs
+++ b/crates/joker/src/lexer.rs
@@ -676,6 +676,7 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
             (Some('='), Some('='))                       => {
                 Ok(self.read_punc2_3('=', TokenData::Eq, TokenData::StrictEq))
             }
+            (Some('='), Some('>'))                       => Ok(self.read_punc2(TokenData::Arrow)),
             (Some('='), _)                               => Ok(self.read_punc(TokenData::Assign)),
             (Some('+'), Some('+'))                       => Ok(self.read_punc2(TokenData::Inc)),
             (Some('+'), Some('='))                       => {
-- 
2.43.0


From cf15a2c4344951a5f9924d4bba584e55faee827c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:15 +0000
Subject: [PATCH 10/24] fix: integers are numbers of the wanted type however
 they are asked for

---
 crates/unjson/src/unjson.rs | 45 +++++++++++++------------------------
 1 file changed, 15 insertions(+), 30 deletions(-)

diff --git a/crates/unjson/src/unjson.rs b/crates/unjson/src/unjson.rs
index a7e9af4..c1b7b7b 100644
--- a/crates/unjson/src/unjson.rs
+++ b/crates/unjson/src/unjson.rs
@@ -73,25 +73,22 @@ impl ValueEx for Value {
 
     fn as_i64_opt(&self) -> Result<Option<i64>> {
         Ok(match self {
-            &Value::Null       => None,
-            &Value::I64(ref v) => Some(*v),
-            _ => { return type_error("i64 or null", self.ty()); }
+            &Value::Null => None,
+            _ => Some(self.as_i64().ok_type("i64 or null", self.ty())?)
         })
     }
 
     fn as_u64_opt(&self) -> Result<Option<u64>> {
         Ok(match self {
-            &Value::Null       => None,
-            &Value::U64(ref v) => Some(*v),
-            _ => { return type_error("u64 or null", self.ty()); }
+            &Value::Null => None,
+            _ => Some(self.as_u64().ok_type("u64 or null", self.ty())?)
         })
     }
 
     fn as_f64_opt(&self) -> Result<Option<f64>> {
         Ok(match self {
-            &Value::Null       => None,
-            &Value::F64(ref v) => Some(*v),
-            _ => { return type_error("f64 or null", self.ty()); }
+            &Value::Null => None,
+            _ => Some(self.as_f64().ok_type("f64 or null", self.ty())?)
         })
     }
 
@@ -188,47 +185,35 @@ impl Unjson for Value {
     }
 
     fn to_i64(&self) -> Result<i64> {
-        match *self {
-            Value::I64(i) => Ok(i),
-            _ => { return type_error("i64", self.ty()); }
-        }
+        self.as_i64().ok_type("i64", self.ty())
     }
 
     fn to_i64_opt(&self) -> Result<Option<i64>> {
         match *self {
-            Value::I64(i) => Ok(Some(i)),
-            Value::Null   => Ok(None),
-            _ => { return type_error("i64", self.ty()); }
+            Value::Null => Ok(None),
+            _ => self.to_i64().map(Some)
         }
     }
 
     fn to_u64(&self) -> Result<u64> {
-        match *self {
-            Value::U64(u) => Ok(u),
-            _ => { return type_error("u64", self.ty()); }
-        }
+        self.as_u64().ok_type("u64", self.ty())
     }
 
     fn to_u64_opt(&self) -> Result<Option<u64>> {
         match *self {
-            Value::U64(u) => Ok(Some(u)),
-            Value::Null   => Ok(None),
-            _ => { return type_error("u64", self.ty()); }
+            Value::Null => Ok(None),
+            _ => self.to_u64().map(Some)
         }
     }
 
     fn to_f64(&self) -> Result<f64> {
-        match *self {
-            Value::F64(f) => Ok(f),
-            _ => { return type_error("f64", self.ty()); }
-        }
+        self.as_f64().ok_type("f64", self.ty())
     }
 
     fn to_f64_opt(&self) -> Result<Option<f64>> {
         match *self {
-            Value::F64(f) => Ok(Some(f)),
-            Value::Null   => Ok(None),
-            _ => { return type_error("f64", self.ty()); }
+            Value::Null => Ok(None),
+            _ => self.to_f64().map(Some)
         }
     }
 
-- 
2.43.0


From 13879fdcdd479be101f15cef4776158123841c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:23 +0000
Subject: [PATCH 11/24] fix: report import and export as unsupported instead of
 panicking

---
 src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index f508913..9205e49 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -301,9 +301,9 @@ impl<I: Iterator<Item=char>> Parser<I> {
             match self.peek()?.value {
                 TokenData::EOF => break,
                 // ES6: import declaration
-                TokenData::Reserved(Reserved::Import) => unimplemented!(),
+                TokenData::Reserved(Reserved::Import) => { return Err(Error::UnsupportedFeature("import")); }
                 // ES6: export declaration
-                TokenData::Reserved(Reserved::Export) => unimplemented!(),
+                TokenData::Reserved(Reserved::Export) => { return Err(Error::UnsupportedFeature("export")); }
                 _ => { }
             }
 
-- 
2.43.0


From 84829bd93559f5353072063ef27c8bc4fc5faacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:23 +0000
Subject: [PATCH 12/24] fix: a script ends at the end of the input, not at a
 stray } or case

---
 src/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 9205e49..ad39b33 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -225,7 +225,9 @@ impl<I: Iterator<Item=char>> Parser<I> {
         debug_assert_eq!(self.goal, Goal::Unknown);
         self.goal = Goal::Script;
         self.context.strict = TriState::from(strict);
-        self.script_body()
+        let script = self.script_body()?;
+        self.expect(TokenData::EOF)?;
+        Ok(script)
     }
 
     fn script_body(&mut self) -> Result<Script> {
-- 
2.43.0


From a396996c6a14db95d171ab2021f7ec77dbb43255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:23 +0000
Subject: [PATCH 13/24] fix: recognise "use strict": the text of a directive
 does not include the quotes

---
 crates/easter/src/stmt.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/easter/src/stmt.rs b/crates/easter/src/stmt.rs
index c54c07e..842d66b 100644
--- a/crates/easter/src/stmt.rs
+++ b/crates/easter/src/stmt.rs
@@ -129,7 +129,8 @@ pub struct Dir {
 impl Dir {
     pub fn pragma(&self) -> &str {
         if let Some(ref source) = self.string.source {
-            source
+            // the source text includes the quotes
+            &source[1..source.len() - 1]
         } else {
             &self.string.value
         }
-- 
2.43.0


From 91843fdd89f5a8e5ed3d3dcdeb38c370924838d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:23 +0000
Subject: [PATCH 14/24] fix: break, continue and return may end the input

---
 src/state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/state.rs b/src/state.rs
index 48770bd..524836e 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -82,6 +82,6 @@ impl<I: Iterator<Item=char>> State for Parser<I> {
 
     fn has_arg_same_line(&mut self) -> Result<bool> {
         let next = self.peek()?;
-        Ok(!next.newline && next.value != TokenData::Semi && next.value != TokenData::RBrace)
+        Ok(!next.newline && next.value != TokenData::Semi && next.value != TokenData::RBrace && next.value != TokenData::EOF)
     }
 }
-- 
2.43.0


From 0ddd6409409ae3f16e381116a6c2ed712e314c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:23 +0000
Subject: [PATCH 15/24] fix: the operand of an outer new includes the property
 accesses after the inner arguments

---
 src/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index ad39b33..f917869 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1390,7 +1390,11 @@ impl<I: Iterator<Item=char>> Parser<I> {
         for new in news.into_iter().rev() {
             has_args = has_args && self.peek_op()?.value == TokenData::LParen;
             base = if has_args {
-                self.arguments()?.append_to_new(new, base)
+                let mut base = self.arguments()?.append_to_new(new, base);
+                while let Some(deref) = self.deref_opt()? {
+                    base = deref.append_to(base);
+                }
+                base
             } else {
                 let location = span(&Some(new.location), &base);
                 Expr::New(location, Box::new(base), None)
-- 
2.43.0


From 04f9ad9ca5f3ad25ded59106af1f241eb47d4f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:23 +0000
Subject: [PATCH 16/24] fix: a spread element that has a location is a rest
 element when it is assigned to

---
 crates/easter/src/cover.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/easter/src/cover.rs b/crates/easter/src/cover.rs
index 491e23a..89ef354 100644
--- a/crates/easter/src/cover.rs
+++ b/crates/easter/src/cover.rs
@@ -64,9 +64,9 @@ impl IntoAssignPatt for Expr {
                 let mut patts = Vec::with_capacity(exprs.len());
                 let mut rest = None;
                 if let Some(last) = exprs.pop() {
-                    if let Some(ExprListItem::Spread(None, expr)) = last {
+                    if let Some(ExprListItem::Spread(location, expr)) = last {
                         rest = Some(Box::new(RestPatt {
-                            location: None,
+                            location: location,
                             patt: expr.into_assign_patt()?
                         }));
                     } else {
-- 
2.43.0


From f7de1fa7dea28e653773b6f23e6e4bd33d488c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:23 +0000
Subject: [PATCH 17/24] fix: what follows the in of a for statement may be a
 comma expression

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index f917869..8eec2e7 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -922,7 +922,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
 
     // 'for' '(' head 'in' .
     fn more_for_in(&mut self, head: Box<ForInHead>) -> Result<Stmt> {
-        let obj = self.allow_in(true, |this| this.assignment_expression())?;
+        let obj = self.allow_in(true, |this| this.expression())?;
         self.expect(TokenData::RParen)?;
         let body = Box::new(self.iteration_body()?);
         Ok(Stmt::ForIn(None, head, obj, body))
-- 
2.43.0


From e4f0902e594ead08f9feebb639294cc9d4c7930c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:23 +0000
Subject: [PATCH 18/24] fix: a slash after a string at the start of a body is
 division

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 8eec2e7..9b99d01 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -168,7 +168,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
         let token1 = self.read()?;
 
         if let TokenData::String(ref literal) = token1.value {
-            if !self.peek()?.expression_continuation() {
+            if !self.peek_op()?.expression_continuation() {
                 return Ok(Some(span.end_with_auto_semi(self, Newline::Required, |semi| Dir {
                     location: None,
                     string: literal.clone(),
-- 
2.43.0


From 56c0841cdcd12123c1b1d785a1d72621b3b5d797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:23 +0000
Subject: [PATCH 19/24] fix: the location of a conditional expression includes
 its test

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 9b99d01..0f49259 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1623,7 +1623,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
             let cons = self.allow_in(true, |this| this.assignment_expression())?;
             self.expect(TokenData::Colon)?;
             let alt = self.assignment_expression()?;
-            let location = span(&cons, &alt);
+            let location = span(&left, &alt);
             return Ok(Expr::Cond(location, Box::new(left), Box::new(cons), Box::new(alt)));
         }
         Ok(left)
-- 
2.43.0


From f6589dac6f07fc8d2eab8b213bfa341e9705f5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:23 +0000
Subject: [PATCH 20/24] fix: the location of an increment or decrement includes
 its operand

---
 src/parser.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 0f49259..f928e89 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1524,8 +1524,8 @@ impl<I: Iterator<Item=char>> Parser<I> {
             arg = match arg.into_assign_target().map(Box::new) {
                 Ok(target) => {
                     match postfix {
-                        Postfix::Inc(location) => Expr::PostInc(Some(location), target),
-                        Postfix::Dec(location) => Expr::PostDec(Some(location), target)
+                        Postfix::Inc(location) => Expr::PostInc(span(&arg_location, &Some(location)), target),
+                        Postfix::Dec(location) => Expr::PostDec(span(&arg_location, &Some(location)), target)
                     }
                 }
                 Err(cover_err) => { return Err(Error::InvalidLHS(arg_location, cover_err)); }
@@ -1542,8 +1542,8 @@ impl<I: Iterator<Item=char>> Parser<I> {
                     arg = match arg.into_assign_target().map(Box::new) {
                         Ok(target) => {
                             match prefix {
-                                Prefix::Inc(location) => Expr::PreInc(Some(location), target),
-                                Prefix::Dec(location) => Expr::PreDec(Some(location), target),
+                                Prefix::Inc(location) => Expr::PreInc(span(&Some(location), &arg_location), target),
+                                Prefix::Dec(location) => Expr::PreDec(span(&Some(location), &arg_location), target),
                                 Prefix::Unop(_) => unreachable!()
                             }
                         }
-- 
2.43.0


From 6088b325b43b18a067c044fc2ca8cbf8c948e3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:14 +0000
Subject: [PATCH 21/24] fix: reject an initializer in the head of an ESTree
 for-of, as in for-in

---
 crates/estree/src/stmt.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/estree/src/stmt.rs b/crates/estree/src/stmt.rs
index fc32cb0..2148121 100644
--- a/crates/estree/src/stmt.rs
+++ b/crates/estree/src/stmt.rs
@@ -91,6 +91,9 @@ impl IntoForOfHead for Object {
                 }
                 let mut obj = dtors.remove(0).into_object()?;
                 let lhs = obj.extract_patt("id")?;
+                if let Some(init) = obj.extract_expr_opt("init")? {
+                    return Err(Error::UnexpectedInitializer(init));
+                }
                 match &kind[..] {
                     "var" => ForOfHead::Var(None, lhs),
                     "let" => ForOfHead::Let(None, lhs),
-- 
2.43.0


From 1130957d3942f7d69329adf9cdd3299a11b5eed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:12 +0000
Subject: [PATCH 22/24] fix: locations start at the first token and end with
 the last, not where the lexer has looked ahead to

---
 crates/joker/src/lexer.rs | 30 +++++++++++++++++++++++-------
 src/parser.rs             | 20 ++++++++++----------
 src/track.rs              | 38 +++++++++++++++++++-------------------
 3 files changed, 52 insertions(+), 36 deletions(-)

diff --git a/crates/joker/src/lexer.rs b/crates/joker/src/lexer.rs
index 2a20d9e..5f7127a 100644
--- a/crates/joker/src/lexer.rs
+++ b/crates/joker/src/lexer.rs
@@ -34,7 +34,9 @@ pub struct Lexer<I> {
     reader: Reader<I>,
     lookahead: VecDeque<Token>,
     wordmap: WordMap,
-    empty_line: bool
+    empty_line: bool,
+    // where the last tokens that were consumed end, latest first (as many as can be unread)
+    ends: [Posn; 3]
 }
 
 impl<I> Lexer<I> where I: Iterator<Item=char> {
@@ -45,7 +47,8 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
             reader: Reader::new(chars),
             lookahead: VecDeque::with_capacity(2),
             wordmap: WordMap::new(),
-            empty_line: true
+            empty_line: true,
+            ends: [Posn::origin(); 3]
         }
     }
 
@@ -69,18 +72,26 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
     }
 
     pub fn reread_token(&mut self) -> Token {
-        self.lookahead.pop_front().unwrap()
+        let token = self.lookahead.pop_front().unwrap();
+        self.consumed(token)
     }
 
     pub fn read_token(&mut self, operator: bool) -> Result<Token> {
-        match self.lookahead.pop_front() {
-            Some(token) => Ok(token),
-            None => self.read_next_token(operator)
-        }
+        let token = match self.lookahead.pop_front() {
+            Some(token) => token,
+            None => self.read_next_token(operator)?
+        };
+        Ok(self.consumed(token))
+    }
+
+    fn consumed(&mut self, token: Token) -> Token {
+        self.ends = [token.location.end, self.ends[0], self.ends[1]];
+        token
     }
 
     pub fn unread_token(&mut self, token: Token) {
         debug_assert!(self.lookahead.len() < self.lookahead.capacity(), "Lookahead buffer is full");
+        self.ends = [self.ends[1], self.ends[2], Posn::origin()];
         self.lookahead.push_front(token)
     }
 
@@ -90,6 +101,11 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
         self.reader.curr_posn()
     }
 
+    // where the last token that was consumed ends, however far the lexer has looked ahead
+    pub fn last_posn(&self) -> Posn {
+        self.ends[0]
+    }
+
     fn start(&self) -> SpanTracker {
         SpanTracker { start: self.posn() }
     }
diff --git a/src/parser.rs b/src/parser.rs
index f928e89..f1ecf2f 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -164,7 +164,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
     }
 
     fn match_directive_opt(&mut self) -> Result<Option<Dir>> {
-        let span = self.start();
+        let span = self.start()?;
         let token1 = self.read()?;
 
         if let TokenData::String(ref literal) = token1.value {
@@ -526,7 +526,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
     }
 
     fn expression_statement(&mut self) -> Result<Stmt> {
-        let span = self.start();
+        let span = self.start()?;
         let expr = self.allow_in(true, |this| this.expression())?;
         Ok(span.end_with_auto_semi(self, Newline::Required, |semi| Stmt::Expr(None, expr, semi))?)
     }
@@ -544,7 +544,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
     }
 
     fn var_statement(&mut self) -> Result<Stmt> {
-        let span = self.start();
+        let span = self.start()?;
         self.reread(TokenData::Reserved(Reserved::Var));
         let dtors = self.comma_separated(Self::declarator)?;
         span.end_with_auto_semi(self, Newline::Required, |semi| Stmt::Var(None, dtors, semi))
@@ -557,7 +557,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
     }
 
     fn const_declaration(&mut self) -> Result<Decl> {
-        let span = self.start();
+        let span = self.start()?;
         self.reread(TokenData::Reserved(Reserved::Const));
         let dtors = self.comma_separated(Self::const_declarator)?;
         span.end_with_auto_semi(self, Newline::Required, |semi| Decl::Const(None, dtors, semi))
@@ -673,7 +673,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
     }
 
     fn do_statement(&mut self) -> Result<Stmt> {
-        let span = self.start();
+        let span = self.start()?;
         self.reread(TokenData::Reserved(Reserved::Do));
         let body = Box::new(self.iteration_body()?);
         self.expect(TokenData::Reserved(Reserved::While))?;
@@ -1016,7 +1016,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
     }
 
     fn break_statement(&mut self) -> Result<Stmt> {
-        let span = self.start();
+        let span = self.start()?;
         let break_token = self.reread(TokenData::Reserved(Reserved::Break));
         let arg = if self.has_arg_same_line()? {
             let id = self.id(false)?;
@@ -1036,7 +1036,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
     }
 
     fn continue_statement(&mut self) -> Result<Stmt> {
-        let span = self.start();
+        let span = self.start()?;
         let continue_token = self.reread(TokenData::Reserved(Reserved::Continue));
         let arg = if self.has_arg_same_line()? {
             let id = self.id(false)?;
@@ -1058,7 +1058,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
     }
 
     fn return_statement(&mut self) -> Result<Stmt> {
-        let span = self.start();
+        let span = self.start()?;
         self.reread(TokenData::Reserved(Reserved::Return));
         let arg = if self.has_arg_same_line()? {
             Some(self.allow_in(true, |this| this.expression())?)
@@ -1088,7 +1088,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
     }
 
     fn throw_statement(&mut self) -> Result<Stmt> {
-        let span = self.start();
+        let span = self.start()?;
         let token = self.reread(TokenData::Reserved(Reserved::Throw));
         if !self.has_arg_same_line()? {
             return Err(Error::ThrowArgument(token));
@@ -1144,7 +1144,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
     }
 
     fn debugger_statement(&mut self) -> Result<Stmt> {
-        let span = self.start();
+        let span = self.start()?;
         self.reread(TokenData::Reserved(Reserved::Debugger));
         Ok(span.end_with_auto_semi(self, Newline::Required, |semi| Stmt::Debugger(None, semi))?)
     }
diff --git a/src/track.rs b/src/track.rs
index 8690035..bdb0e58 100644
--- a/src/track.rs
+++ b/src/track.rs
@@ -9,7 +9,7 @@ use state::State;
 pub trait Tracking {
     fn vec_span<T: TrackingRef>(&self, v: &Vec<T>) -> Option<Span>;
     fn posn(&self) -> Posn;
-    fn start(&self) -> SpanTracker;
+    fn start(&mut self) -> Result<SpanTracker>;
     fn span<F, T>(&mut self, parse: &mut F) -> Result<T>
       where F: FnMut(&mut Self) -> Result<T>,
             T: TrackingMut;
@@ -25,22 +25,22 @@ impl<I> Tracking for Parser<I> where I: Iterator<Item=char> {
         span(&v[0], &v[len - 1])
     }
 
+    // The end of what has been parsed so far. The lexer itself may be one or two tokens ahead.
     fn posn(&self) -> Posn {
-        self.lexer.posn()
+        self.lexer.last_posn()
     }
 
-    fn start(&self) -> SpanTracker {
-        SpanTracker::new(self.posn())
+    fn start(&mut self) -> Result<SpanTracker> {
+        Ok(SpanTracker::new(self.peek()?.location.start))
     }
 
     fn span<F, T>(&mut self, parse: &mut F) -> Result<T>
       where F: FnMut(&mut Self) -> Result<T>,
             T: TrackingMut
     {
-        let start = self.posn();
+        let span = self.start()?;
         let mut value = parse(self)?;
-        let end = self.posn();
-        *value.tracking_mut() = Some(Span { start: start, end: end });
+        *value.tracking_mut() = Some(span.end(self));
         Ok(value)
     }
 }
@@ -56,36 +56,36 @@ pub struct SpanTracker {
 }
 
 impl SpanTracker {
-/*
-    pub fn end<I, T>(&self, parser: &Parser<I>, value: T) -> Tracked<T>
-      where I: Iterator<Item=char>
-    {
-        Tracked { value: value, location: Some(Span { start: self.start, end: parser.posn() }) }
-    }
-*/
-
     pub fn new(start: Posn) -> Self {
         SpanTracker { start: start }
     }
 
+    pub fn end<I>(&self, parser: &Parser<I>) -> Span
+      where I: Iterator<Item=char>
+    {
+        let end = parser.posn();
+        // nothing parsed: an empty span
+        Span { start: self.start, end: if end.offset < self.start.offset { self.start } else { end } }
+    }
+
     pub fn end_with_auto_semi<I, T, F>(&self, parser: &mut Parser<I>, newline: Newline, cons: F)
         -> Result<T>
       where I: Iterator<Item=char>,
             F: FnOnce(Semi) -> T,
             T: TrackingMut
     {
-        let before = parser.posn();
+        let before = self.end(parser);
         match parser.peek()? {
             &Token { value: TokenData::Semi, location, .. } => {
                 parser.reread(TokenData::Semi);
                 let mut result = cons(Semi::Explicit(Some(location.start)));
-                *result.tracking_mut() = Some(Span { start: self.start, end: parser.posn() });
+                *result.tracking_mut() = Some(self.end(parser));
                 Ok(result)
             }
             &Token { value: TokenData::RBrace, .. }
           | &Token { value: TokenData::EOF, .. } => {
                 let mut result = cons(Semi::Inserted);
-                *result.tracking_mut() = Some(Span { start: self.start, end: before });
+                *result.tracking_mut() = Some(before);
                 Ok(result)
             }
             &Token { newline: found_newline, .. } => {
@@ -94,7 +94,7 @@ impl SpanTracker {
                     return Err(Error::FailedASI(token));
                 }
                 let mut result = cons(Semi::Inserted);
-                *result.tracking_mut() = Some(Span { start: self.start, end: before });
+                *result.tracking_mut() = Some(before);
                 Ok(result)
             }
         }
-- 
2.43.0


From 61048b61fe0bf5d7ac8c4cdfa0c6bdb87cf7db66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:32 +0000
Subject: [PATCH 23/24] fix: the location of an accessor or method includes its
 closing brace

---
 src/parser.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index f1ecf2f..6c6a2a0 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -430,9 +430,9 @@ impl<I: Iterator<Item=char>> Parser<I> {
     fn function_body(&mut self, params: &[Patt<Id>]) -> Result<Script> {
         let inner = self.context.new_function();
         let outer = replace(&mut self.context, inner);
-        self.expect(TokenData::LBrace)?;
+        let open = self.expect(TokenData::LBrace)?;
         // ES6: if the body has "use strict" check for simple parameters
-        let body = self.script_body()?;
+        let mut body = self.script_body()?;
         self.strict_check(|_| {
             if body.dirs.iter().any(|dir| dir.pragma() == "use strict") {
                 for param in params {
@@ -443,7 +443,8 @@ impl<I: Iterator<Item=char>> Parser<I> {
             }
             None
         })?;
-        self.expect(TokenData::RBrace)?;
+        let close = self.expect(TokenData::RBrace)?;
+        body.location = span(&Some(open.location), &Some(close.location));
         self.context = outer;
         Ok(body)
     }
-- 
2.43.0


From f3383477525266da04f71ac1db4c56213de2518d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:18 +0000
Subject: [PATCH 24/24] fix: for (const without a name points at the token that
 is no name, as for let and var

---
 src/parser.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 6c6a2a0..fd4c0f2 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -828,8 +828,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
     fn for_const(&mut self) -> Result<Stmt> {
         let const_token = self.reread(TokenData::Reserved(Reserved::Const));
         if !self.peek()?.first_binding() {
-            self.lexer.unread_token(const_token);
-            return self.for_expr();
+            return self.unexpected();
         }
         let const_location = Some(const_token.location);
         // 'for' '(' 'const' . !{id, patt} ==> error
-- 
2.43.0

