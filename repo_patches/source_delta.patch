From 852a4624fa00e75da5a99e75b98de04ad3f4d584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:22 +0000
Subject: [PATCH 01/20] fix: parsing an empty input panicked instead of
 returning an error

The span of the unexpected end of expression error underflowed when
nothing at all had been read.
---
 src/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index dd92346..cba659f 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -566,7 +566,8 @@ impl ParseError {
             kind: ErrorKind::UnexpectedEndOfExpression,
             // - 1 because we want to point to the last character
             // (without it, we would point to a `None` value)
-            span: (parser.cursor - 1).into(),
+            // (saturating because an empty input has no last character)
+            span: parser.cursor.saturating_sub(1).into(),
             src: trust_me!(str::from_utf8_unchecked(parser.input)).to_owned(),
         }
     }
-- 
2.43.0


From 5cd727a58a9441e028094acc5ee2bd50b283e9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:22 +0000
Subject: [PATCH 02/20] fix: a repeated factorial was parsed as a binary
 operator and panicked

`3!!2` reached the unreachable!() arm of the binary operators.
`3!!` is now `(3!)!`.
---
 src/parser.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index cba659f..9ec973c 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -164,8 +164,9 @@ impl<'input, 'ctx> ParserImpl<'input, 'ctx> {
     ) -> Result<Element<'input>, ParseError> {
         let mut el = self.atom()?;
 
-        // Right-associative unary operators
-        if self.consume_if_eq(b'!') {
+        // Postfix unary operators
+        // consumes all of them, a `!` must never be seen as a binary operator
+        while self.consume_if_eq(b'!') {
             el = UnOp::new_element(Operator::Factorial, el);
         }
 
-- 
2.43.0


From 3949ab12a6710c6f1adac3de79ba9da5c811358b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:22 +0000
Subject: [PATCH 03/20] fix: adjacent number literals were accepted and
 depended on optimisations

`2+3 4` was read as `(2+3)*4` and `-3 4` as `(-3)*4`, whereas `(2+3) 4`
was accepted without compile-time optimisations and rejected with them.
Whether a number may be implicitly multiplied now depends only on the
token right before it.
---
 src/parser.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 9ec973c..dfb5c70 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -118,6 +118,8 @@ struct ParserImpl<'input, 'ctx> {
     cursor: usize,
     /// The context of the parser.
     ctx: &'ctx Context<'ctx>,
+    /// Whether the last consumed token is a number literal.
+    after_number: bool,
 }
 
 impl<'input, 'ctx> ParserImpl<'input, 'ctx> {
@@ -127,6 +129,7 @@ impl<'input, 'ctx> ParserImpl<'input, 'ctx> {
             input: input.as_bytes(),
             cursor: 0,
             ctx,
+            after_number: false,
         }
     }
 
@@ -167,12 +170,13 @@ impl<'input, 'ctx> ParserImpl<'input, 'ctx> {
         // Postfix unary operators
         // consumes all of them, a `!` must never be seen as a binary operator
         while self.consume_if_eq(b'!') {
+            self.after_number = false;
             el = UnOp::new_element(Operator::Factorial, el);
         }
 
         // BinOp with higher precedence
         while let Some((op, op_precedence)) =
-            self.get_operator_infos(&el, precedence)
+            self.get_operator_infos(precedence)
         {
             let rhs = self.element(op_precedence)?;
             el = BinOp::new_element(op, el, rhs);
@@ -193,9 +197,17 @@ impl<'input, 'ctx> ParserImpl<'input, 'ctx> {
         };
         let atom = match next {
             /* Number */
-            b'0'..=b'9' | b'.' => self.parse_number()?,
+            b'0'..=b'9' | b'.' => {
+                let number = self.parse_number()?;
+                self.after_number = true;
+                number
+            },
             /* Identifier */
-            b'A'..=b'Z' | b'a'..=b'z' => self.parse_identifier()?,
+            b'A'..=b'Z' | b'a'..=b'z' => {
+                let identifier = self.parse_identifier()?;
+                self.after_number = false;
+                identifier
+            },
             /* Unary expression */
             op @ (b'+' | b'-') => {
                 self.cursor += 1;
@@ -213,6 +225,7 @@ impl<'input, 'ctx> ParserImpl<'input, 'ctx> {
                 self.cursor += 1;
                 let el = self.element(precedence::NO_PRECEDENCE)?;
                 self.assert_eq_consume(b')')?;
+                self.after_number = false;
                 el
             },
             /* Errors */
@@ -406,7 +419,6 @@ impl ParserImpl<'_, '_> {
     /// Returns the operator and its precedence if it's a valid operator.
     fn get_operator_infos(
         &mut self,
-        current_atom: &Element<'_>,
         precedence: usize,
     ) -> Option<(Operator, usize)> {
         use precedence::IMPLICIT_MULTIPLICATION_INFO;
@@ -430,8 +442,8 @@ impl ParserImpl<'_, '_> {
             // we can consider its an implicit multiplication
             b'a'..=b'z' | b'(' => Some(IMPLICIT_MULTIPLICATION_INFO),
             // if it's a number implicit multiplication is
-            // only possible if previous atom isn't a number
-            b'0'..=b'9' if !matches!(*current_atom, Element::Number(_)) => {
+            // only possible if the token before it isn't a number
+            b'0'..=b'9' if !self.after_number => {
                 Some(IMPLICIT_MULTIPLICATION_INFO)
             },
             _ => None,
-- 
2.43.0


From 56b6a07b99ed71e9007c537df4b7bb10c4c4358e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:22 +0000
Subject: [PATCH 04/20] fix: implicit multiplication ignored identifiers
 starting with an uppercase letter

`2x` was accepted but `2X` was an unexpected token.
---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index dfb5c70..ecab551 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -440,7 +440,7 @@ impl ParserImpl<'_, '_> {
             _ if IMPLICIT_MULTIPLICATION_INFO.1 <= precedence => None,
             // if it's an identifier or an opening parenthesis
             // we can consider its an implicit multiplication
-            b'a'..=b'z' | b'(' => Some(IMPLICIT_MULTIPLICATION_INFO),
+            b'A'..=b'Z' | b'a'..=b'z' | b'(' => Some(IMPLICIT_MULTIPLICATION_INFO),
             // if it's a number implicit multiplication is
             // only possible if the token before it isn't a number
             b'0'..=b'9' if !self.after_number => {
-- 
2.43.0


From 11db5f3102d05cf085fd30ad6f592917801298a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:22 +0000
Subject: [PATCH 05/20] fix: operations on two numbers were folded to wrong
 results

The special cases were tried before plain arithmetic, so `-5 / 0` folded
to `inf` (is `-inf`), `0 ^ -1` to `0` (is `inf`), `2.5 % 1` to `0` (is
`0.5`), and `0 - 5` wasn't folded at all.
---
 src/element/simplify.rs | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/src/element/simplify.rs b/src/element/simplify.rs
index 12c2151..ecebe78 100644
--- a/src/element/simplify.rs
+++ b/src/element/simplify.rs
@@ -50,6 +50,25 @@ impl<'a> Simplify<'a> for BinOp<'a> {
         self.lhs = self.lhs.simplify();
         self.rhs = self.rhs.simplify();
         match self {
+            /////////////////////////// 2 Numbers ///////////////////////////
+            // must stay first, the rules below aren't exact for every number
+            BinOp {
+                op,
+                rhs: Number(rhs),
+                lhs: Number(lhs),
+            } => {
+                #[allow(clippy::unreachable)]
+                let result = match op {
+                    Plus => lhs + rhs,
+                    Minus => lhs - rhs,
+                    Times => lhs * rhs,
+                    Divide => lhs / rhs,
+                    Power => lhs.powf(rhs),
+                    Modulo => lhs % rhs,
+                    Factorial => unreachable!(),
+                };
+                Number(result)
+            },
             /////////////////////////// Additions ///////////////////////////
             // 0 + a => a
             BinOp { op: Plus, lhs, rhs } if lhs == Number(0.0) => rhs,
@@ -217,24 +236,6 @@ impl<'a> Simplify<'a> for BinOp<'a> {
                 lhs,
                 rhs,
             } if lhs == rhs => Number(0.0),
-            /////////////////////////// 2 Numbers ///////////////////////////
-            BinOp {
-                op,
-                rhs: Number(rhs),
-                lhs: Number(lhs),
-            } => {
-                #[allow(clippy::unreachable)]
-                let result = match op {
-                    Plus => lhs + rhs,
-                    Minus => lhs - rhs,
-                    Times => lhs * rhs,
-                    Divide => lhs / rhs,
-                    Power => lhs.powf(rhs),
-                    Modulo => lhs % rhs,
-                    Factorial => unreachable!(),
-                };
-                Number(result)
-            },
             _ => self.into(),
         }
     }
-- 
2.43.0


From 06b46b820aaf0eba45d8220c524af7edba6bb466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:22 +0000
Subject: [PATCH 06/20] fix: `x % 1` was simplified to 0 although it is the
 fractional part of x

---
 src/element/simplify.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/element/simplify.rs b/src/element/simplify.rs
index ecebe78..8d5e84d 100644
--- a/src/element/simplify.rs
+++ b/src/element/simplify.rs
@@ -226,10 +226,6 @@ impl<'a> Simplify<'a> for BinOp<'a> {
             BinOp {
                 op: Modulo, rhs, ..
             } if rhs == Number(0.0) => Number(f64::NAN),
-            // a % 1 => 0
-            BinOp {
-                op: Modulo, rhs, ..
-            } if rhs == Number(1.0) => Number(0.0),
             // a % a => 0
             BinOp {
                 op: Modulo,
-- 
2.43.0


From 0fa9982243457fc8089b6ea023f785cb352d6f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:22 +0000
Subject: [PATCH 07/20] fix: `0 ^ x` was simplified to 0 although it is 1 when
 x is 0

---
 src/element/simplify.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/element/simplify.rs b/src/element/simplify.rs
index 8d5e84d..aefb679 100644
--- a/src/element/simplify.rs
+++ b/src/element/simplify.rs
@@ -199,8 +199,6 @@ impl<'a> Simplify<'a> for BinOp<'a> {
                 lhs,
                 rhs,
             } if lhs == Number(0.0) && rhs == Number(0.0) => Number(1.0),
-            // 0 ^ a => 0
-            BinOp { op: Power, lhs, .. } if lhs == Number(0.0) => Number(0.0),
             // a ^ 0 => 1
             BinOp {
                 op: Divide, rhs, ..
-- 
2.43.0


From 60f206e55555a5a7ba263ab8c57c39bd0e12888a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:22 +0000
Subject: [PATCH 08/20] fix: bind overflowed its counter with more than 255
 missing variables

It panicked in debug builds; in release builds exactly 256 missing
variables counted as none and the bound function panicked when called.
---
 src/xprs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xprs.rs b/src/xprs.rs
index 3ef4b7f..c8df651 100644
--- a/src/xprs.rs
+++ b/src/xprs.rs
@@ -747,7 +747,7 @@ impl BindError {
         missing_vars: Difference<'_, &str, RandomState>,
     ) -> Option<Self> {
         let mut peekable = missing_vars.peekable();
-        let mut count: u8 = 0;
+        let mut count: usize = 0;
         let mut missing_vars_str = String::new();
         while let Some(missing_var) = peekable.next() {
             count += 1;
-- 
2.43.0


From 63d837100f08439a2d3c7feb514c1a89ebc3cbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:22 +0000
Subject: [PATCH 09/20] fix: in-place simplification freed the expression twice
 when a function panicked

The root was moved out with ptr::read while user functions were called;
unwinding then dropped it once there and once more with the Xprs.
---
 src/xprs.rs | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/xprs.rs b/src/xprs.rs
index c8df651..01aa4a8 100644
--- a/src/xprs.rs
+++ b/src/xprs.rs
@@ -1,17 +1,14 @@
 /* Clippy Config */
 #![allow(clippy::std_instead_of_core)]
 /* Built-in imports */
-use core::{fmt, ptr};
+use core::{fmt, mem};
 use std::collections::{HashMap, HashSet};
 /* Crate imports */
 use crate::{
     element::Element,
     element::Simplify,
     token::Operator,
-    utils::{
-        factorial::factorial,
-        hidden_macros::{trust_me, yeet},
-    },
+    utils::{factorial::factorial, hidden_macros::yeet},
 };
 
 /// Represents a mathematical expression and its variables.
@@ -141,9 +138,8 @@ impl Xprs<'_> {
     /// ```
     #[inline]
     pub fn simplify_for_in_place(&mut self, var: (&str, f64)) {
-        let mut tmp = trust_me!(ptr::read(&self.root));
-        tmp = tmp.simplify_for(var);
-        trust_me!(ptr::write(&mut self.root, tmp););
+        let root = mem::replace(&mut self.root, Element::Number(f64::NAN));
+        self.root = root.simplify_for(var);
         self.vars.remove(var.0);
     }
 
@@ -217,13 +213,13 @@ impl Xprs<'_> {
     /// ```
     #[inline]
     pub fn simplify_for_multiple_in_place(&mut self, vars: &[(&str, f64)]) {
-        // rewriting `simplify_for_in_place` to avoid dozens of `ptr::read` and `ptr::write`
-        let mut tmp = trust_me!(ptr::read(&self.root));
+        // rewriting `simplify_for_in_place` to avoid dozens of `mem::replace`
+        let mut tmp = mem::replace(&mut self.root, Element::Number(f64::NAN));
         for &var in vars {
             tmp = tmp.simplify_for(var);
             self.vars.remove(var.0);
         }
-        trust_me!(ptr::write(&mut self.root, tmp););
+        self.root = tmp;
     }
 
     /// Simplifies the expression in-place for multiple variables and returns the expression.
-- 
2.43.0


From 125d28bddca8f57ce2b2d9422188c4197a92ad4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:22 +0000
Subject: [PATCH 10/20] fix: simplification kept variables that are no longer
 in the expression

Simplifying `x * y` for `x = 0` left `y` in the set of variables of the
expression `0`, so binding it without `y` failed.
---
 src/xprs.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/xprs.rs b/src/xprs.rs
index 01aa4a8..6d2c4f9 100644
--- a/src/xprs.rs
+++ b/src/xprs.rs
@@ -140,7 +140,7 @@ impl Xprs<'_> {
     pub fn simplify_for_in_place(&mut self, var: (&str, f64)) {
         let root = mem::replace(&mut self.root, Element::Number(f64::NAN));
         self.root = root.simplify_for(var);
-        self.vars.remove(var.0);
+        self.update_vars();
     }
 
     /// Simple wrapper around [`Xprs::eval`] that doesn't require any variables.
@@ -217,9 +217,16 @@ impl Xprs<'_> {
         let mut tmp = mem::replace(&mut self.root, Element::Number(f64::NAN));
         for &var in vars {
             tmp = tmp.simplify_for(var);
-            self.vars.remove(var.0);
         }
         self.root = tmp;
+        self.update_vars();
+    }
+
+    /// Updates the set of variables after a simplification,
+    /// which might have removed more than the simplified variables (e.g. `0 * y`).
+    fn update_vars(&mut self) {
+        self.vars.clear();
+        self.root.find_variables(&mut self.vars);
     }
 
     /// Simplifies the expression in-place for multiple variables and returns the expression.
-- 
2.43.0


From 809a543687762fd4552fa8e10fdf85d4fcded69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:22 +0000
Subject: [PATCH 11/20] fix: errors named the first byte of a non-ASCII
 character instead of the character
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

`é` was reported as the illegal character `Ã`.
---
 src/parser.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index ecab551..a3b4d0e 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -416,6 +416,17 @@ impl ParserImpl<'_, '_> {
         self.input.get(self.cursor + offset)
     }
 
+    /// Returns the whole character at the cursor, whose first byte is `tok`.
+    #[cold]
+    fn char_at_cursor(&self, tok: u8) -> char {
+        // only ASCII characters are consumed so the cursor is always at
+        // the beginning of a character
+        self.input
+            .get(self.cursor..)
+            .and_then(|rest| str::from_utf8(rest).ok()?.chars().next())
+            .unwrap_or_else(|| char::from(tok))
+    }
+
     /// Returns the operator and its precedence if it's a valid operator.
     fn get_operator_infos(
         &mut self,
@@ -589,7 +600,7 @@ impl ParseError {
     #[cold]
     fn new_unexpected_token(parser: &ParserImpl, tok: u8) -> Self {
         Self {
-            kind: ErrorKind::UnexpectedToken(char::from(tok)),
+            kind: ErrorKind::UnexpectedToken(parser.char_at_cursor(tok)),
             span: parser.cursor.into(),
             src: trust_me!(str::from_utf8_unchecked(parser.input)).to_owned(),
         }
@@ -610,7 +621,7 @@ impl ParseError {
     #[cold]
     fn new_illegal_character(parser: &ParserImpl, tok: u8) -> Self {
         Self {
-            kind: ErrorKind::IllegalCharacter(char::from(tok)),
+            kind: ErrorKind::IllegalCharacter(parser.char_at_cursor(tok)),
             span: parser.cursor.into(),
             src: trust_me!(str::from_utf8_unchecked(parser.input)).to_owned(),
         }
-- 
2.43.0


From 006ecdb57b75c981318027465467fa6184772540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:22 +0000
Subject: [PATCH 12/20] fix: the missing argument error could end in the middle
 of a character

Its span was always two bytes long, even before a multi-byte character.
---
 src/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index a3b4d0e..f38d98b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -687,9 +687,12 @@ impl ParseError {
     /// Creates a new [`ParseError`] for a missing argument error.
     #[cold]
     fn new_missing_argument(parser: &ParserImpl) -> Self {
+        // length of the token found instead, might not be ASCII
+        let found_len =
+            parser.current().map_or(0, |&tok| parser.char_at_cursor(tok).len_utf8());
         Self {
             kind: ErrorKind::MissingArgument,
-            span: (parser.cursor - 1, 2).into(),
+            span: (parser.cursor - 1, 1 + found_len).into(),
             src: trust_me!(str::from_utf8_unchecked(parser.input)).to_owned(),
         }
     }
-- 
2.43.0


From ae1d596c08d78e3dcc03d5068375d36b6e419177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:22 +0000
Subject: [PATCH 13/20] fix: a factorial was displayed as a prefix operator

`x!` was displayed as `(!x)`, which isn't a valid expression.
---
 src/element/unop.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/element/unop.rs b/src/element/unop.rs
index b2c7565..3686de1 100644
--- a/src/element/unop.rs
+++ b/src/element/unop.rs
@@ -29,6 +29,10 @@ impl<'a> UnOp<'a> {
 
 impl fmt::Display for UnOp<'_> {
     fn fmt(&self, fmt: &mut fmt::Formatter<'_>) -> fmt::Result {
-        write!(fmt, "({}{})", self.op, self.operand)
+        if self.op == Operator::Factorial {
+            write!(fmt, "({}{})", self.operand, self.op)
+        } else {
+            write!(fmt, "({}{})", self.op, self.operand)
+        }
     }
 }
-- 
2.43.0


From 5659b5d98713089642192ff1829efa8aa2306d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:22 +0000
Subject: [PATCH 14/20] fix: a negative base was displayed without parenthesis

With optimisations `(-2) ^ x` was displayed as `(-2 ^ x)`, which is read
as `-(2 ^ x)`.
---
 src/element/binop.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/element/binop.rs b/src/element/binop.rs
index 16eda9a..912874d 100644
--- a/src/element/binop.rs
+++ b/src/element/binop.rs
@@ -32,7 +32,15 @@ impl<'a> BinOp<'a> {
 
 impl fmt::Display for BinOp<'_> {
     fn fmt(&self, fmt: &mut fmt::Formatter<'_>) -> fmt::Result {
-        write!(fmt, "({} {} {})", self.lhs, self.op, self.rhs)
+        match self.lhs {
+            // `-2 ^ x` means `-(2 ^ x)`
+            Element::Number(num)
+                if self.op == Operator::Power && num.is_sign_negative() =>
+            {
+                write!(fmt, "(({}) {} {})", num, self.op, self.rhs)
+            },
+            _ => write!(fmt, "({} {} {})", self.lhs, self.op, self.rhs),
+        }
     }
 }
 
-- 
2.43.0


From e6df774d7b6b9bb5d9e04e136a67207e12443010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:22 +0000
Subject: [PATCH 15/20] fix: functions couldn't be called without arguments

`min()`, `max()`, `sum()` and `mean()` are documented to accept no
argument, and functions declared with 0 arguments couldn't be called
at all.
---
 src/parser.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index f38d98b..fd03052 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -257,8 +257,6 @@ impl<'input, 'ctx> ParserImpl<'input, 'ctx> {
             Identifier::Constant(val) => Element::Number(val),
             Identifier::Variable(var) => Element::Variable(var),
             Identifier::Function(func) if self.consume_if_eq(b'(') => {
-                // for now the minimum number of arguments is 1
-                // self.parse_arguments() will fail if no argument is found
                 let args = self.parse_arguments()?;
                 self.assert_eq_consume(b')')?;
                 if let Some(nb_args) = func.nb_args {
@@ -328,6 +326,11 @@ impl<'input, 'ctx> ParserImpl<'input, 'ctx> {
     fn parse_arguments(&mut self) -> Result<Vec<Element<'input>>, ParseError> {
         let mut args = Vec::new();
 
+        // no arguments at all
+        if self.next_trim() == Some(&b')') {
+            return Ok(args);
+        }
+
         loop {
             let arg = self.argument()?;
             args.push(arg);
-- 
2.43.0


From 0acd7eedc36cf0f456d7e2f1002cb9f6866e5627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:22 +0000
Subject: [PATCH 16/20] fix: the REPL didn't stop at the end of its input

It kept parsing an empty line forever.
---
 src/bin/repl.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bin/repl.rs b/src/bin/repl.rs
index 55c4100..4264352 100644
--- a/src/bin/repl.rs
+++ b/src/bin/repl.rs
@@ -24,7 +24,10 @@ fn main() -> Result<(), Box<dyn Error>> {
     loop {
         print!(">> ");
         io::stdout().lock().flush()?;
-        io::stdin().read_line(&mut input)?;
+        // 0 means that the end of the input was reached
+        if io::stdin().read_line(&mut input)? == 0 {
+            break;
+        }
         match &input {
             line if line.trim() == "exit" => break,
             line => match parser.parse(line) {
-- 
2.43.0


From 89eae2bf4a824a5bffbd14bb3fe476f808f83b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:16 +0000
Subject: [PATCH 17/20] fix: the factorial of a negative constant was displayed
 without parenthesis

Without optimisations, `x!` with the context constant `x = -2` was
displayed as `(-2!)`, which is read as `-(2!)`.
---
 src/element/unop.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/element/unop.rs b/src/element/unop.rs
index 3686de1..695d1bc 100644
--- a/src/element/unop.rs
+++ b/src/element/unop.rs
@@ -29,10 +29,17 @@ impl<'a> UnOp<'a> {
 
 impl fmt::Display for UnOp<'_> {
     fn fmt(&self, fmt: &mut fmt::Formatter<'_>) -> fmt::Result {
-        if self.op == Operator::Factorial {
-            write!(fmt, "({}{})", self.operand, self.op)
-        } else {
-            write!(fmt, "({}{})", self.op, self.operand)
+        match self.operand {
+            // `-2!` means `-(2!)`
+            Element::Number(num)
+                if self.op == Operator::Factorial && num.is_sign_negative() =>
+            {
+                write!(fmt, "(({}){})", num, self.op)
+            },
+            _ if self.op == Operator::Factorial => {
+                write!(fmt, "({}{})", self.operand, self.op)
+            },
+            _ => write!(fmt, "({}{})", self.op, self.operand),
         }
     }
 }
-- 
2.43.0


From 8af1aaf4d6d4f8b9627d32b1e51401346820e79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:16 +0000
Subject: [PATCH 18/20] fix: documentation named constants and the base of ln
 wrong

The constants are `pi` and `e` (uppercase names are variables) and `ln`
is the natural logarithm.
---
 README.md  | 6 +++---
 src/lib.rs | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/README.md b/README.md
index 04aa472..fe22dce 100644
--- a/README.md
+++ b/README.md
@@ -216,15 +216,15 @@ Note: `!` (factorial) is only supported on positive integers. Calling it on a ne
 
 | Constant | Value | Approximation       |
 | -------- | ----- | ------------------- |
-| `PI`     | `π`   | `3.141592653589793` |
-| `E`      | `e`   | `2.718281828459045` |
+| `pi`     | `π`   | `3.141592653589793` |
+| `e`      | `e`   | `2.718281828459045` |
 
 #### Built-in functions
 
 Xprs supports a variety of functions:
 
 - trigonometric functions: `sin`, `cos`, `tan`, `asin`, `acos`, `atan`, `atan2`, `sinh`, `cosh`, `tanh`, `asinh`, `acosh`, `atanh`.
-- logarithmic functions: `ln` (base 2), `log` (base 10), `logn` (base n, used as `logn(num, base)`).
+- logarithmic functions: `ln` (base e), `log` (base 10), `logn` (base n, used as `logn(num, base)`).
 - power functions: `sqrt`, `cbrt`, `exp`.
 - rounding functions: `floor`, `ceil`, `round`, `trunc`.
 - other functions: `abs`, `min`, `max`, `hypot`, `fract`, `recip` (`invert` alias), `sum`, `mean`, `factorial` and `gamma`.
diff --git a/src/lib.rs b/src/lib.rs
index 1addf31..38684f1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -216,15 +216,15 @@
 //!
 //! | Constant | Value | Approximation       |
 //! | -------- | ----- | ------------------- |
-//! | `PI`     | `π`   | `3.141592653589793` |
-//! | `E`      | `e`   | `2.718281828459045` |
+//! | `pi`     | `π`   | `3.141592653589793` |
+//! | `e`      | `e`   | `2.718281828459045` |
 //!
 //! #### Built-in functions
 //!
 //! Xprs supports a variety of functions:
 //!
 //! - trigonometric functions: `sin`, `cos`, `tan`, `asin`, `acos`, `atan`, `atan2`, `sinh`, `cosh`, `tanh`, `asinh`, `acosh`, `atanh`.
-//! - logarithmic functions: `ln` (base 2), `log` (base 10), `logn` (base n, used as `logn(num, base)`).
+//! - logarithmic functions: `ln` (base e), `log` (base 10), `logn` (base n, used as `logn(num, base)`).
 //! - power functions: `sqrt`, `cbrt`, `exp`.
 //! - rounding functions: `floor`, `ceil`, `round`, `trunc`.
 //! - other functions: `abs`, `min`, `max`, `hypot`, `fract`, `recip` (`invert` alias), `sum`, `mean`, `factorial` and `gamma`.
-- 
2.43.0


From 2c72ecfb1e28643eba51fddfcda18287a30d8c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:12 +0000
Subject: [PATCH 19/20] fix: REPL crashed at end of input or a non-number when
 asking for a variable

End of input at a variable prompt, and an answer that is not a number, ended
the REPL with a panic. End of input now ends the session like at the main
prompt, and a wrong answer is asked for again.
---
 src/bin/repl.rs | 43 +++++++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/src/bin/repl.rs b/src/bin/repl.rs
index 4264352..83b4540 100644
--- a/src/bin/repl.rs
+++ b/src/bin/repl.rs
@@ -35,7 +35,9 @@ fn main() -> Result<(), Box<dyn Error>> {
                     println!("Interpreted as: {ast}");
                     println!("{ast:#?}");
                     println!("Variables: {:?}", ast.vars);
-                    let variables = ask_for_variables(&ast.vars);
+                    let Some(variables) = ask_for_variables(&ast.vars)? else {
+                        break;
+                    };
                     println!(
                         "Evaluated: {:#?}",
                         ast.eval(&variables).unwrap_or_else(|_| unreachable!())
@@ -52,25 +54,30 @@ fn main() -> Result<(), Box<dyn Error>> {
 }
 
 /// Ask the user for the value of the variables in the given set.
-fn ask_for_variables<'a>(set: &'a HashSet<&str>) -> HashMap<&'a str, f64> {
+/// Returns [`None`] if the end of the input was reached before all were given.
+fn ask_for_variables<'a>(
+    set: &'a HashSet<&str>,
+) -> io::Result<Option<HashMap<&'a str, f64>>> {
     if !set.is_empty() {
         println!("Please enter the following variables:");
     }
 
-    set.iter().fold(HashMap::new(), |mut acc, var| {
-        print!("{var}: ");
-        io::stdout().lock().flush().expect("Failed to flush stdout");
-        let mut input = String::new();
-        io::stdin()
-            .read_line(&mut input)
-            .expect("Failed to read line");
-        acc.insert(
-            var,
-            input
-                .trim()
-                .parse()
-                .expect("Failed to parse input as a number"),
-        );
-        acc
-    })
+    let mut variables = HashMap::new();
+    for var in set {
+        let value = loop {
+            print!("{var}: ");
+            io::stdout().lock().flush()?;
+            let mut input = String::new();
+            // 0 means that the end of the input was reached
+            if io::stdin().read_line(&mut input)? == 0 {
+                return Ok(None);
+            }
+            match input.trim().parse() {
+                Ok(value) => break value,
+                Err(err) => println!("Not a number: {err}"),
+            }
+        };
+        variables.insert(*var, value);
+    }
+    Ok(Some(variables))
 }
-- 
2.43.0


From 1fe554fcf412fde032409b43bb70b33a5cb6503b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:23 +0000
Subject: [PATCH 20/20] fix: functions that differ don't compare as equal in
 order

---
 src/token/function.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/token/function.rs b/src/token/function.rs
index af5da66..2e78666 100644
--- a/src/token/function.rs
+++ b/src/token/function.rs
@@ -58,7 +58,11 @@ impl Function {
 impl PartialOrd for Function {
     #[inline]
     fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
-        self.name.partial_cmp(other.name)
+        match self.name.cmp(other.name) {
+            // same name, but not equal: neither comes first
+            Ordering::Equal if self != other => None,
+            ordering => Some(ordering),
+        }
     }
 }
 
-- 
2.43.0

