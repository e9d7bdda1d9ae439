From 57073f19133b9e824f8dafe9bacd695827a97d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:24 +0000
Subject: [PATCH 01/14] fix: parsing an empty expression reports an error
 instead of underflowing the span

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index dd92346..0ba3be4 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -566,7 +566,7 @@ impl ParseError {
             kind: ErrorKind::UnexpectedEndOfExpression,
             // - 1 because we want to point to the last character
             // (without it, we would point to a `None` value)
-            span: (parser.cursor - 1).into(),
+            span: parser.cursor.saturating_sub(1).into(),
             src: trust_me!(str::from_utf8_unchecked(parser.input)).to_owned(),
         }
     }
-- 
2.43.0


From fdc898f09e75d366acf096c8b02e97b18b118833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:25 +0000
Subject: [PATCH 02/14] fix: `!` is not a binary operator, `3!!2` is a parse
 error and not a panic

---
 src/token/operator.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/token/operator.rs b/src/token/operator.rs
index e7a4d90..1edd932 100644
--- a/src/token/operator.rs
+++ b/src/token/operator.rs
@@ -28,7 +28,6 @@ impl TryFrom<u8> for Operator {
     /// Valid operators are: '+', '-', '*', '/', '^', '%'.
     fn try_from(value: u8) -> Result<Self, Self::Error> {
         match value {
-            b'!' => Ok(Self::Factorial),
             b'+' => Ok(Self::Plus),
             b'-' => Ok(Self::Minus),
             b'*' => Ok(Self::Times),
-- 
2.43.0


From f20c6d8b87180996961bb2269fcac2ca71c85b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:25 +0000
Subject: [PATCH 03/14] fix: counting 256 or more missing variables no longer
 overflows while binding

---
 src/xprs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xprs.rs b/src/xprs.rs
index 3ef4b7f..c8df651 100644
--- a/src/xprs.rs
+++ b/src/xprs.rs
@@ -747,7 +747,7 @@ impl BindError {
         missing_vars: Difference<'_, &str, RandomState>,
     ) -> Option<Self> {
         let mut peekable = missing_vars.peekable();
-        let mut count: u8 = 0;
+        let mut count: usize = 0;
         let mut missing_vars_str = String::new();
         while let Some(missing_var) = peekable.next() {
             count += 1;
-- 
2.43.0


From e45046d4b07471083aa47e72f3b288b62f30c9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:25 +0000
Subject: [PATCH 04/14] fix: a panicking user function no longer makes in-place
 simplification drop the tree twice

---
 src/xprs.rs | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/xprs.rs b/src/xprs.rs
index c8df651..71e850f 100644
--- a/src/xprs.rs
+++ b/src/xprs.rs
@@ -1,17 +1,14 @@
 /* Clippy Config */
 #![allow(clippy::std_instead_of_core)]
 /* Built-in imports */
-use core::{fmt, ptr};
+use core::{fmt, mem};
 use std::collections::{HashMap, HashSet};
 /* Crate imports */
 use crate::{
     element::Element,
     element::Simplify,
     token::Operator,
-    utils::{
-        factorial::factorial,
-        hidden_macros::{trust_me, yeet},
-    },
+    utils::{factorial::factorial, hidden_macros::yeet},
 };
 
 /// Represents a mathematical expression and its variables.
@@ -141,9 +138,8 @@ impl Xprs<'_> {
     /// ```
     #[inline]
     pub fn simplify_for_in_place(&mut self, var: (&str, f64)) {
-        let mut tmp = trust_me!(ptr::read(&self.root));
-        tmp = tmp.simplify_for(var);
-        trust_me!(ptr::write(&mut self.root, tmp););
+        let root = mem::replace(&mut self.root, Element::Number(f64::NAN));
+        self.root = root.simplify_for(var);
         self.vars.remove(var.0);
     }
 
@@ -217,13 +213,12 @@ impl Xprs<'_> {
     /// ```
     #[inline]
     pub fn simplify_for_multiple_in_place(&mut self, vars: &[(&str, f64)]) {
-        // rewriting `simplify_for_in_place` to avoid dozens of `ptr::read` and `ptr::write`
-        let mut tmp = trust_me!(ptr::read(&self.root));
+        let mut root = mem::replace(&mut self.root, Element::Number(f64::NAN));
         for &var in vars {
-            tmp = tmp.simplify_for(var);
+            root = root.simplify_for(var);
             self.vars.remove(var.0);
         }
-        trust_me!(ptr::write(&mut self.root, tmp););
+        self.root = root;
     }
 
     /// Simplifies the expression in-place for multiple variables and returns the expression.
-- 
2.43.0


From d885a9f5fc10b20837133170c3dffbec7c76e469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:25 +0000
Subject: [PATCH 05/14] fix: `a % 1` is not simplified to 0, it is the
 fractional part of `a`

---
 src/element/simplify.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/element/simplify.rs b/src/element/simplify.rs
index 12c2151..f63b0ef 100644
--- a/src/element/simplify.rs
+++ b/src/element/simplify.rs
@@ -207,10 +207,6 @@ impl<'a> Simplify<'a> for BinOp<'a> {
             BinOp {
                 op: Modulo, rhs, ..
             } if rhs == Number(0.0) => Number(f64::NAN),
-            // a % 1 => 0
-            BinOp {
-                op: Modulo, rhs, ..
-            } if rhs == Number(1.0) => Number(0.0),
             // a % a => 0
             BinOp {
                 op: Modulo,
-- 
2.43.0


From 2177b6b0ef6488d5ada2cf0e7684fbe9a5ea7357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:25 +0000
Subject: [PATCH 06/14] fix: simplifying removes from `vars` every variable
 that left the expression

---
 src/xprs.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/xprs.rs b/src/xprs.rs
index 71e850f..0c375af 100644
--- a/src/xprs.rs
+++ b/src/xprs.rs
@@ -140,7 +140,7 @@ impl Xprs<'_> {
     pub fn simplify_for_in_place(&mut self, var: (&str, f64)) {
         let root = mem::replace(&mut self.root, Element::Number(f64::NAN));
         self.root = root.simplify_for(var);
-        self.vars.remove(var.0);
+        self.refresh_vars();
     }
 
     /// Simple wrapper around [`Xprs::eval`] that doesn't require any variables.
@@ -216,9 +216,16 @@ impl Xprs<'_> {
         let mut root = mem::replace(&mut self.root, Element::Number(f64::NAN));
         for &var in vars {
             root = root.simplify_for(var);
-            self.vars.remove(var.0);
         }
         self.root = root;
+        self.refresh_vars();
+    }
+
+    /// Recomputes the set of variables, simplifying can remove more
+    /// variables than the ones it was asked for (e.g. `x * y` for `x = 0`).
+    fn refresh_vars(&mut self) {
+        self.vars.clear();
+        self.root.find_variables(&mut self.vars);
     }
 
     /// Simplifies the expression in-place for multiple variables and returns the expression.
-- 
2.43.0


From c5bd5a96e0f8d35ad9047c72f22ae42579b39c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:25 +0000
Subject: [PATCH 07/14] fix: optimize the whole tree once, folding a group no
 longer changes what parses after it

---
 src/parser.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 0ba3be4..e7889a6 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -143,6 +143,9 @@ impl<'input, 'ctx> ParserImpl<'input, 'ctx> {
             yeet!(ParseError::new_unexpected_token(&parser_impl, tok));
         }
 
+        #[cfg(feature = "compile-time-optimizations")]
+        let root = root.simplify();
+
         // TODO: find a better way to get variables
         // don't like the fact that we go through the whole tree
         // to find variables
@@ -177,11 +180,6 @@ impl<'input, 'ctx> ParserImpl<'input, 'ctx> {
             el = BinOp::new_element(op, el, rhs);
         }
 
-        #[cfg(feature = "compile-time-optimizations")]
-        {
-            el = el.simplify();
-        };
-
         Ok(el)
     }
 
-- 
2.43.0


From 9c421210177b980858455b5f5e0be6f302107a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:25 +0000
Subject: [PATCH 08/14] fix: implicit multiplication also works before
 uppercase identifiers

---
 src/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index e7889a6..64d57ba 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -425,7 +425,9 @@ impl ParserImpl<'_, '_> {
             _ if IMPLICIT_MULTIPLICATION_INFO.1 <= precedence => None,
             // if it's an identifier or an opening parenthesis
             // we can consider its an implicit multiplication
-            b'a'..=b'z' | b'(' => Some(IMPLICIT_MULTIPLICATION_INFO),
+            b'A'..=b'Z' | b'a'..=b'z' | b'(' => {
+                Some(IMPLICIT_MULTIPLICATION_INFO)
+            },
             // if it's a number implicit multiplication is
             // only possible if previous atom isn't a number
             b'0'..=b'9' if !matches!(*current_atom, Element::Number(_)) => {
-- 
2.43.0


From 4a033d173aa7f5dfb0c7cb26ecd09a512af619a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:06 +0000
Subject: [PATCH 09/14] fix: display the factorial after its operand, as it is
 parsed

---
 src/element/unop.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/element/unop.rs b/src/element/unop.rs
index b2c7565..8f6c5b0 100644
--- a/src/element/unop.rs
+++ b/src/element/unop.rs
@@ -29,6 +29,17 @@ impl<'a> UnOp<'a> {
 
 impl fmt::Display for UnOp<'_> {
     fn fmt(&self, fmt: &mut fmt::Formatter<'_>) -> fmt::Result {
-        write!(fmt, "({}{})", self.op, self.operand)
+        match self.op {
+            // the only postfix operator
+            Operator::Factorial => {
+                write!(fmt, "({}{})", self.operand, self.op)
+            },
+            Operator::Plus
+            | Operator::Minus
+            | Operator::Times
+            | Operator::Divide
+            | Operator::Power
+            | Operator::Modulo => write!(fmt, "({}{})", self.op, self.operand),
+        }
     }
 }
-- 
2.43.0


From bfc5e71cd0252b7c0898e45d3fb1e442b36508c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:06 +0000
Subject: [PATCH 10/14] fix: display parenthesis around negative numbers, `-2 ^
 x` is not `(-2) ^ x`

---
 src/element/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/element/mod.rs b/src/element/mod.rs
index 5ac64c3..844101f 100644
--- a/src/element/mod.rs
+++ b/src/element/mod.rs
@@ -35,6 +35,10 @@ pub enum Element<'a> {
 impl fmt::Display for Element<'_> {
     fn fmt(&self, fmt: &mut fmt::Formatter<'_>) -> fmt::Result {
         match *self {
+            // like any other negation, `-2 ^ x` would read `-(2 ^ x)`
+            Self::Number(num) if num.is_sign_negative() && !num.is_nan() => {
+                write!(fmt, "({num})")
+            },
             Self::Number(num) => write!(fmt, "{num}"),
             Self::BinOp(ref binop) => write!(fmt, "{binop}"),
             Self::UnOp(ref unop) => write!(fmt, "{unop}"),
-- 
2.43.0


From f7746deb2074fbf673ad842058d7c6511f2e98b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:06 +0000
Subject: [PATCH 11/14] fix: fold two numbers to what evaluating them gives,
 e.g. `-1 / 0` or `0 ^ -1`

---
 src/element/simplify.rs | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/element/simplify.rs b/src/element/simplify.rs
index f63b0ef..8a3ba86 100644
--- a/src/element/simplify.rs
+++ b/src/element/simplify.rs
@@ -50,6 +50,24 @@ impl<'a> Simplify<'a> for BinOp<'a> {
         self.lhs = self.lhs.simplify();
         self.rhs = self.rhs.simplify();
         match self {
+            /////////////////////////// 2 Numbers ///////////////////////////
+            BinOp {
+                op,
+                rhs: Number(rhs),
+                lhs: Number(lhs),
+            } => {
+                #[allow(clippy::unreachable)]
+                let result = match op {
+                    Plus => lhs + rhs,
+                    Minus => lhs - rhs,
+                    Times => lhs * rhs,
+                    Divide => lhs / rhs,
+                    Power => lhs.powf(rhs),
+                    Modulo => lhs % rhs,
+                    Factorial => unreachable!(),
+                };
+                Number(result)
+            },
             /////////////////////////// Additions ///////////////////////////
             // 0 + a => a
             BinOp { op: Plus, lhs, rhs } if lhs == Number(0.0) => rhs,
@@ -213,24 +231,6 @@ impl<'a> Simplify<'a> for BinOp<'a> {
                 lhs,
                 rhs,
             } if lhs == rhs => Number(0.0),
-            /////////////////////////// 2 Numbers ///////////////////////////
-            BinOp {
-                op,
-                rhs: Number(rhs),
-                lhs: Number(lhs),
-            } => {
-                #[allow(clippy::unreachable)]
-                let result = match op {
-                    Plus => lhs + rhs,
-                    Minus => lhs - rhs,
-                    Times => lhs * rhs,
-                    Divide => lhs / rhs,
-                    Power => lhs.powf(rhs),
-                    Modulo => lhs % rhs,
-                    Factorial => unreachable!(),
-                };
-                Number(result)
-            },
             _ => self.into(),
         }
     }
-- 
2.43.0


From 4e334aab27fb07540e3d8b9425eb927a52d9c964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:06 +0000
Subject: [PATCH 12/14] fix: the repl stops at the end of its input instead of
 looping forever

---
 src/bin/repl.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bin/repl.rs b/src/bin/repl.rs
index 55c4100..289f84f 100644
--- a/src/bin/repl.rs
+++ b/src/bin/repl.rs
@@ -24,7 +24,10 @@ fn main() -> Result<(), Box<dyn Error>> {
     loop {
         print!(">> ");
         io::stdout().lock().flush()?;
-        io::stdin().read_line(&mut input)?;
+        if io::stdin().read_line(&mut input)? == 0 {
+            // end of the input
+            break;
+        }
         match &input {
             line if line.trim() == "exit" => break,
             line => match parser.parse(line) {
-- 
2.43.0


From a3b028c1c9d6af90e500268bb487066a6b078ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:06 +0000
Subject: [PATCH 13/14] fix: report the actual non-ASCII character, not the
 first of its UTF-8 bytes

---
 src/parser.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 64d57ba..969833f 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -384,6 +384,16 @@ impl ParserImpl<'_, '_> {
         self.input.get(self.cursor)
     }
 
+    /// Returns the whole current character, `tok` is only its first byte.
+    #[cold]
+    fn current_char(&self, tok: u8) -> char {
+        self.input
+            .get(self.cursor..)
+            .and_then(|rest| str::from_utf8(rest).ok())
+            .and_then(|rest| rest.chars().next())
+            .unwrap_or_else(|| char::from(tok))
+    }
+
     /// Returns the current character after trimming whitespaces.
     fn next_trim(&mut self) -> Option<&u8> {
         self.skip_while(u8::is_ascii_whitespace);
@@ -575,7 +585,7 @@ impl ParseError {
     #[cold]
     fn new_unexpected_token(parser: &ParserImpl, tok: u8) -> Self {
         Self {
-            kind: ErrorKind::UnexpectedToken(char::from(tok)),
+            kind: ErrorKind::UnexpectedToken(parser.current_char(tok)),
             span: parser.cursor.into(),
             src: trust_me!(str::from_utf8_unchecked(parser.input)).to_owned(),
         }
@@ -596,7 +606,7 @@ impl ParseError {
     #[cold]
     fn new_illegal_character(parser: &ParserImpl, tok: u8) -> Self {
         Self {
-            kind: ErrorKind::IllegalCharacter(char::from(tok)),
+            kind: ErrorKind::IllegalCharacter(parser.current_char(tok)),
             span: parser.cursor.into(),
             src: trust_me!(str::from_utf8_unchecked(parser.input)).to_owned(),
         }
-- 
2.43.0


From f5d1667c84e8eedcbd6d6fd5294187a28bc80472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:38 +0000
Subject: [PATCH 14/14] fix: make the unnamed xprs_fn! form with a number of
 arguments reachable

xprs_fn!(f, 2) matched the (name, function) rule and failed to compile.
---
 src/token/function.rs | 39 ++++++++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/src/token/function.rs b/src/token/function.rs
index af5da66..6beb187 100644
--- a/src/token/function.rs
+++ b/src/token/function.rs
@@ -119,6 +119,38 @@ impl PartialEq for FnPointer {
 /// Don't provide the number of arguments if your function is variadic (takes any number of arguments).
 #[macro_export]
 macro_rules! xprs_fn {
+    // unnamed fixed args
+    // must be before the variadics, `($name:expr, $function:expr)` matches them too
+    ($function:expr, 0) => {
+        $crate::xprs_fn!(stringify!($function), $function, 0)
+    };
+    ($function:expr, 1) => {
+        $crate::xprs_fn!(stringify!($function), $function, 1)
+    };
+    ($function:expr, 2) => {
+        $crate::xprs_fn!(stringify!($function), $function, 2)
+    };
+    ($function:expr, 3) => {
+        $crate::xprs_fn!(stringify!($function), $function, 3)
+    };
+    ($function:expr, 4) => {
+        $crate::xprs_fn!(stringify!($function), $function, 4)
+    };
+    ($function:expr, 5) => {
+        $crate::xprs_fn!(stringify!($function), $function, 5)
+    };
+    ($function:expr, 6) => {
+        $crate::xprs_fn!(stringify!($function), $function, 6)
+    };
+    ($function:expr, 7) => {
+        $crate::xprs_fn!(stringify!($function), $function, 7)
+    };
+    ($function:expr, 8) => {
+        $crate::xprs_fn!(stringify!($function), $function, 8)
+    };
+    ($function:expr, 9) => {
+        $crate::xprs_fn!(stringify!($function), $function, 9)
+    };
     // variadics
     ($name:expr, $function:expr) => {
         $crate::Function::new_static($name, $function, None)
@@ -147,13 +179,6 @@ macro_rules! xprs_fn {
             Some($nb_args),
         )
     };
-    ($function:expr, $nb_args:tt) => {
-        $crate::Function::new_static(
-            stringify!($function),
-            $crate::xprs_fn!(wrap $function, $nb_args),
-            Some($nb_args),
-        )
-    };
     (dyn $function:expr, $nb_args:tt) => {
         $crate::Function::new_dyn(
             stringify!($function),
-- 
2.43.0

