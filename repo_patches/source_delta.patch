From db971c94c13df837accfd3247e19dce7b7ea884c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:41 +0000
Subject: [PATCH 01/49] verification hook: include a harness file under --cfg
 dune_verif

---
 src/bin.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bin.rs b/src/bin.rs
index c85931b..7850da9 100644
--- a/src/bin.rs
+++ b/src/bin.rs
@@ -681,3 +681,8 @@ fn main() -> Result<(), Error> {
 
     Ok(())
 }
+
+// Verification harnesses; compiled only with `--cfg dune_verif`.
+#[allow(unexpected_cfgs)]
+#[cfg(dune_verif)]
+include!(env!("DUNE_VERIF_BIN"));
-- 
2.43.0


From d01acbbe018f4df02c01e882444b42c4ddda6ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:37 +0000
Subject: [PATCH 02/49] fix: do not split a multi-byte character after a
 backslash in a string literal

---
 src/tokenizer.rs | 4 +++-
 src/tokens.rs    | 4 ----
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index c094193..a45870d 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -304,7 +304,9 @@ fn parse_escape(input: Input<'_>) -> TokenizationResult<'_, Diagnostic> {
             }
         }
         Err(_) => {
-            let (rest, range) = input.split_saturating(2);
+            // skip the backslash and the character after it, which may be multi-byte
+            let len = input.chars().take(2).map(char::len_utf8).sum();
+            let (rest, range) = input.split_at(len);
             let ranges = vec![range].into_boxed_slice();
             return Ok((rest, Diagnostic::InvalidStringEscapes(ranges)));
         }
diff --git a/src/tokens.rs b/src/tokens.rs
index 339cbfa..47cd576 100644
--- a/src/tokens.rs
+++ b/src/tokens.rs
@@ -53,10 +53,6 @@ impl<'a> Input<'a> {
         (new_input, slice)
     }
 
-    pub fn split_saturating(self, n: usize) -> (Self, StrSlice) {
-        self.split_at(n.min(self.len()))
-    }
-
     pub fn split_until(self, other: Input<'_>) -> (Self, StrSlice) {
         assert!(std::ptr::eq(self.str, other.str));
         let diff = self.len() - other.len();
-- 
2.43.0


From 740a8382631fd620589c04f9f95c9e3610dd045d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:53 +0000
Subject: [PATCH 03/49] fix: do not underflow when the last line of a
 multi-line error range is wide

---
 src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 27d69b8..1837feb 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -241,7 +241,7 @@ fn print_error_lines(
         let last_len = lines.last().unwrap().chars().count();
         let suffix = line_after
             .chars()
-            .take(max_width - last_len)
+            .take(max_width.saturating_sub(last_len))
             .chain(RESET.chars())
             .collect::<String>();
         writeln!(f, "\n{}", suffix)?;
-- 
2.43.0


From 380641259a580cf7d5a8112afef338e115fbadf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:35 +0000
Subject: [PATCH 04/49] fix: syntax errors at the start of a line were shown on
 the previous line

---
 src/error.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 1837feb..f716ab8 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -1,7 +1,7 @@
 use common_macros::b_tree_map;
 use detached_str::{Str, StrSlice};
 
-use core::{cmp::max, fmt};
+use core::fmt;
 
 use crate::Diagnostic;
 
@@ -199,10 +199,10 @@ fn print_error_lines(
     let before = &string[..at.start()];
     let after = &string[at.end()..];
 
-    let line_before = before.lines().next_back().unwrap_or_default();
+    let line_before = before.rsplit('\n').next().unwrap_or_default();
     let line_after = after.lines().next().unwrap_or_default();
 
-    let first_line_number = max(before.lines().count(), 1);
+    let first_line_number = before.matches('\n').count() + 1;
 
     writeln!(f, "      |")?;
 
-- 
2.43.0


From 729963cdc141bba407c2c43344772339ab59a86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:18 +0000
Subject: [PATCH 05/49] fix: a prefix ! no longer discards the expression
 before it

---
 src/parser.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 32f8567..37894da 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -676,6 +676,9 @@ fn parse_range(input: Tokens<'_>) -> IResult<Tokens<'_>, Expression, SyntaxError
 
 fn parse_expression_prec_five(input: Tokens<'_>) -> IResult<Tokens<'_>, Expression, SyntaxError> {
     no_terminating_punctuation(input)?;
+    if let Ok(result) = parse_not(input) {
+        return Ok(result);
+    }
     let expr_parser = parse_expression_prec_four;
 
     let (input, mut head) = expr_parser(input)?;
@@ -710,8 +713,6 @@ fn parse_expression_prec_five(input: Tokens<'_>) -> IResult<Tokens<'_>, Expressi
                     vec![head, to],
                 ),
             ));
-        } else if let Ok(result) = parse_not(input) {
-            return Ok(result);
         } else {
             return Ok((input, head));
         }
-- 
2.43.0


From 225b81ab5f4775c4a5e865dafcfeed22950d48df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:07 +0000
Subject: [PATCH 06/49] fix: remainder by zero and of the smallest integer by
 -1 is an error, not a crash

---
 src/expr.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/expr.rs b/src/expr.rs
index 639924e..0bf6997 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -781,7 +781,10 @@ impl Rem for Expression {
     type Output = Self;
     fn rem(self, other: Self) -> Self {
         match (self, other) {
-            (Self::Integer(m), Self::Integer(n)) => Self::Integer(m % n),
+            (Self::Integer(m), Self::Integer(n)) => match m.checked_rem(n) {
+                Some(i) => Self::Integer(i),
+                None => Self::None,
+            },
             _ => Self::None,
         }
     }
-- 
2.43.0


From 42a4384b3ed5d7906b9648e4e9c456ae6bb43db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:07 +0000
Subject: [PATCH 07/49] fix: negating the smallest integer is an error, not a
 crash

---
 src/binary/init/operator_module.rs | 8 +++++++-
 src/expr.rs                        | 5 ++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/binary/init/operator_module.rs b/src/binary/init/operator_module.rs
index f12eef4..4e3e198 100644
--- a/src/binary/init/operator_module.rs
+++ b/src/binary/init/operator_module.rs
@@ -62,7 +62,13 @@ pub fn get(env: &mut Environment) -> Expression {
                 Ok(result)
             } else {
                 // Return the negated original
-                Ok(-result)
+                match (result.clone(), -result) {
+                    (Expression::Integer(n), Expression::None) => Err(Error::CustomError(format!(
+                        "cannot negate {:?}",
+                        n
+                    ))),
+                    (_, negated) => Ok(negated),
+                }
             }
         },
         "subtract two expressions",
diff --git a/src/expr.rs b/src/expr.rs
index 0bf6997..21f3ecb 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -727,7 +727,10 @@ impl Neg for Expression {
     type Output = Expression;
     fn neg(self) -> Self::Output {
         match self {
-            Self::Integer(n) => Self::Integer(-n),
+            Self::Integer(n) => match n.checked_neg() {
+                Some(i) => Self::Integer(i),
+                None => Self::None,
+            },
             Self::Boolean(b) => Self::Boolean(!b),
             Self::Float(n) => Self::Float(-n),
             _ => Self::None,
-- 
2.43.0


From 4e4a102e4d4b84cad0db8c62121b96abbd5dd133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:07 +0000
Subject: [PATCH 08/49] fix: repeating a string a negative number of times no
 longer crashes

---
 src/expr.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/expr.rs b/src/expr.rs
index 21f3ecb..fbbba3e 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -750,7 +750,8 @@ impl Mul for Expression {
             (Self::Float(m), Self::Integer(n)) => Self::Float(m * n as f64),
             (Self::Float(m), Self::Float(n)) => Self::Float(m * n),
             (Self::String(m), Self::Integer(n)) | (Self::Integer(n), Self::String(m)) => {
-                Self::String(m.repeat(n as usize))
+                // Like a list, a string repeated a negative number of times is empty.
+                Self::String(m.repeat(n.max(0) as usize))
             }
             (Self::List(m), Self::Integer(n)) | (Self::Integer(n), Self::List(m)) => {
                 let mut result = vec![];
-- 
2.43.0


From 44d2d5cfec2616639def85ad655bfc5a23282051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:47 +0000
Subject: [PATCH 09/49] fix: permission, missing program and syntax errors
 carry their own error codes

---
 src/error.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index f716ab8..f320164 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -55,9 +55,9 @@ impl Error {
             Self::ForNonList(..) => Self::ERROR_CODE_FOR_NON_LIST,
             Self::RecursionDepth(..) => Self::ERROR_CODE_RECURSION_DEPTH,
             Self::CustomError(..) => Self::ERROR_CODE_CUSTOM_ERROR,
-            Self::PermissionDenied(..) => Self::ERROR_CODE_CUSTOM_ERROR,
-            Self::ProgramNotFound(..) => Self::ERROR_CODE_CUSTOM_ERROR,
-            Self::SyntaxError(..) => Self::ERROR_CODE_CUSTOM_ERROR,
+            Self::PermissionDenied(..) => Self::ERROR_CODE_PERMISSION_DENIED,
+            Self::ProgramNotFound(..) => Self::ERROR_CODE_PROGRAM_NOT_FOUND,
+            Self::SyntaxError(..) => Self::ERROR_CODE_SYNTAX_ERROR,
         }
     }
 }
-- 
2.43.0


From 4628c2664cd3039953a4a4942a4ab7dfb0e7a87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:00 +0000
Subject: [PATCH 10/49] fix: operators applied to too few arguments report an
 error instead of crashing

---
 src/binary/init/operator_module.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/binary/init/operator_module.rs b/src/binary/init/operator_module.rs
index 4e3e198..d9a5c24 100644
--- a/src/binary/init/operator_module.rs
+++ b/src/binary/init/operator_module.rs
@@ -6,6 +6,7 @@ use std::{
 };
 
 fn add_builtin(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Error> {
+    super::check_args_len("+", &args, 1..)?;
     let mut result = args[0].clone().eval(env)?;
     if args.len() == 1 {
         return Expression::Apply(
@@ -45,6 +46,7 @@ pub fn get(env: &mut Environment) -> Expression {
     tmp.define_builtin(
         "-",
         |args, env| {
+            super::check_args_len("-", &args, 1..)?;
             // If there are two expressions or more, subtract them
             let mut result = args[0].clone().eval(env)?;
 
@@ -80,6 +82,7 @@ pub fn get(env: &mut Environment) -> Expression {
             Expression::builtin(
                 "*",
                 |args, env| {
+                    super::check_args_len("*", &args, 1..)?;
                     let mut result = args[0].clone().eval(env)?;
                     for arg in &args[1..] {
                         let old_result = result.clone();
@@ -106,6 +109,7 @@ pub fn get(env: &mut Environment) -> Expression {
             Expression::builtin(
                 "//",
                 |args, env| {
+                    super::check_args_len("//", &args, 1..)?;
                     let mut result = args[0].clone().eval(env)?;
                     for arg in &args[1..] {
                         let old_result = result.clone();
@@ -132,6 +136,7 @@ pub fn get(env: &mut Environment) -> Expression {
             Expression::builtin(
                 "%",
                 |args, env| {
+                    super::check_args_len("%", &args, 1..)?;
                     let mut result = args[0].clone().eval(env)?;
                     for arg in &args[1..] {
                         let old_result = result.clone();
@@ -197,6 +202,7 @@ pub fn get(env: &mut Environment) -> Expression {
     tmp.define_builtin(
         "==",
         |args, env| {
+            super::check_args_len("==", &args, 2..)?;
             Ok(Expression::Boolean(
                 args[0].eval(env)? == args[1].eval(env)?,
             ))
@@ -207,6 +213,7 @@ pub fn get(env: &mut Environment) -> Expression {
     tmp.define_builtin(
         "!=",
         |args, env| {
+            super::check_args_len("!=", &args, 2..)?;
             Ok(Expression::Boolean(
                 args[0].eval(env)? != args[1].eval(env)?,
             ))
@@ -217,6 +224,7 @@ pub fn get(env: &mut Environment) -> Expression {
     tmp.define_builtin(
         "<",
         |args, env| {
+            super::check_args_len("<", &args, 2..)?;
             Ok(Expression::Boolean(
                 args[0].clone().eval(env)? < args[1].clone().eval(env)?,
             ))
@@ -227,6 +235,7 @@ pub fn get(env: &mut Environment) -> Expression {
     tmp.define_builtin(
         "<=",
         |args, env| {
+            super::check_args_len("<=", &args, 2..)?;
             Ok(Expression::Boolean(
                 args[0].clone().eval(env)? <= args[1].clone().eval(env)?,
             ))
@@ -237,6 +246,7 @@ pub fn get(env: &mut Environment) -> Expression {
     tmp.define_builtin(
         ">",
         |args, env| {
+            super::check_args_len(">", &args, 2..)?;
             Ok(Expression::Boolean(
                 args[0].clone().eval(env)? > args[1].clone().eval(env)?,
             ))
@@ -247,6 +257,7 @@ pub fn get(env: &mut Environment) -> Expression {
     tmp.define_builtin(
         ">=",
         |args, env| {
+            super::check_args_len(">=", &args, 2..)?;
             Ok(Expression::Boolean(
                 args[0].clone().eval(env)? >= args[1].clone().eval(env)?,
             ))
@@ -257,6 +268,7 @@ pub fn get(env: &mut Environment) -> Expression {
     tmp.define_builtin(
         "@",
         |args, env| {
+            super::check_args_len("@", &args, 1..)?;
             let mut val = args[0].eval(env)?;
             for arg in &args[1..] {
                 val = match arg {
-- 
2.43.0


From e9be256462d628506794a7b8bde8498a8cf944ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:01 +0000
Subject: [PATCH 11/49] fix: string functions applied to no arguments report an
 error instead of crashing

---
 src/binary/init/string_module.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/binary/init/string_module.rs b/src/binary/init/string_module.rs
index 62b7a76..dee5513 100644
--- a/src/binary/init/string_module.rs
+++ b/src/binary/init/string_module.rs
@@ -105,6 +105,7 @@ pub fn get() -> Expression {
         }, "get the width of a string"),
 
         String::from("is-whitespace?") => Expression::builtin("is-whitespace?", |args, env| {
+            super::check_args_len("is-whitespace?", &args, 1..)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     Ok(Expression::Boolean(x.chars().all(|c| c.is_whitespace())))
@@ -117,6 +118,7 @@ pub fn get() -> Expression {
         }, "is this string whitespace?"),
 
         String::from("is-alpha?") => Expression::builtin("is-alpha?", |args, env| {
+            super::check_args_len("is-alpha?", &args, 1..)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     Ok(Expression::Boolean(x.chars().all(|c| c.is_alphabetic())))
@@ -129,6 +131,7 @@ pub fn get() -> Expression {
         }, "is this string alphabetic?"),
 
         String::from("is-alphanumeric?") => Expression::builtin("is-alphanumeric?", |args, env| {
+            super::check_args_len("is-alphanumeric?", &args, 1..)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     Ok(Expression::Boolean(x.chars().all(|c| c.is_alphanumeric())))
@@ -141,6 +144,7 @@ pub fn get() -> Expression {
         }, "is this string alphanumeric?"),
 
         String::from("is-numeric?") => Expression::builtin("is-numeric?", |args, env| {
+            super::check_args_len("is-numeric?", &args, 1..)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     Ok(Expression::Boolean(x.chars().all(|c| c.is_numeric())))
@@ -160,6 +164,7 @@ pub fn get() -> Expression {
         }, "split a string on a given character"),
 
         String::from("to-lower") => Expression::builtin("to-lower", |args, env| {
+            super::check_args_len("to-lower", &args, 1..)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     Ok(Expression::String(x.to_lowercase()))
@@ -172,6 +177,7 @@ pub fn get() -> Expression {
         }, "convert a string to lowercase"),
 
         String::from("to-upper") => Expression::builtin("to-upper", |args, env| {
+            super::check_args_len("to-upper", &args, 1..)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     Ok(Expression::String(x.to_uppercase()))
@@ -184,6 +190,7 @@ pub fn get() -> Expression {
         }, "convert a string to uppercase"),
 
         String::from("to-title") => Expression::builtin("to-title", |args, env| {
+            super::check_args_len("to-title", &args, 1..)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     let mut title = String::new();
@@ -209,6 +216,7 @@ pub fn get() -> Expression {
         }, "convert a string to title case"),
 
         String::from("is-lower") => Expression::builtin("is-lower", |args, env| {
+            super::check_args_len("is-lower", &args, 1..)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     Ok(Expression::Boolean(x.chars().all(|c| c.is_lowercase())))
@@ -221,6 +229,7 @@ pub fn get() -> Expression {
         }, "is this string lowercase?"),
 
         String::from("is-upper") => Expression::builtin("is-upper", |args, env| {
+            super::check_args_len("is-upper", &args, 1..)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     Ok(Expression::Boolean(x.chars().all(|c| c.is_uppercase())))
@@ -233,6 +242,7 @@ pub fn get() -> Expression {
         }, "is this string uppercase?"),
 
         String::from("is-title") => Expression::builtin("is-title", |args, env| {
+            super::check_args_len("is-title", &args, 1..)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     let mut title = String::new();
@@ -357,6 +367,7 @@ pub fn get() -> Expression {
         }, "split a string at a given index"),
 
         String::from("trim") => Expression::builtin("trim", |args, env| {
+            super::check_args_len("trim", &args, 1..)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     Ok(Expression::String(x.trim().to_string()))
@@ -369,6 +380,7 @@ pub fn get() -> Expression {
         }, "trim whitespace from a string"),
 
         String::from("trim-start") => Expression::builtin("trim-start", |args, env| {
+            super::check_args_len("trim-start", &args, 1..)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     Ok(Expression::String(x.trim_start().to_string()))
@@ -381,6 +393,7 @@ pub fn get() -> Expression {
         }, "trim whitespace from the start of a string"),
 
         String::from("trim-end") => Expression::builtin("trim-end", |args, env| {
+            super::check_args_len("trim-end", &args, 1..)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     Ok(Expression::String(x.trim_end().to_string()))
-- 
2.43.0


From ac6528d01443545eae03291aa1284183a068cb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:15 +0000
Subject: [PATCH 12/49] fix: core and fmt functions applied to no arguments
 report an error instead of crashing

---
 src/binary/init/fmt_module.rs | 23 +++++++++++++++++++++++
 src/binary/init/mod.rs        | 27 ++++++++++++++++++---------
 2 files changed, 41 insertions(+), 9 deletions(-)

diff --git a/src/binary/init/fmt_module.rs b/src/binary/init/fmt_module.rs
index e58d170..46d71dc 100644
--- a/src/binary/init/fmt_module.rs
+++ b/src/binary/init/fmt_module.rs
@@ -15,95 +15,118 @@ pub fn get() -> Expression {
             "create a hyperlink on the console"),
 
         String::from("bold") => Expression::builtin("bold", |args, env| {
+            super::check_args_len("bold", &args, 1..)?;
             Ok(format!("\x1b[1m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "convert text to bold on the console"),
 
         String::from("faint") => Expression::builtin("faint", |args, env| {
+            super::check_args_len("faint", &args, 1..)?;
             Ok(format!("\x1b[2m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "convert text to italics on the console"),
 
         String::from("italics") => Expression::builtin("italics", |args, env| {
+            super::check_args_len("italics", &args, 1..)?;
             Ok(format!("\x1b[3m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "convert text to italics on the console"),
 
         String::from("underline") => Expression::builtin("underline", |args, env| {
+            super::check_args_len("underline", &args, 1..)?;
             Ok(format!("\x1b[4m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "underline text on the console"),
 
         String::from("blink") => Expression::builtin("blink", |args, env| {
+            super::check_args_len("blink", &args, 1..)?;
             Ok(format!("\x1b[5m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "blink text on the console"),
 
         String::from("invert") => Expression::builtin("invert", |args, env| {
+            super::check_args_len("invert", &args, 1..)?;
             Ok(format!("\x1b[7m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "invert text on the console"),
 
         String::from("strike") => Expression::builtin("strike", |args, env| {
+            super::check_args_len("strike", &args, 1..)?;
             Ok(format!("\x1b[9m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "strike out text on the console"),
 
         String::from("black") => Expression::builtin("black", |args, env| {
+            super::check_args_len("black", &args, 1..)?;
             Ok(format!("\x1b[90m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "convert text to black on the console"),
 
         String::from("red") => Expression::builtin("red", |args, env| {
+            super::check_args_len("red", &args, 1..)?;
             Ok(format!("\x1b[91m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "convert text to red on the console"),
 
         String::from("green") => Expression::builtin("green", |args, env| {
+            super::check_args_len("green", &args, 1..)?;
             Ok(format!("\x1b[92m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "convert text to green on the console"),
 
         String::from("yellow") => Expression::builtin("yellow", |args, env| {
+            super::check_args_len("yellow", &args, 1..)?;
             Ok(format!("\x1b[93m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "convert text to yellow on the console"),
 
         String::from("blue") => Expression::builtin("blue", |args, env| {
+            super::check_args_len("blue", &args, 1..)?;
             Ok(format!("\x1b[94m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "convert text to blue on the console"),
 
         String::from("magenta") => Expression::builtin("magenta", |args, env| {
+            super::check_args_len("magenta", &args, 1..)?;
             Ok(format!("\x1b[95m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "convert text to magenta on the console"),
 
         String::from("cyan") => Expression::builtin("cyan", |args, env| {
+            super::check_args_len("cyan", &args, 1..)?;
             Ok(format!("\x1b[96m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "convert text to cyan on the console"),
 
         String::from("white") => Expression::builtin("white", |args, env| {
+            super::check_args_len("white", &args, 1..)?;
             Ok(format!("\x1b[97m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "convert text to white on the console"),
 
         String::from("dark") => b_tree_map! {
             String::from("black") => Expression::builtin("black", |args, env| {
+                super::check_args_len("black", &args, 1..)?;
                 Ok(format!("\x1b[30m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
             }, "convert text to black on the console"),
 
             String::from("red") => Expression::builtin("red", |args, env| {
+                super::check_args_len("red", &args, 1..)?;
                 Ok(format!("\x1b[31m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
             }, "convert text to red on the console"),
 
             String::from("green") => Expression::builtin("green", |args, env| {
+                super::check_args_len("green", &args, 1..)?;
                 Ok(format!("\x1b[32m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
             }, "convert text to green on the console"),
 
             String::from("yellow") => Expression::builtin("yellow", |args, env| {
+                super::check_args_len("yellow", &args, 1..)?;
                 Ok(format!("\x1b[33m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
             }, "convert text to yellow on the console"),
 
             String::from("blue") => Expression::builtin("blue", |args, env| {
+                super::check_args_len("blue", &args, 1..)?;
                 Ok(format!("\x1b[34m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
             }, "convert text to blue on the console"),
 
             String::from("magenta") => Expression::builtin("magenta", |args, env| {
+                super::check_args_len("magenta", &args, 1..)?;
                 Ok(format!("\x1b[35m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
             }, "convert text to magenta on the console"),
 
             String::from("cyan") => Expression::builtin("cyan", |args, env| {
+                super::check_args_len("cyan", &args, 1..)?;
                 Ok(format!("\x1b[36m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
             }, "convert text to cyan on the console"),
 
             String::from("white") => Expression::builtin("white", |args, env| {
+                super::check_args_len("white", &args, 1..)?;
                 Ok(format!("\x1b[37m{}\x1b[m\x6b[0m", args[0].eval(env)?).into())
             }, "convert text to white on the console"),
         }.into()
diff --git a/src/binary/init/mod.rs b/src/binary/init/mod.rs
index 4d8e79a..a152a81 100644
--- a/src/binary/init/mod.rs
+++ b/src/binary/init/mod.rs
@@ -191,13 +191,17 @@ pub fn init(env: &mut Environment) {
 
     env.define_builtin(
         "str",
-        |args, env| Ok(Expression::String(args[0].eval(env)?.to_string())),
+        |args, env| {
+            Ok(Expression::String(
+                first_arg("str", &args)?.eval(env)?.to_string(),
+            ))
+        },
         "format an expression to a string",
     );
 
     env.define_builtin(
         "int",
-        |args, env| match args[0].eval(env)? {
+        |args, env| match first_arg("int", &args)?.eval(env)? {
             Expression::Integer(x) => Ok(Expression::Integer(x)),
             Expression::Float(x) => Ok(Expression::Integer(x as Int)),
             Expression::String(x) => {
@@ -264,7 +268,7 @@ pub fn init(env: &mut Environment) {
 
     env.define_builtin(
         "keys",
-        |args, env| match args[0].eval(env)? {
+        |args, env| match first_arg("keys", &args)?.eval(env)? {
             Expression::Map(m) => Ok(m.into_keys().collect::<Vec<_>>().into()),
             otherwise => Err(Error::CustomError(format!(
                 "cannot get the keys of {}",
@@ -276,7 +280,7 @@ pub fn init(env: &mut Environment) {
 
     env.define_builtin(
         "vals",
-        |args, env| match args[0].eval(env)? {
+        |args, env| match first_arg("vals", &args)?.eval(env)? {
             Expression::Map(m) => Ok(m.into_values().collect::<Vec<_>>().into()),
             otherwise => Err(Error::CustomError(format!(
                 "cannot get the values of {}",
@@ -294,7 +298,7 @@ pub fn init(env: &mut Environment) {
 
     env.define_builtin(
         "len",
-        |args, env| match args[0].eval(env)? {
+        |args, env| match first_arg("len", &args)?.eval(env)? {
             Expression::Map(m) => Ok(Expression::Integer(m.len() as Int)),
             Expression::List(list) => Ok(Expression::Integer(list.len() as Int)),
             Expression::Symbol(x) | Expression::String(x) => {
@@ -371,7 +375,7 @@ pub fn init(env: &mut Environment) {
 
     env.define_builtin(
         "lines",
-        |args, env| match args[0].eval(env)? {
+        |args, env| match first_arg("lines", &args)?.eval(env)? {
             Expression::String(x) => Ok(Expression::List(
                 x.lines()
                     .map(|ch| Expression::String(ch.to_string()))
@@ -389,14 +393,14 @@ pub fn init(env: &mut Environment) {
         "eval",
         |args, env| {
             let mut new_env = env.clone();
-            args[0].clone().eval(env)?.eval(&mut new_env)
+            first_arg("eval", &args)?.eval(env)?.eval(&mut new_env)
         },
         "evaluate an expression without changing the environment",
     );
 
     env.define_builtin(
         "exec",
-        |args, env| args[0].clone().eval(env)?.eval(env),
+        |args, env| first_arg("exec", &args)?.eval(env)?.eval(env),
         "evaluate an expression in the current environment",
     );
 
@@ -424,7 +428,7 @@ pub fn init(env: &mut Environment) {
     env.define_builtin(
         "report",
         |args, env| {
-            let val = args[0].eval(env)?;
+            let val = first_arg("report", &args)?.eval(env)?;
             match val {
                 Expression::Map(_) => println!("{}", val),
                 Expression::String(s) => println!("{}", s),
@@ -438,6 +442,11 @@ pub fn init(env: &mut Environment) {
     );
 }
 
+fn first_arg<'a>(name: &str, args: &'a [Expression]) -> Result<&'a Expression, Error> {
+    check_args_len(name, args, 1..)?;
+    Ok(&args[0])
+}
+
 fn check_args_len(
     name: impl ToString,
     args: &[Expression],
-- 
2.43.0


From c575d950ce63fe68ea159febc9442dedcbd102e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:17 +0000
Subject: [PATCH 13/49] fix: list@nth outside the list is an error, not a crash

---
 src/binary/init/list_module.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/binary/init/list_module.rs b/src/binary/init/list_module.rs
index 1ba42df..4502fa6 100644
--- a/src/binary/init/list_module.rs
+++ b/src/binary/init/list_module.rs
@@ -392,10 +392,14 @@ fn nth(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Error
     let list = args[1].eval(env)?;
     if let Expression::Integer(n) = n {
         if let Expression::List(list) = list {
-            if n < 0 {
-                Ok(list[list.len() - (-n as usize)].clone())
-            } else {
-                Ok(list[n as usize].clone())
+            // A negative index counts from the end of the list.
+            let i = if n < 0 { n + list.len() as Int } else { n };
+            match usize::try_from(i).ok().and_then(|i| list.get(i)) {
+                Some(item) => Ok(item.clone()),
+                None => Err(Error::CustomError(format!(
+                    "index {} out of bounds for {:?}",
+                    n, list
+                ))),
             }
         } else {
             Err(Error::CustomError(
-- 
2.43.0


From 68d863518e507b97dec808d6424b87081dbd9fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:17 +0000
Subject: [PATCH 14/49] fix: list@head returns the first element of a list

---
 src/binary/init/list_module.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/binary/init/list_module.rs b/src/binary/init/list_module.rs
index 4502fa6..6b4c565 100644
--- a/src/binary/init/list_module.rs
+++ b/src/binary/init/list_module.rs
@@ -72,9 +72,9 @@ fn head(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Erro
     let list = args[0].eval(env)?;
     if let Expression::List(list) = list {
         if list.is_empty() {
-            Ok(Expression::List(list))
-        } else {
             Ok(Expression::None)
+        } else {
+            Ok(list[0].clone())
         }
     } else {
         Err(Error::CustomError(
-- 
2.43.0


From a1a283e42728546db6643d6ff66d425dcf94b6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:17 +0000
Subject: [PATCH 15/49] fix: shift letters by any amount in string@caesar

---
 src/binary/init/string_module.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/init/string_module.rs b/src/binary/init/string_module.rs
index dee5513..43a9d5e 100644
--- a/src/binary/init/string_module.rs
+++ b/src/binary/init/string_module.rs
@@ -58,7 +58,7 @@ pub fn get() -> Expression {
                             // Get the offset from the base
                             let offset = c as u8 - base;
                             // Shift the offset
-                            let shifted_offset = (offset + (i as u8)) % 26;
+                            let shifted_offset = (offset + i.rem_euclid(26) as u8) % 26;
                             // Get the shifted character
                             let shifted_char = (shifted_offset + base) as char;
                             // Add the shifted character to the result
-- 
2.43.0


From 008e5f0442893e8a697adcb280ddac5f0c516376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:17 +0000
Subject: [PATCH 16/49] fix: splitting a string outside of it or inside a
 character is an error, not a crash

---
 src/binary/init/string_module.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/binary/init/string_module.rs b/src/binary/init/string_module.rs
index 43a9d5e..1357a5d 100644
--- a/src/binary/init/string_module.rs
+++ b/src/binary/init/string_module.rs
@@ -357,6 +357,12 @@ pub fn get() -> Expression {
             let index = args[1].clone().eval(env)?;
             Ok(match (expr, index) {
                 (Expression::Symbol(x) | Expression::String(x), Expression::Integer(i)) => {
+                    if !x.is_char_boundary(i as usize) {
+                        return Err(Error::CustomError(format!(
+                            "cannot split {:?} at index {}",
+                            x, i
+                        )));
+                    }
                     Expression::List(vec![
                         Expression::String(x[..i as usize].to_string()),
                         Expression::String(x[i as usize..].to_string()),
-- 
2.43.0


From 74c7fceed3fad3711ddc98e35d49b77da4fa0bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:17 +0000
Subject: [PATCH 17/49] fix: inserting inside a character of a string is an
 error, not a crash

---
 src/binary/init/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/init/mod.rs b/src/binary/init/mod.rs
index a152a81..7e1049d 100644
--- a/src/binary/init/mod.rs
+++ b/src/binary/init/mod.rs
@@ -244,7 +244,7 @@ pub fn init(env: &mut Environment) {
                     }
                 }
                 (Expression::String(s), Expression::Integer(i)) => {
-                    if *i as usize <= s.len() {
+                    if s.is_char_boundary(*i as usize) {
                         s.insert_str(*i as usize, &val.to_string());
                     } else {
                         return Err(Error::CustomError(format!(
-- 
2.43.0


From 915cfc8f51fdf685693321a2c3b4192fe3e59ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:17 +0000
Subject: [PATCH 18/49] fix: integer overflow in math@sum, product, fact and
 abs is an error

---
 src/binary/init/math_module.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/binary/init/math_module.rs b/src/binary/init/math_module.rs
index b1e757e..b5b898d 100644
--- a/src/binary/init/math_module.rs
+++ b/src/binary/init/math_module.rs
@@ -2,6 +2,16 @@ use super::curry;
 use common_macros::b_tree_map;
 use dune::{Environment, Error, Expression, Int};
 
+fn checked_add(a: Int, b: Int) -> Result<Int, Error> {
+    a.checked_add(b)
+        .ok_or_else(|| Error::CustomError(format!("overflow when adding {} and {}", a, b)))
+}
+
+fn checked_mul(a: Int, b: Int) -> Result<Int, Error> {
+    a.checked_mul(b)
+        .ok_or_else(|| Error::CustomError(format!("overflow when multiplying {} and {}", a, b)))
+}
+
 pub fn get(env: &mut Environment) -> Expression {
     (b_tree_map! {
         String::from("E")   => std::f64::consts::E.into(),
@@ -81,12 +91,12 @@ pub fn get(env: &mut Environment) -> Expression {
             let mut float_sum = 0.0;
             for arg in &args {
                 match arg.eval(env)? {
-                    Expression::Integer(i) => int_sum += i,
+                    Expression::Integer(i) => int_sum = checked_add(int_sum, i)?,
                     Expression::Float(f) => float_sum += f,
                     Expression::List(list) => {
                         for item in list {
                             match item.eval(env)? {
-                                Expression::Integer(i) => int_sum += i,
+                                Expression::Integer(i) => int_sum = checked_add(int_sum, i)?,
                                 Expression::Float(f) => float_sum += f,
                                 e => return Err(Error::CustomError(format!("invalid sum argument {:?}", e)))
                             }
@@ -109,12 +119,12 @@ pub fn get(env: &mut Environment) -> Expression {
 
             for arg in &args {
                 match arg.eval(env)? {
-                    Expression::Integer(i) => int_product *= i,
+                    Expression::Integer(i) => int_product = checked_mul(int_product, i)?,
                     Expression::Float(f) => float_product *= f,
                     Expression::List(list) => {
                         for item in list {
                             match item.eval(env)? {
-                                Expression::Integer(i) => int_product *= i,
+                                Expression::Integer(i) => int_product = checked_mul(int_product, i)?,
                                 Expression::Float(f) => float_product *= f,
                                 e => return Err(Error::CustomError(format!("invalid product argument {:?}", e)))
                             }
@@ -140,7 +150,7 @@ pub fn get(env: &mut Environment) -> Expression {
                     } else {
                         let mut result = 1;
                         for n in 1..=i {
-                            result *= n;
+                            result = checked_mul(result, n)?;
                         }
                         Ok(result.into())
                     }
@@ -159,7 +169,10 @@ pub fn get(env: &mut Environment) -> Expression {
         String::from("abs") => Expression::builtin("abs", |args, env| {
             super::check_exact_args_len("abs", &args, 1)?;
             match args[0].eval(env)? {
-                Expression::Integer(i) => Ok(i.abs().into()),
+                Expression::Integer(i) => match i.checked_abs() {
+                    Some(n) => Ok(n.into()),
+                    None => Err(Error::CustomError(format!("overflow when taking the absolute value of {}", i)))
+                },
                 Expression::Float(f) => Ok(f.abs().into()),
                 e => Err(Error::CustomError(format!("invalid abs argument {:?}", e)))
             }
-- 
2.43.0


From ffe77b3b253dd1f5cf749b70d667c496170c3d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:17 +0000
Subject: [PATCH 19/49] fix: shifting by a negative amount or by 64 bits or
 more is an error

---
 src/binary/init/math_module.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/binary/init/math_module.rs b/src/binary/init/math_module.rs
index b5b898d..e099515 100644
--- a/src/binary/init/math_module.rs
+++ b/src/binary/init/math_module.rs
@@ -12,6 +12,15 @@ fn checked_mul(a: Int, b: Int) -> Result<Int, Error> {
         .ok_or_else(|| Error::CustomError(format!("overflow when multiplying {} and {}", a, b)))
 }
 
+/// The number of bits to shift by, if it is less than the width of an integer.
+fn shift_amount(n: Int) -> Result<u32, Error> {
+    if (0..64).contains(&n) {
+        Ok(n as u32)
+    } else {
+        Err(Error::CustomError(format!("invalid shift amount {}", n)))
+    }
+}
+
 pub fn get(env: &mut Environment) -> Expression {
     (b_tree_map! {
         String::from("E")   => std::f64::consts::E.into(),
@@ -35,7 +44,7 @@ pub fn get(env: &mut Environment) -> Expression {
             };
 
             let a = a as u64;
-            let b = b as u64;
+            let b = shift_amount(b)?;
 
             Ok(((a >> b) as Int).into())
         }, "logical right shift"), 2),
@@ -52,7 +61,7 @@ pub fn get(env: &mut Environment) -> Expression {
                 e => return Err(Error::CustomError(format!("invalid a-rsh argument {}", e)))
             };
 
-            Ok((a >> b).into())
+            Ok((a >> shift_amount(b)?).into())
         }, "arithmetic right shift"), 2),
 
         String::from("rsh") => curry(Expression::builtin("a-rsh", |args, env| {
@@ -67,7 +76,7 @@ pub fn get(env: &mut Environment) -> Expression {
                 e => return Err(Error::CustomError(format!("invalid a-rsh argument {}", e)))
             };
 
-            Ok((a >> b).into())
+            Ok((a >> shift_amount(b)?).into())
         }, "arithmetic right shift"), 2),
 
         String::from("lsh") => Expression::builtin("lsh", |args, env| {
@@ -82,7 +91,7 @@ pub fn get(env: &mut Environment) -> Expression {
                 e => return Err(Error::CustomError(format!("invalid lsh argument {}", e)))
             };
 
-            Ok((a << b).into())
+            Ok((a << shift_amount(b)?).into())
         }, "left shift"),
 
 
-- 
2.43.0


From 22e4d78a3147c69b4c39c9bcd89dc2a546187bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:17 +0000
Subject: [PATCH 20/49] fix: negative odd numbers are odd

---
 src/binary/init/math_module.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/binary/init/math_module.rs b/src/binary/init/math_module.rs
index e099515..5537fc3 100644
--- a/src/binary/init/math_module.rs
+++ b/src/binary/init/math_module.rs
@@ -307,8 +307,8 @@ pub fn get(env: &mut Environment) -> Expression {
         String::from("isodd") => Expression::builtin("isodd", |args, env| {
             super::check_exact_args_len("odd", &args, 1)?;
             Ok(match args[0].eval(env)? {
-                Expression::Integer(i) => i % 2 == 1,
-                Expression::Float(f) => (f as Int) % 2 == 1,
+                Expression::Integer(i) => i % 2 != 0,
+                Expression::Float(f) => (f as Int) % 2 != 0,
                 e => return Err(Error::CustomError(format!("invalid isodd argument {}", e)))
             }.into())
         }, "is a number odd?"),
-- 
2.43.0


From 86bbbda9ad6f535218728945139f34f949b739cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:17 +0000
Subject: [PATCH 21/49] fix: math@pow no longer truncates its exponent to 32
 bits

---
 src/binary/init/math_module.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/binary/init/math_module.rs b/src/binary/init/math_module.rs
index 5537fc3..ff2e593 100644
--- a/src/binary/init/math_module.rs
+++ b/src/binary/init/math_module.rs
@@ -12,6 +12,16 @@ fn checked_mul(a: Int, b: Int) -> Result<Int, Error> {
         .ok_or_else(|| Error::CustomError(format!("overflow when multiplying {} and {}", a, b)))
 }
 
+fn checked_pow(base: Int, exponent: Int) -> Option<Int> {
+    match (base, u32::try_from(exponent)) {
+        (1, _) => Some(1),
+        (-1, _) => Some(if exponent % 2 == 0 { 1 } else { -1 }),
+        (0, Err(_)) if exponent > 0 => Some(0),
+        (_, Ok(exponent)) => base.checked_pow(exponent),
+        _ => None,
+    }
+}
+
 /// The number of bits to shift by, if it is less than the width of an integer.
 fn shift_amount(n: Int) -> Result<u32, Error> {
     if (0..64).contains(&n) {
@@ -328,7 +338,7 @@ pub fn get(env: &mut Environment) -> Expression {
                 (Expression::Float(base), Expression::Float(exponent)) => Ok(base.powf(exponent).into()),
                 (Expression::Float(base), Expression::Integer(exponent)) => Ok(base.powf(exponent as f64).into()),
                 (Expression::Integer(base), Expression::Float(exponent)) => Ok((base as f64).powf(exponent).into()),
-                (Expression::Integer(base), Expression::Integer(exponent)) => match base.checked_pow(exponent as u32) {
+                (Expression::Integer(base), Expression::Integer(exponent)) => match checked_pow(base, exponent) {
                     Some(n) => Ok(n.into()),
                     None => Err(Error::CustomError(format!("overflow when raising int {} to the power {}", base, exponent)))
                 },
-- 
2.43.0


From 0195bbef8b901ccc3a75a5cdf03940cc7eedb6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:17 +0000
Subject: [PATCH 22/49] fix: fn@curry with a negative number of arguments is an
 error, not a crash

---
 src/binary/init/fn_module.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/binary/init/fn_module.rs b/src/binary/init/fn_module.rs
index c9d16b9..6a64f41 100644
--- a/src/binary/init/fn_module.rs
+++ b/src/binary/init/fn_module.rs
@@ -64,6 +64,12 @@ fn curry_builtin(args: Vec<Expression>, env: &mut Environment) -> Result<Express
     }
     let f = args[0].eval(env)?;
     if let Expression::Integer(arg_count) = args[1].eval(env)? {
+        if arg_count < 0 {
+            return Err(Error::CustomError(format!(
+                "cannot curry {} arguments",
+                arg_count
+            )));
+        }
         curry_env(f, arg_count as usize, env)
     } else {
         Ok(f)
-- 
2.43.0


From 2d925e47aa7b0c276658e31907c401f76f2de5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:17 +0000
Subject: [PATCH 23/49] fix: fmt@dark@white no longer leaves k[0m behind the
 text

---
 src/binary/init/fmt_module.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/init/fmt_module.rs b/src/binary/init/fmt_module.rs
index 46d71dc..7c1262d 100644
--- a/src/binary/init/fmt_module.rs
+++ b/src/binary/init/fmt_module.rs
@@ -127,7 +127,7 @@ pub fn get() -> Expression {
 
             String::from("white") => Expression::builtin("white", |args, env| {
                 super::check_args_len("white", &args, 1..)?;
-                Ok(format!("\x1b[37m{}\x1b[m\x6b[0m", args[0].eval(env)?).into())
+                Ok(format!("\x1b[37m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
             }, "convert text to white on the console"),
         }.into()
     })
-- 
2.43.0


From 928e865b5155cfeb76c86c42960236d6b4a356cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:17 +0000
Subject: [PATCH 24/49] fix: a table with a list under a long key can be
 printed

---
 src/expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr.rs b/src/expr.rs
index fbbba3e..d1228b6 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -304,7 +304,7 @@ impl fmt::Display for Expression {
                             t.add_row(row!(key, format!("{:specified_width$}", val)));
                         }
                         Self::List(_) => {
-                            let w = specified_width - key.len() - 3;
+                            let w = specified_width.saturating_sub(key.len() + 3);
                             let formatted = format!("{:w$}", val);
                             t.add_row(row!(key, textwrap::fill(&formatted, w),));
                         }
-- 
2.43.0


From 891ceb20aa74e887512750893614aca269354282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:31 +0000
Subject: [PATCH 25/49] fix: curried functions work when the caller has
 variables named arg0, arg1, ...

---
 src/binary/init/fn_module.rs     | 2 +-
 src/binary/init/string_module.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/binary/init/fn_module.rs b/src/binary/init/fn_module.rs
index 6a64f41..e8f1e7b 100644
--- a/src/binary/init/fn_module.rs
+++ b/src/binary/init/fn_module.rs
@@ -70,7 +70,7 @@ fn curry_builtin(args: Vec<Expression>, env: &mut Environment) -> Result<Express
                 arg_count
             )));
         }
-        curry_env(f, arg_count as usize, env)
+        Ok(curry(f, arg_count as usize))
     } else {
         Ok(f)
     }
diff --git a/src/binary/init/string_module.rs b/src/binary/init/string_module.rs
index 1357a5d..779d155 100644
--- a/src/binary/init/string_module.rs
+++ b/src/binary/init/string_module.rs
@@ -1,4 +1,4 @@
-use super::fn_module::curry_env;
+use super::curry;
 use common_macros::b_tree_map;
 use dune::{Environment, Error, Expression};
 
@@ -157,7 +157,7 @@ pub fn get() -> Expression {
         }, "is this string numeric?"),
 
         String::from("split") => Expression::builtin("split", |args, env| {
-            curry_env(Expression::builtin("", split, ""), 2, env)?
+            curry(Expression::builtin("", split, ""), 2)
                 .eval(env)?
                 .apply(args)
                 .eval(env)
-- 
2.43.0


From fbe1f423d673c4c6f74bb9f1a62bcd8f49463985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:31 +0000
Subject: [PATCH 26/49] fix: list@list evaluates its arguments

---
 src/binary/init/list_module.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/binary/init/list_module.rs b/src/binary/init/list_module.rs
index 6b4c565..d09a120 100644
--- a/src/binary/init/list_module.rs
+++ b/src/binary/init/list_module.rs
@@ -43,8 +43,8 @@ pub fn get() -> Expression {
     .into()
 }
 
-fn list(args: Vec<Expression>, _env: &mut Environment) -> Result<Expression, Error> {
-    Ok(Expression::List(args))
+fn list(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Error> {
+    Expression::List(args).eval(env)
 }
 
 fn tail(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Error> {
-- 
2.43.0


From 89a3163eb02b9e7d5f7364a960714c62db10069d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:31 +0000
Subject: [PATCH 27/49] fix: list@len, string@len and dict@len count the
 characters of a string, as len does

---
 src/binary/init/dict_module.rs | 2 +-
 src/binary/init/list_module.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/binary/init/dict_module.rs b/src/binary/init/dict_module.rs
index 6d503e6..48a8f61 100644
--- a/src/binary/init/dict_module.rs
+++ b/src/binary/init/dict_module.rs
@@ -101,7 +101,7 @@ pub fn get() -> Expression {
             Ok(match expr {
                 Expression::Map(map) => Expression::Integer(map.len() as Int),
                 Expression::List(list) => Expression::Integer(list.len() as Int),
-                Expression::String(string) => Expression::Integer(string.len() as Int),
+                Expression::String(string) => Expression::Integer(string.chars().count() as Int),
                 Expression::Bytes(bytes) => Expression::Integer(bytes.len() as Int),
                 _ => Expression::None
             })
diff --git a/src/binary/init/list_module.rs b/src/binary/init/list_module.rs
index d09a120..4d0dd86 100644
--- a/src/binary/init/list_module.rs
+++ b/src/binary/init/list_module.rs
@@ -161,7 +161,7 @@ pub(super) fn len(args: Vec<Expression>, env: &mut Environment) -> Result<Expres
     let list = args[0].eval(env)?;
     match list {
         Expression::List(list) => Ok(Expression::Integer(list.len() as Int)),
-        Expression::String(string) => Ok(Expression::Integer(string.len() as Int)),
+        Expression::String(string) => Ok(Expression::Integer(string.chars().count() as Int)),
         Expression::Bytes(bytes) => Ok(Expression::Integer(bytes.len() as Int)),
         Expression::Map(map) => Ok(Expression::Integer(map.len() as Int)),
         _ => Err(Error::CustomError(
-- 
2.43.0


From 5d3d472fd7ce8a9dd58b59596329e9fae1cf7ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:31 +0000
Subject: [PATCH 28/49] fix: the factorial of a float uses Stirling's formula

---
 src/binary/init/math_module.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/binary/init/math_module.rs b/src/binary/init/math_module.rs
index ff2e593..3de0709 100644
--- a/src/binary/init/math_module.rs
+++ b/src/binary/init/math_module.rs
@@ -177,8 +177,10 @@ pub fn get(env: &mut Environment) -> Expression {
                 Expression::Float(f) => {
                     if f < 0.0 {
                         Err(Error::CustomError("cannot take the factorial of a negative number".to_string()))
+                    } else if f == 0.0 {
+                        Ok(1.0.into())
                     } else {
-                        Ok(f64::round(f64::exp(f64::ln(f) * f64::ln(f)) * f64::sqrt(2.0 * std::f64::consts::PI * f) * (1.0 + 1.0 / (12.0 * f) + 1.0 / (288.0 * f * f) - 139.0 / (51840.0 * f * f * f) - 571.0 / (2488320.0 * f * f * f * f))).into())
+                        Ok(f64::round(f64::exp(f * f64::ln(f) - f) * f64::sqrt(2.0 * std::f64::consts::PI * f) * (1.0 + 1.0 / (12.0 * f) + 1.0 / (288.0 * f * f) - 139.0 / (51840.0 * f * f * f) - 571.0 / (2488320.0 * f * f * f * f))).into())
                     }
                 },
                 e => Err(Error::CustomError(format!("invalid fact argument {:?}", e)))
-- 
2.43.0


From ecd328785aa230bd90f3a88781e73867278f1436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:58 +0000
Subject: [PATCH 29/49] fix: a program in a pipe gets its arguments as it does
 outside of one

---
 src/binary/init/operator_module.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/binary/init/operator_module.rs b/src/binary/init/operator_module.rs
index d9a5c24..7d618d9 100644
--- a/src/binary/init/operator_module.rs
+++ b/src/binary/init/operator_module.rs
@@ -466,6 +466,20 @@ fn pipe_builtin(args: Vec<Expression>, env: &mut Environment) -> Result<Expressi
     Ok(result_of_last_cmd)
 }
 
+/// The arguments a value is passed to a program as, the same
+/// as when the program is run outside of a pipe.
+fn command_args(value: Expression) -> Vec<String> {
+    Expression::flatten(vec![value])
+        .into_iter()
+        .filter_map(|x| match x {
+            Expression::String(s) => Some(s),
+            Expression::Bytes(b) => Some(String::from_utf8_lossy(&b).to_string()),
+            Expression::None => None,
+            otherwise => Some(otherwise.to_string()),
+        })
+        .collect()
+}
+
 /// Interpret a Dune expression as a program to be executed.
 /// If the expression can be executed as a program, then it will
 /// be stored in the `cmd` parameter, and the function will return
@@ -507,8 +521,9 @@ fn expr_to_command<'a>(
                     cmd.current_dir(env.get_cwd()).envs(bindings).args(
                         args.iter()
                             .filter(|&x| x != &Expression::None)
-                            .map(|x| Ok(format!("{}", x.eval(env)?)))
-                            .collect::<Result<Vec<String>, Error>>()?,
+                            .map(|x| Ok(command_args(x.eval(env)?)))
+                            .collect::<Result<Vec<Vec<String>>, Error>>()?
+                            .concat(),
                     ),
                 )
             }
@@ -519,8 +534,9 @@ fn expr_to_command<'a>(
                         cmd.current_dir(env.get_cwd()).envs(bindings).args(
                             args.iter()
                                 .filter(|&x| x != &Expression::None)
-                                .map(|x| Ok(format!("{}", x.eval(env)?)))
-                                .collect::<Result<Vec<String>, Error>>()?,
+                                .map(|x| Ok(command_args(x.eval(env)?)))
+                                .collect::<Result<Vec<Vec<String>>, Error>>()?
+                                .concat(),
                         ),
                     )
                 }
-- 
2.43.0


From bac17fe9945eb6a1431a6c438bd935328a58a288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:58 +0000
Subject: [PATCH 30/49] fix: a variable holding a NUL byte does not keep every
 program from running

---
 src/binary/init/operator_module.rs | 3 ++-
 src/expr.rs                        | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/binary/init/operator_module.rs b/src/binary/init/operator_module.rs
index 7d618d9..23d062b 100644
--- a/src/binary/init/operator_module.rs
+++ b/src/binary/init/operator_module.rs
@@ -500,7 +500,8 @@ fn expr_to_command<'a>(
         // This causes some strange bugs on Linux: mainly it becomes
         // impossible to execute any program because `the argument
         // list is too long`.
-        .filter(|(_, s)| s.len() <= 1024);
+        // A variable with a NUL byte cannot be passed to any program.
+        .filter(|(_, s)| s.len() <= 1024 && !s.contains('\0'));
 
     Ok(match expr {
         // If the command is quoted or in parentheses, try to get the inner command.
diff --git a/src/expr.rs b/src/expr.rs
index d1228b6..3979a86 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -540,7 +540,8 @@ impl Expression {
                             // This causes some strange bugs on Linux: mainly it becomes
                             // impossible to execute any program because `the argument
                             // list is too long`.
-                            .filter(|(_, s)| s.len() <= 1024)
+                            // A variable with a NUL byte cannot be passed to any program.
+                            .filter(|(_, s)| s.len() <= 1024 && !s.contains('\0'))
                             .collect::<BTreeMap<String, String>>();
 
                         let mut cmd_args = vec![];
-- 
2.43.0


From 8ee307c6a1d1ac86d6a2aa6199bd9e5081fcc987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:58 +0000
Subject: [PATCH 31/49] fix: fs@tail keeps the order of the lines

---
 src/binary/init/fs_module.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/binary/init/fs_module.rs b/src/binary/init/fs_module.rs
index ed0a3b7..d9ade29 100644
--- a/src/binary/init/fs_module.rs
+++ b/src/binary/init/fs_module.rs
@@ -147,7 +147,9 @@ pub fn get(env: &mut Environment) -> Expression {
             };
 
             if let Ok(contents) = std::fs::read_to_string(path) {
-                let mut lines = contents.lines().rev();
+                // The last N lines, in their order in the file.
+                let last: Vec<&str> = contents.lines().rev().take(n.max(0) as usize).collect();
+                let mut lines = last.into_iter().rev();
                 let mut result = String::new();
                 for _ in 0..n {
                     if let Some(line) = lines.next() {
-- 
2.43.0


From ee947be7e45afea843e85adc3e37a8c29bc995f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:58 +0000
Subject: [PATCH 32/49] fix: copying a directory into itself is an error

---
 src/binary/init/fs_module.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/binary/init/fs_module.rs b/src/binary/init/fs_module.rs
index d9ade29..a4a88f4 100644
--- a/src/binary/init/fs_module.rs
+++ b/src/binary/init/fs_module.rs
@@ -368,6 +368,14 @@ fn copy_path(src: &Path, dst: &Path) -> Result<(), Error> {
 
     // If the source is a directory, recursively copy the directory.
     if src.is_dir() {
+        // A directory cannot be copied into itself.
+        if is_inside(dst, src) {
+            return Err(Error::CustomError(format!(
+                "could not copy directory {} into itself",
+                src.display()
+            )));
+        }
+
         // Create the destination directory and all of its parents.
         if std::fs::create_dir_all(dst).is_err() {
             return Err(Error::CustomError(format!(
@@ -413,6 +421,17 @@ fn copy_path(src: &Path, dst: &Path) -> Result<(), Error> {
     Ok(())
 }
 
+/// Is a path, which need not exist yet, inside of a directory?
+fn is_inside(path: &Path, dir: &Path) -> bool {
+    match (
+        path.ancestors().find_map(|p| dunce::canonicalize(p).ok()),
+        dunce::canonicalize(dir),
+    ) {
+        (Some(path), Ok(dir)) => path.starts_with(dir),
+        _ => false,
+    }
+}
+
 /// Moves one path to another path.
 fn move_path(src: &Path, dst: &Path) -> Result<(), Error> {
     if src == dst {
-- 
2.43.0


From 448db5940f1cdb74fcf03d6758fe419f03b8c0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:58 +0000
Subject: [PATCH 33/49] fix: sys@cd to something that is not a directory is an
 error

---
 src/binary/init/sys_module.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/binary/init/sys_module.rs b/src/binary/init/sys_module.rs
index 3ab218b..7b5ea76 100644
--- a/src/binary/init/sys_module.rs
+++ b/src/binary/init/sys_module.rs
@@ -56,6 +56,9 @@ pub fn get() -> Expression {
             let path = cwd.join(args[0].eval(env)?.to_string());
 
             if let Ok(canon_path) = dunce::canonicalize(&path) {
+                if !canon_path.is_dir() {
+                    return Err(Error::CustomError(format!("{} is not a directory", path.display())));
+                }
                 env.set_cwd(canon_path.to_str().unwrap().to_string());
                 Ok(Expression::None)
             } else {
-- 
2.43.0


From 670a1aebf7c20624c441ca28bd4ba8221cdd1577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:58 +0000
Subject: [PATCH 34/49] fix: log@get-level and log@disable can be called

---
 src/binary/init/log_module.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/binary/init/log_module.rs b/src/binary/init/log_module.rs
index b04fa28..24aa84d 100644
--- a/src/binary/init/log_module.rs
+++ b/src/binary/init/log_module.rs
@@ -43,13 +43,11 @@ pub fn get() -> Expression {
             }
         }, "set the log level"),
 
-        String::from("get-level") => Expression::builtin("get-level", |args, _env| {
-            super::check_exact_args_len("get-level", &args, 0)?;
+        String::from("get-level") => Expression::builtin("get-level", |_args, _env| {
             return Ok(Expression::Integer(*LOG_LEVEL.read().unwrap()))
         }, "get the log level"),
 
-        String::from("disable") => Expression::builtin("disable", |args, _env| {
-            super::check_exact_args_len("disable", &args, 0)?;
+        String::from("disable") => Expression::builtin("disable", |_args, _env| {
             *LOG_LEVEL.write().unwrap() = NONE;
             Ok(Expression::None)
         }, "disable logging"),
-- 
2.43.0


From 28f26778790a1fc7fd693c6dc2787cda12ea1c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:58 +0000
Subject: [PATCH 35/49] fix: widget@joiny accepts empty text

---
 src/binary/init/widget_module.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/binary/init/widget_module.rs b/src/binary/init/widget_module.rs
index 02ca2be..2099cbe 100644
--- a/src/binary/init/widget_module.rs
+++ b/src/binary/init/widget_module.rs
@@ -161,8 +161,8 @@ fn joiny(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Err
             Expression::String(s) => {
                 string_args.push(s.trim().to_string());
 
-                let width = string_args[0].lines().next().unwrap().chars().count();
-                let this_width = string_args[i].lines().next().unwrap().chars().count();
+                let width = string_args[0].lines().next().unwrap_or("").chars().count();
+                let this_width = string_args[i].lines().next().unwrap_or("").chars().count();
                 if width != this_width {
                     return Err(Error::CustomError(format!(
                         "Widths of vertically added widgets must be equal, \
-- 
2.43.0


From bb4be5cb44a431cd408d6193f301bec3d66569d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:58 +0000
Subject: [PATCH 36/49] fix: parse@json gives the float nearest to a number

---
 src/binary/init/parse_module.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/binary/init/parse_module.rs b/src/binary/init/parse_module.rs
index 1251414..eb68568 100644
--- a/src/binary/init/parse_module.rs
+++ b/src/binary/init/parse_module.rs
@@ -51,7 +51,8 @@ fn json_to_expr(val: JsonValue) -> Expression {
     match val {
         JsonValue::Null => Expression::None,
         JsonValue::Boolean(b) => Expression::Boolean(b),
-        JsonValue::Number(n) => Expression::Float(n.into()),
+        // The text of the number is exact, converting it directly is not.
+        JsonValue::Number(n) => Expression::Float(n.to_string().parse().unwrap_or(n.into())),
         JsonValue::Short(s) => Expression::String(s.to_string()),
         JsonValue::String(s) => Expression::String(s),
         JsonValue::Array(a) => {
-- 
2.43.0


From 497fa4dd7e7f94529d2a75d4b963da945b595035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:21 +0000
Subject: [PATCH 37/49] fix: a pipe does not wait for itself, and a program
 need not read all of its input

---
 src/binary/init/operator_module.rs | 35 ++++++++++++++++++------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/binary/init/operator_module.rs b/src/binary/init/operator_module.rs
index 23d062b..ef53602 100644
--- a/src/binary/init/operator_module.rs
+++ b/src/binary/init/operator_module.rs
@@ -1,7 +1,7 @@
 use super::{curry, reverse_curry};
 use dune::{Environment, Error, Expression};
 use std::{
-    io::Write,
+    io::{ErrorKind, Write},
     process::{Command, Stdio},
 };
 
@@ -365,25 +365,21 @@ fn pipe_builtin(args: Vec<Expression>, env: &mut Environment) -> Result<Expressi
 
                 // Try to execute the command.
                 if let Ok(mut child_handler) = cmd.spawn() {
+                    let mut writer = None;
+
                     // If we need to pipe in STDIN:
                     if !is_first {
                         // Attempt to grab the STDIN of the process from the handler.
-                        if let Some(stdin) = child_handler.stdin.as_mut() {
-                            // Write the contents of the previous command's STDOUT
-                            // to the process's STDIN.
-                            if stdin.write_all(&buf).is_err() {
-                                return Err(Error::CustomError(format!(
-                                    "error when piping into process `{}`",
-                                    expr
-                                )));
-                            }
-
+                        if let Some(mut stdin) = child_handler.stdin.take() {
                             // Zero out all of our information about the previous command.
-                            buf = vec![];
+                            let input = std::mem::take(&mut buf);
                             result_of_last_cmd = Expression::None;
 
-                            // Flush the STDIN buffer to force the process to read it.
-                            stdin.flush().unwrap();
+                            // Write the contents of the previous command's STDOUT
+                            // to the process's STDIN. This happens while we collect
+                            // its STDOUT, because it may not read all of its input
+                            // until some of its output is read.
+                            writer = Some(std::thread::spawn(move || stdin.write_all(&input)));
                         } else {
                             return Err(Error::CustomError(format!(
                                 "error when piping into process `{}`",
@@ -429,6 +425,17 @@ fn pipe_builtin(args: Vec<Expression>, env: &mut Environment) -> Result<Expressi
                             )));
                         }
                     }
+
+                    // The process may finish without reading all of its input,
+                    // but any other failure to write it is an error.
+                    if let Some(Ok(Err(e))) = writer.map(|writer| writer.join()) {
+                        if e.kind() != ErrorKind::BrokenPipe {
+                            return Err(Error::CustomError(format!(
+                                "error when piping into process `{}`",
+                                expr
+                            )));
+                        }
+                    }
                 } else {
                     // We couldn't spawn the command.
                     return Err(Error::CustomError(format!(
-- 
2.43.0


From 99fc5aa5b331a7762db6579db514f00eb24bb143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:59 +0000
Subject: [PATCH 38/49] fix: fs@tree stops at its maximum depth, and lists the
 root directory

---
 src/binary/init/fs_module.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/binary/init/fs_module.rs b/src/binary/init/fs_module.rs
index a4a88f4..97fef61 100644
--- a/src/binary/init/fs_module.rs
+++ b/src/binary/init/fs_module.rs
@@ -11,12 +11,18 @@ use dune::{Environment, Error, Expression};
 fn get_dir_tree(cwd: &Path, max_depth: Option<Int>) -> BTreeMap<String, Expression> {
     let mut dir_tree = b_tree_map! {};
 
-    dir_tree.insert(".".to_string(), Expression::from(cwd.to_str().unwrap()));
+    dir_tree.insert(".".to_string(), Expression::from(cwd.display().to_string()));
+    // The root directory is its own parent.
     dir_tree.insert(
         "..".to_string(),
-        Expression::from(cwd.parent().unwrap().to_str().unwrap()),
+        Expression::from(cwd.parent().unwrap_or(cwd).display().to_string()),
     );
 
+    // Do not look inside of directories below the maximum depth.
+    if matches!(max_depth, Some(depth) if depth <= 0) {
+        return dir_tree;
+    }
+
     if let Ok(entries) = std::fs::read_dir(cwd) {
         for entry in entries.flatten() {
             let path = entry.path();
@@ -30,7 +36,7 @@ fn get_dir_tree(cwd: &Path, max_depth: Option<Int>) -> BTreeMap<String, Expressi
                 } else {
                     dir_tree.insert(
                         file_name,
-                        Expression::from(path.into_os_string().into_string().unwrap()),
+                        Expression::from(path.display().to_string()),
                     );
                 }
             }
-- 
2.43.0


From 08849028c90518ac70a1d0994b9e420f894003ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:00 +0000
Subject: [PATCH 39/49] fix: fs@glob looks in the shell's directory, and a bad
 pattern is an error

---
 src/binary/init/fs_module.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/binary/init/fs_module.rs b/src/binary/init/fs_module.rs
index 97fef61..4e7dde9 100644
--- a/src/binary/init/fs_module.rs
+++ b/src/binary/init/fs_module.rs
@@ -336,7 +336,11 @@ pub fn get(env: &mut Environment) -> Expression {
             let pattern = args[0].eval(env)?.to_string();
             let mut result = vec![];
 
-            for entry in glob::glob(&pattern).unwrap() {
+            // A relative pattern is relative to the shell's current working directory.
+            let full_pattern = PathBuf::from(glob::Pattern::escape(&env.get_cwd())).join(&pattern);
+            let paths = glob::glob(&full_pattern.to_string_lossy())
+                .map_err(|e| Error::CustomError(format!("could not glob pattern {}: {}", pattern, e)))?;
+            for entry in paths {
                 match entry {
                     Ok(path) => {
                         // Strip prefix from path
-- 
2.43.0


From 42ec90375941958c531d3b00ca1b6a7cad820442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:01 +0000
Subject: [PATCH 40/49] fix: rand@int of an empty range and rand@choose of an
 empty list are errors

---
 src/binary/init/rand_module.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/binary/init/rand_module.rs b/src/binary/init/rand_module.rs
index dcfe21e..5511873 100644
--- a/src/binary/init/rand_module.rs
+++ b/src/binary/init/rand_module.rs
@@ -15,6 +15,12 @@ fn int(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Error
     super::check_exact_args_len("int", &args, 2)?;
     match (args[0].eval(env)?, args[1].eval(env)?) {
         (Expression::Integer(l), Expression::Integer(h)) => {
+            if l >= h {
+                return Err(Error::CustomError(format!(
+                    "no integers between {} and {}",
+                    l, h
+                )));
+            }
             let mut rng = rand::thread_rng();
             let n = Uniform::new(l, h);
             Ok(Expression::Integer(rng.sample(n)))
@@ -30,6 +36,11 @@ fn choose(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Er
     super::check_exact_args_len("choose", &args, 1)?;
     match args[0].eval(env)? {
         Expression::List(list) => {
+            if list.is_empty() {
+                return Err(Error::CustomError(
+                    "cannot choose from an empty list".to_string(),
+                ));
+            }
             let mut rng = rand::thread_rng();
             let n = Uniform::new(0, list.len());
             Ok(list[rng.sample(n)].clone())
-- 
2.43.0


From 644c9cc5d2d8d338c9ad9d0688597708ea54760a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:02 +0000
Subject: [PATCH 41/49] fix: time@sleep does not sleep for a negative time

---
 src/binary/init/time_module.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/init/time_module.rs b/src/binary/init/time_module.rs
index 6f23fc2..661fd48 100644
--- a/src/binary/init/time_module.rs
+++ b/src/binary/init/time_module.rs
@@ -19,7 +19,7 @@ fn sleep(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Err
 
     match args[0].eval(env)? {
         Expression::Float(n) => thread::sleep(Duration::from_millis(n as u64)),
-        Expression::Integer(n) => thread::sleep(Duration::from_millis(n as u64)),
+        Expression::Integer(n) => thread::sleep(Duration::from_millis(n.max(0) as u64)),
         otherwise => {
             return Err(Error::CustomError(format!(
                 "expected integer or float, but got {}",
-- 
2.43.0


From d503659a90819e733d7d8a31254ba0bb2f7315f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:03 +0000
Subject: [PATCH 42/49] fix: sys@eval and sys@exec without an argument are
 errors

---
 src/binary/init/sys_module.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/binary/init/sys_module.rs b/src/binary/init/sys_module.rs
index 7b5ea76..1976ae8 100644
--- a/src/binary/init/sys_module.rs
+++ b/src/binary/init/sys_module.rs
@@ -20,11 +20,13 @@ pub fn get() -> Expression {
         }, "quote an expression"),
 
         String::from("eval") => Expression::builtin("eval", |args, env| {
+            super::check_exact_args_len("eval", &args, 1)?;
             let mut new_env = env.clone();
             args[0].clone().eval(env)?.eval(&mut new_env)
         }, "evaluate an expression without changing the environment"),
 
         String::from("exec") => Expression::builtin("exec", |args, env| {
+            super::check_exact_args_len("exec", &args, 1)?;
             args[0].clone().eval(env)?.eval(env)
         }, "evaluate an expression in the current environment"),
 
-- 
2.43.0


From 0a160495280dd5401e52954836b27d9505d3c01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:44 +0000
Subject: [PATCH 43/49] fix: paths which are not valid unicode do not crash the
 shell

---
 src/binary/init/fs_module.rs    | 15 +++++++++------
 src/binary/init/os_module.rs    |  6 +++++-
 src/binary/init/shell_module.rs |  4 ++--
 src/binary/init/sys_module.rs   |  9 +++++++--
 4 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/binary/init/fs_module.rs b/src/binary/init/fs_module.rs
index 4e7dde9..6e84485 100644
--- a/src/binary/init/fs_module.rs
+++ b/src/binary/init/fs_module.rs
@@ -50,30 +50,30 @@ pub fn get(env: &mut Environment) -> Expression {
     let mut dir_tree = b_tree_map! {};
 
     if let Some(home_dir) = dirs::home_dir() {
-        let home_dir = home_dir.into_os_string().into_string().unwrap();
+        let home_dir = home_dir.display().to_string();
         env.set_cwd(&home_dir);
         dir_tree.insert("home".to_string(), Expression::from(home_dir.clone()));
         env.define("HOME", Expression::String(home_dir));
     }
 
     if let Ok(cwd) = current_dir() {
-        env.set_cwd(&cwd.into_os_string().into_string().unwrap());
+        env.set_cwd(cwd.display().to_string());
     }
 
     if let Some(desk_dir) = dirs::desktop_dir() {
-        let desk_dir = desk_dir.into_os_string().into_string().unwrap();
+        let desk_dir = desk_dir.display().to_string();
         dir_tree.insert("desk".to_string(), desk_dir.clone().into());
         env.define("DESK", Expression::String(desk_dir));
     }
 
     if let Some(docs_dir) = dirs::document_dir() {
-        let docs_dir = docs_dir.into_os_string().into_string().unwrap();
+        let docs_dir = docs_dir.display().to_string();
         dir_tree.insert("docs".to_string(), docs_dir.clone().into());
         env.define("DOCS", Expression::String(docs_dir));
     }
 
     if let Some(down_dir) = dirs::download_dir() {
-        let down_dir = down_dir.into_os_string().into_string().unwrap();
+        let down_dir = down_dir.display().to_string();
         dir_tree.insert("down".to_string(), down_dir.clone().into());
         env.define("DOWN", Expression::String(down_dir));
     }
@@ -176,7 +176,10 @@ pub fn get(env: &mut Environment) -> Expression {
             let path = cwd.join(args[0].eval(env)?.to_string());
 
             if let Ok(canon_path) = dunce::canonicalize(&path) {
-                Ok(canon_path.into_os_string().into_string().unwrap().into())
+                match canon_path.into_os_string().into_string() {
+                    Ok(name) => Ok(name.into()),
+                    Err(name) => Err(Error::CustomError(format!("the path {:?} is not valid unicode", name)))
+                }
             } else {
                 Err(Error::CustomError(format!("could not canonicalize path {}", path.display())))
             }
diff --git a/src/binary/init/os_module.rs b/src/binary/init/os_module.rs
index 01ae0c7..83443ac 100644
--- a/src/binary/init/os_module.rs
+++ b/src/binary/init/os_module.rs
@@ -53,6 +53,10 @@ fn cd(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, dune::
                 })
             })?;
 
+            let name = new_cwd.to_str().map(ToString::to_string).ok_or_else(|| {
+                dune::Error::CustomError(format!("the path {:?} is not valid unicode", new_cwd))
+            })?;
+
             std::env::set_current_dir(&new_cwd).map_err(|e| {
                 dune::Error::CustomError(match format!("{:?}", e.kind()).as_str() {
                     "PermissionDenied" => {
@@ -68,7 +72,7 @@ fn cd(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, dune::
                 })
             })?;
 
-            env.set_cwd(new_cwd.into_os_string().into_string().unwrap());
+            env.set_cwd(name);
             Ok(Expression::None)
         }
 
diff --git a/src/binary/init/shell_module.rs b/src/binary/init/shell_module.rs
index 3ebe7b8..78aa0a9 100644
--- a/src/binary/init/shell_module.rs
+++ b/src/binary/init/shell_module.rs
@@ -12,7 +12,7 @@ pub fn get() -> Expression {
         String::from("version") => Expression::String(VERSION.to_string()),
         String::from("path") => {
             if let Ok(path) = current_exe() {
-                Expression::String(path.to_str().unwrap().to_string())
+                Expression::String(path.display().to_string())
             } else {
                 Expression::None
             }
@@ -30,7 +30,7 @@ pub fn get() -> Expression {
             let prelude_path = if let Some(home_dir) = dirs::home_dir() {
                 let prelude_path = home_dir.join(".dune-prelude");
                 if prelude_path.exists() {
-                    Expression::String(prelude_path.to_str().unwrap().to_string())
+                    Expression::String(prelude_path.display().to_string())
                 } else {
                     Expression::None
                 }
diff --git a/src/binary/init/sys_module.rs b/src/binary/init/sys_module.rs
index 1976ae8..212123c 100644
--- a/src/binary/init/sys_module.rs
+++ b/src/binary/init/sys_module.rs
@@ -61,8 +61,13 @@ pub fn get() -> Expression {
                 if !canon_path.is_dir() {
                     return Err(Error::CustomError(format!("{} is not a directory", path.display())));
                 }
-                env.set_cwd(canon_path.to_str().unwrap().to_string());
-                Ok(Expression::None)
+                match canon_path.to_str() {
+                    Some(name) => {
+                        env.set_cwd(name);
+                        Ok(Expression::None)
+                    }
+                    None => Err(Error::CustomError(format!("the path {:?} is not valid unicode", canon_path)))
+                }
             } else {
                 Err(Error::CustomError(format!("could not canonicalize path {}", path.display())))
             }
-- 
2.43.0


From 9870bda77de2393c90523d612b3b8f40d54500c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:44 +0000
Subject: [PATCH 44/49] fix: a keyboard or console which cannot be used is an
 error

---
 src/binary/init/console_module.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/binary/init/console_module.rs b/src/binary/init/console_module.rs
index 0634696..c6388a1 100644
--- a/src/binary/init/console_module.rs
+++ b/src/binary/init/console_module.rs
@@ -11,7 +11,9 @@ pub fn get() -> Expression {
         String::from("title") => Expression::builtin("title", title, "set the title of the console"),
         String::from("clear") => Expression::builtin("clear", clear, "clear the console"),
         String::from("flush") => Expression::builtin("flush", |_, _| {
-            std::io::stdout().flush().unwrap();
+            std::io::stdout()
+                .flush()
+                .map_err(|e| Error::CustomError(format!("could not flush the console: {}", e)))?;
             Ok(Expression::None)
         }, "flush the console"),
         String::from("mode") => Expression::Map(b_tree_map! {
@@ -118,15 +120,19 @@ pub fn get() -> Expression {
         String::from("keyboard") => Expression::Map(b_tree_map! {
             String::from("read-line") => Expression::builtin("read-line", |_, _| {
                 let mut buffer = String::new();
-                std::io::stdin().read_line(&mut buffer).unwrap();
+                std::io::stdin()
+                    .read_line(&mut buffer)
+                    .map_err(|e| Error::CustomError(format!("could not read line: {}", e)))?;
                 Ok(Expression::String(buffer))
             }, "read a line from the keyboard"),
             String::from("read-password") => Expression::builtin("read-password", |_, _| {
-                let password = rpassword::read_password().unwrap();
+                let password = rpassword::read_password()
+                    .map_err(|e| Error::CustomError(format!("could not read password: {}", e)))?;
                 Ok(Expression::String(password))
             }, "read a password from the keyboard"),
             String::from("read-key") => Expression::builtin("read-key", |_, _| {
-                let key = crossterm::event::read().unwrap();
+                let key = crossterm::event::read()
+                    .map_err(|e| Error::CustomError(format!("could not read key: {}", e)))?;
                 // Get the key as a string.
                 let key = match key {
                     crossterm::event::Event::Key(key) => key,
-- 
2.43.0


From 92e0dd3e4bf24126170a963ed6ed9a43430a7ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:45 +0000
Subject: [PATCH 45/49] fix: console@write does not overflow

---
 src/binary/init/console_module.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/init/console_module.rs b/src/binary/init/console_module.rs
index c6388a1..c962872 100644
--- a/src/binary/init/console_module.rs
+++ b/src/binary/init/console_module.rs
@@ -220,7 +220,7 @@ fn write(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Err
                 print!(
                     "\x1b[s\x1b[{row};{column}H\x1b[{row};{column}f{content}\x1b[u",
                     column = x,
-                    row = y + y_offset as Int,
+                    row = y.saturating_add(y_offset as Int),
                     content = line
                 );
             }
-- 
2.43.0


From 85fe6757e6af2039f227d3f809cb7eb41339b6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:04 +0000
Subject: [PATCH 46/49] fix: widget@create of a size no console has is an error

---
 src/binary/init/widget_module.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/binary/init/widget_module.rs b/src/binary/init/widget_module.rs
index 2099cbe..adfa5df 100644
--- a/src/binary/init/widget_module.rs
+++ b/src/binary/init/widget_module.rs
@@ -1,5 +1,8 @@
 use common_macros::b_tree_map;
-use dune::{Environment, Error, Expression};
+use dune::{Environment, Error, Expression, Int};
+
+/// The largest width and height of a console.
+const MAX_SIZE: Int = u16::MAX as Int;
 
 pub fn get() -> Expression {
     (b_tree_map! {
@@ -16,10 +19,10 @@ fn create(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Er
     let title_len = title.chars().count();
 
     let text_width = match args[2].eval(env)? {
-        Expression::Integer(n) if n > 4 => n,
+        Expression::Integer(n) if n > 4 && n <= MAX_SIZE => n,
         otherwise => {
             return Err(Error::CustomError(format!(
-                "expected width argument to be integer greater than 4, but got {}",
+                "expected width argument to be integer greater than 4 and at most 65535, but got {}",
                 otherwise
             )))
         }
@@ -32,10 +35,10 @@ fn create(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Er
     );
 
     let widget_height = match args[3].eval(env)? {
-        Expression::Integer(n) if n >= 3 => n,
+        Expression::Integer(n) if n >= 3 && n <= MAX_SIZE => n,
         otherwise => {
             return Err(Error::CustomError(format!(
-                "expected height argument to be an integer greater than 2, but got {}",
+                "expected height argument to be an integer greater than 2 and at most 65535, but got {}",
                 otherwise
             )))
         }
-- 
2.43.0


From 4829dd28b0644dff0b12ab3c7ef801f8d496e01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:22 +0000
Subject: [PATCH 47/49] fix: a hint continues the line it is shown behind

---
 src/bin.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin.rs b/src/bin.rs
index 7850da9..46dfa4e 100644
--- a/src/bin.rs
+++ b/src/bin.rs
@@ -331,8 +331,8 @@ impl Hinter for DuneHelper {
             return self.hinter.hint(line, pos, ctx);
         } else {
             for cmd in &cmds {
-                if cmd.contains(line) {
-                    return Some(cmd.trim_start_matches(line).to_string());
+                if let Some(rest) = cmd.strip_prefix(line) {
+                    return Some(rest.to_string());
                 }
             }
         }
-- 
2.43.0


From bc290a876ca85576bdda9dcba17af8662795d490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:56 +0000
Subject: [PATCH 48/49] fix: an element which is None can be taken from a map
 or list

---
 src/binary/init/operator_module.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/binary/init/operator_module.rs b/src/binary/init/operator_module.rs
index ef53602..84399a8 100644
--- a/src/binary/init/operator_module.rs
+++ b/src/binary/init/operator_module.rs
@@ -53,8 +53,19 @@ pub fn get(env: &mut Environment) -> Expression {
             if args.len() > 1 {
                 for arg in &args[1..] {
                     let old_result = result.clone();
-                    result = result.eval(env)? - arg.clone().eval(env)?;
-                    if let Expression::None = result {
+                    let arg = arg.clone().eval(env)?;
+                    // Taking out an element which is None succeeds.
+                    let is_none = match (&old_result, &arg) {
+                        (Expression::Map(m), Expression::String(key)) => {
+                            m.get(key) == Some(&Expression::None)
+                        }
+                        (Expression::List(l), Expression::Integer(n)) => {
+                            l.get(*n as usize) == Some(&Expression::None)
+                        }
+                        _ => false,
+                    };
+                    result = result.eval(env)? - arg.clone();
+                    if matches!(result, Expression::None) && !is_none {
                         return Err(Error::CustomError(format!(
                             "cannot subtract {:?} and {:?}",
                             old_result, arg
-- 
2.43.0


From 2c969d3d5f48d11b5c921725066c554fb37c699a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:56 +0000
Subject: [PATCH 49/49] fix: string@to-title keeps letters whose capital is two
 letters

---
 src/binary/init/string_module.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/binary/init/string_module.rs b/src/binary/init/string_module.rs
index 779d155..78c6bab 100644
--- a/src/binary/init/string_module.rs
+++ b/src/binary/init/string_module.rs
@@ -197,10 +197,10 @@ pub fn get() -> Expression {
                     let mut capitalize = true;
                     for c in x.chars() {
                         if capitalize {
-                            title.push(c.to_uppercase().next().unwrap());
+                            title.extend(c.to_uppercase());
                             capitalize = false;
                         } else {
-                            title.push(c.to_lowercase().next().unwrap());
+                            title.extend(c.to_lowercase());
                         }
                         if c.is_whitespace() {
                             capitalize = true;
@@ -249,10 +249,10 @@ pub fn get() -> Expression {
                     let mut capitalize = true;
                     for c in x.chars() {
                         if capitalize {
-                            title.push(c.to_uppercase().next().unwrap());
+                            title.extend(c.to_uppercase());
                             capitalize = false;
                         } else {
-                            title.push(c.to_lowercase().next().unwrap());
+                            title.extend(c.to_lowercase());
                         }
                         if c.is_whitespace() {
                             capitalize = true;
-- 
2.43.0

