From 4d0cfed552f0dbaf5de5144fb85e5dc1b2d36da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:19 +0000
Subject: [PATCH 01/45] fix: reject doubled symbols which form no binary
 operator

---
 cpparser/src/subparsers/operators/usage.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpparser/src/subparsers/operators/usage.rs b/cpparser/src/subparsers/operators/usage.rs
index a9c3fe0..a1acb11 100644
--- a/cpparser/src/subparsers/operators/usage.rs
+++ b/cpparser/src/subparsers/operators/usage.rs
@@ -111,7 +111,8 @@ impl EntityParser {
                     AddPlus | SubNeg => false,
                     AndRef | Or | AssignEq | Less => true,
                     Greater => allow_greater,
-                    Xor | Mod | Div | MulDeref | BitNot | Not | Comma => unreachable!(),
+                    // These symbols do not form an operator when doubled
+                    Xor | Mod | Div | MulDeref | BitNot | Not | Comma => false,
                 }
             }
             // This may need to be revised as C++ evolves
-- 
2.43.0


From 93f724f74f2a59f7597ef4bead11e7ebf2319c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:08 +0000
Subject: [PATCH 02/45] fix: reject relative paths in C++ source locations
 instead of panicking

---
 cpparser/src/lib.rs                  | 19 ++++++++++++-------
 cpparser/src/subparsers/anonymous.rs |  2 +-
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/cpparser/src/lib.rs b/cpparser/src/lib.rs
index 7ab4502..4281bee 100644
--- a/cpparser/src/lib.rs
+++ b/cpparser/src/lib.rs
@@ -26,7 +26,8 @@ use crate::{
 };
 use asylum::{
     lasso::{MiniSpur, Rodeo, Spur},
-    path, Interner,
+    path::{self, PathError},
+    Interner,
 };
 use nom::{error::Error, Parser};
 use nom_supreme::ParserExt;
@@ -159,15 +160,19 @@ impl EntityParser {
     /// interned using the same infrastructure for key comparability.
     ///
     pub fn intern_path(&mut self, path: &str) -> PathKey {
+        self.try_intern_path(path)
+            .expect("Encountered relative (and thus non-interpretable) file path")
+    }
+
+    /// Like intern_path, but report relative (and thus non-interpretable) file
+    /// paths as an error
+    pub fn try_intern_path(&mut self, path: &str) -> Result<PathKey, PathError> {
         self.intern_path_imut(path)
     }
 
-    /// Implementation of intern_path with internal mutability
-    pub(crate) fn intern_path_imut(&self, path: &str) -> PathKey {
-        self.paths
-            .borrow_mut()
-            .intern(path)
-            .expect("Encountered relative (and thus non-interpretable) file path")
+    /// Implementation of try_intern_path with internal mutability
+    pub(crate) fn intern_path_imut(&self, path: &str) -> Result<PathKey, PathError> {
+        self.paths.borrow_mut().intern(path)
     }
 
     /// Retrieve a previously interned path
diff --git a/cpparser/src/subparsers/anonymous.rs b/cpparser/src/subparsers/anonymous.rs
index 4efec91..73085b5 100644
--- a/cpparser/src/subparsers/anonymous.rs
+++ b/cpparser/src/subparsers/anonymous.rs
@@ -156,7 +156,7 @@ impl EntityParser {
 
         let disk_designator = anychar.and(char(':'));
         let path_str = recognize(opt(disk_designator).and(take_till1(|c| c == ':')));
-        let path = path_str.map(|path| self.intern_path_imut(path));
+        let path = path_str.map_res(|path| self.intern_path_imut(path));
 
         let source_location = separated_pair(path, char(':'), location);
         source_location
-- 
2.43.0


From 92a8150b09a8d72b096cfb08585c0e9709517f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:16 +0000
Subject: [PATCH 03/45] fix: report relative file paths as a bad activity
 argument instead of panicking

---
 clang-time-trace/src/stats/activity/argument.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clang-time-trace/src/stats/activity/argument.rs b/clang-time-trace/src/stats/activity/argument.rs
index a1ff0ef..30a302c 100644
--- a/clang-time-trace/src/stats/activity/argument.rs
+++ b/clang-time-trace/src/stats/activity/argument.rs
@@ -88,7 +88,7 @@ impl RawActivityArgument {
                     Ok(ParsedActivityArgument::Module)
                 } else {
                     Ok(ParsedActivityArgument::FilePath(
-                        parser.intern_path(&detail),
+                        parser.try_intern_path(&detail)?,
                     ))
                 }
             }
-- 
2.43.0


From b5bb35b36aa3c50f36a5764c4087c6ff260caa08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:21 +0000
Subject: [PATCH 04/45] fix: reject non-ASCII text instead of failing an
 assertion

---
 cpparser/src/subparsers/names/atoms.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/cpparser/src/subparsers/names/atoms.rs b/cpparser/src/subparsers/names/atoms.rs
index 634621a..0783ca0 100644
--- a/cpparser/src/subparsers/names/atoms.rs
+++ b/cpparser/src/subparsers/names/atoms.rs
@@ -124,7 +124,6 @@ fn identifier(s: &str) -> IResult<&str> {
     }
     #[cfg(not(feature = "unicode-xid"))]
     {
-        debug_assert!(s.is_ascii());
         let bytes = s.as_bytes().split_first();
         match bytes {
             Some((first, others)) if is_id_start(*first) => {
@@ -154,7 +153,6 @@ fn end_of_identifier(s: &str) -> IResult<()> {
     }
     #[cfg(not(feature = "unicode-xid"))]
     {
-        debug_assert!(s.is_ascii());
         match s.as_bytes().first().copied() {
             Some(b) if is_id_continue(b) => Err(nom::Err::Error(Error::new(s, ErrorKind::Satisfy))),
             _ => Ok((s, ())),
@@ -171,11 +169,10 @@ fn is_id_start(c: char) -> bool {
 }
 //
 /// Truth that a character can be used as the start of a C++ identifier
-// This version assumes ASCII input
+// This version only supports ASCII identifiers
 #[cfg(not(feature = "unicode-xid"))]
 #[inline]
 fn is_id_start(b: u8) -> bool {
-    debug_assert!(b.is_ascii());
     b.is_ascii_alphabetic() || (b == b'_') || (b == b'$')
 }
 
@@ -188,11 +185,10 @@ fn is_id_continue(c: char) -> bool {
 }
 //
 /// Truth that a character can be used in the middle of a C++ identifier
-// This version assumes ASCII input
+// This version only supports ASCII identifiers
 #[cfg(not(feature = "unicode-xid"))]
 #[inline]
 fn is_id_continue(b: u8) -> bool {
-    debug_assert!(b.is_ascii());
     is_id_start(b) || b.is_ascii_digit()
 }
 
-- 
2.43.0


From 88708175e31b5160e83bddb3229b82431a515485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:39 +0000
Subject: [PATCH 05/45] fix: display the root of a scope-less name at every
 level of detail

---
 cpparser/src/subparsers/names/scopes.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cpparser/src/subparsers/names/scopes.rs b/cpparser/src/subparsers/names/scopes.rs
index c8ae1aa..6a5335c 100644
--- a/cpparser/src/subparsers/names/scopes.rs
+++ b/cpparser/src/subparsers/names/scopes.rs
@@ -348,12 +348,13 @@ impl CustomDisplay for NestedNameSpecifierView<'_> {
     }
 
     fn display_impl(&self, f: &mut Formatter<'_>, state: &DisplayState) -> Result<(), fmt::Error> {
-        if state.can_recurse() {
+        let scopes = self.scopes();
+        if state.can_recurse() || scopes.is_empty() {
             if self.is_rooted() {
                 write!(f, "::")?;
             }
-            self.scopes().display_impl(f, state)?;
-        } else if !self.scopes().is_empty() {
+            scopes.display_impl(f, state)?;
+        } else {
             write!(f, "…::")?;
         }
         Ok(())
-- 
2.43.0


From fc2a503b33645f0f9d7b6eae234b28d8f55f43ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:51 +0000
Subject: [PATCH 06/45] fix: display the ellipsis of a variadic function
 without other parameters

---
 cpparser/src/subparsers/functions.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cpparser/src/subparsers/functions.rs b/cpparser/src/subparsers/functions.rs
index 02c0a1f..23dd20c 100644
--- a/cpparser/src/subparsers/functions.rs
+++ b/cpparser/src/subparsers/functions.rs
@@ -385,9 +385,14 @@ impl CustomDisplay for FunctionSignatureView<'_> {
             write!(f, "[abi:{abi}]")?;
         }
 
-        self.parameters().display_impl(f, state)?;
-        if state.can_recurse() && self.variadic() {
-            write!(f, ", ...")?;
+        let parameters = self.parameters();
+        parameters.display_impl(f, state)?;
+        if self.variadic() {
+            if parameters.is_empty() {
+                write!(f, "...")?;
+            } else if state.can_recurse() {
+                write!(f, ", ...")?;
+            }
         }
         write!(f, ")")?;
 
-- 
2.43.0


From 57dea39109ed60d065f992aa3b6c8e66007b91a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:56 +0000
Subject: [PATCH 07/45] fix: do not take identifiers starting with new for a
 new-expression

---
 cpparser/src/subparsers/operators/usage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpparser/src/subparsers/operators/usage.rs b/cpparser/src/subparsers/operators/usage.rs
index a1acb11..2e8313c 100644
--- a/cpparser/src/subparsers/operators/usage.rs
+++ b/cpparser/src/subparsers/operators/usage.rs
@@ -148,7 +148,7 @@ impl EntityParser {
         let rooted = opt(tag("::")).map(|o| o.is_some());
         separated_pair(
             rooted,
-            tag("new").and(multispace0),
+            Self::keyword_parser("new").and(multispace0),
             tuple((
                 opt(|s| self.parse_function_call_imut(s)).terminated(multispace0),
                 (|s| self.parse_type_like_imut(s)).terminated(multispace0),
-- 
2.43.0


From b4e03b68637bf6b1299c33cea61f136dba0a70ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:54 +0000
Subject: [PATCH 08/45] fix: keep signs apart when displaying unary operators

---
 cpparser/src/subparsers/values/mod.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/cpparser/src/subparsers/values/mod.rs b/cpparser/src/subparsers/values/mod.rs
index 54b4a69..aa59dcc 100644
--- a/cpparser/src/subparsers/values/mod.rs
+++ b/cpparser/src/subparsers/values/mod.rs
@@ -2,7 +2,7 @@
 
 pub mod literals;
 
-use self::literals::{Literal, LiteralView};
+use self::literals::{Literal, LiteralValue, LiteralView};
 use crate::{
     display::{CustomDisplay, DisplayState},
     interning::slice::{SliceItemView, SliceView},
@@ -15,7 +15,7 @@ use crate::{
         operators::{
             self,
             usage::{NewExpression, NewExpressionView},
-            Operator, OperatorView,
+            Operator, OperatorView, Symbol,
         },
         types::{TypeKey, TypeView},
     },
@@ -456,6 +456,24 @@ impl<'entities> ValueHeaderView<'entities> {
             ValueHeader::DeclVal(t) => Self::DeclVal(entities.type_like(t)),
         }
     }
+
+    /// Truth that this would be understood differently if it were displayed
+    /// right after a certain prefix operator, without a space in between
+    fn merges_with_sign(&self, prefix: &OperatorView) -> bool {
+        let OperatorView::Basic {
+            symbol: sign @ (Symbol::AddPlus | Symbol::SubNeg),
+            twice: false,
+            ..
+        } = prefix
+        else {
+            return false;
+        };
+        match self {
+            Self::Literal(l) => matches!(l.value(), LiteralValue::I64(_)),
+            Self::UnaryOp(OperatorView::Basic { symbol, .. }, _) => symbol == sign,
+            _ => false,
+        }
+    }
 }
 //
 impl Display for ValueHeaderView<'_> {
@@ -489,6 +507,9 @@ impl CustomDisplay for ValueHeaderView<'_> {
             }
             Self::UnaryOp(o, v) => {
                 o.display(f, state, operators::DisplayContext::PrefixUsage)?;
+                if v.header().merges_with_sign(o) {
+                    write!(f, " ")?;
+                }
                 v.display_impl(f, state)
             }
             Self::NewExpression(n) => n.display_impl(f, state),
-- 
2.43.0


From b7f8b8ddd780a01bc75be4da5e773eae08d2ecfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:58 +0000
Subject: [PATCH 09/45] fix: parse postfix increments and decrements as such
 when an operator follows

---
 cpparser/src/subparsers/values/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpparser/src/subparsers/values/mod.rs b/cpparser/src/subparsers/values/mod.rs
index aa59dcc..adde8dd 100644
--- a/cpparser/src/subparsers/values/mod.rs
+++ b/cpparser/src/subparsers/values/mod.rs
@@ -244,7 +244,8 @@ impl EntityParser {
             Some(b'?') => ternary_op.parse(s),
             Some(b'.') => member_access.or(ellipsis).parse(s),
             Some(b'[') => array_index.parse(s),
-            _ => binary_op.or(postfix_op).parse(s),
+            // Must look for x++ before x + +y, as the former is what x++ y means
+            _ => postfix_op.or(binary_op).parse(s),
         }
     }
 
-- 
2.43.0


From 0662b5d4c9bcbfa6292ab4059b42f3bd9fa61bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:39 +0000
Subject: [PATCH 10/45] fix: display unprintable character literals with C++
 escape sequences

---
 cpparser/src/subparsers/values/literals.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/cpparser/src/subparsers/values/literals.rs b/cpparser/src/subparsers/values/literals.rs
index 7658e80..4450f0a 100644
--- a/cpparser/src/subparsers/values/literals.rs
+++ b/cpparser/src/subparsers/values/literals.rs
@@ -145,7 +145,17 @@ impl Display for LiteralValue {
         match self {
             Self::I64(i) => write!(f, "{i}"),
             Self::U64(u) => write!(f, "{u}"),
-            Self::Char(c) => write!(f, "{c:?}"),
+            Self::Char(c) => {
+                // Rust and C++ only differ in how they escape unprintable chars
+                let code = u32::from(*c);
+                if !c.escape_debug().to_string().starts_with("\\u") {
+                    write!(f, "{c:?}")
+                } else if code < 0x100 {
+                    write!(f, "'\\x{code:02x}'")
+                } else {
+                    write!(f, "'\\u{code:04x}'")
+                }
+            }
         }
     }
 }
-- 
2.43.0


From a7b09dd6674373ba97d366c4df6ad2b651d549ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:00 +0000
Subject: [PATCH 11/45] fix: do not truncate custom literal suffixes that start
 like a standard one

---
 cpparser/src/subparsers/names/atoms.rs     |  2 +-
 cpparser/src/subparsers/values/literals.rs | 13 ++++++++-----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/cpparser/src/subparsers/names/atoms.rs b/cpparser/src/subparsers/names/atoms.rs
index 0783ca0..6f256e1 100644
--- a/cpparser/src/subparsers/names/atoms.rs
+++ b/cpparser/src/subparsers/names/atoms.rs
@@ -142,7 +142,7 @@ fn identifier(s: &str) -> IResult<&str> {
 
 /// Parser recognizing the end of an identifier, without consuming it
 #[inline]
-fn end_of_identifier(s: &str) -> IResult<()> {
+pub(crate) fn end_of_identifier(s: &str) -> IResult<()> {
     #[cfg(feature = "unicode-xid")]
     {
         use nom::{
diff --git a/cpparser/src/subparsers/values/literals.rs b/cpparser/src/subparsers/values/literals.rs
index 4450f0a..d15bd31 100644
--- a/cpparser/src/subparsers/values/literals.rs
+++ b/cpparser/src/subparsers/values/literals.rs
@@ -1,7 +1,7 @@
 //! Literals (and things that should be literals like negative numbers)
 
 use crate::{
-    subparsers::names::atoms::{IdentifierKey, IdentifierView},
+    subparsers::names::atoms::{end_of_identifier, IdentifierKey, IdentifierView},
     EntityParser, IResult,
 };
 use nom::Parser;
@@ -164,14 +164,17 @@ impl Display for LiteralValue {
 fn integer(s: &str) -> IResult<LiteralValue> {
     use nom::{
         character::complete::{i64, satisfy, u64},
+        combinator::opt,
         multi::many0_count,
     };
+    let standard_suffix = many0_count(satisfy(|c| {
+        let c = c.to_ascii_uppercase();
+        c == 'U' || c == 'L' || c == 'Z'
+    }));
     i64.map(LiteralValue::I64)
         .or(u64.map(LiteralValue::U64))
-        .terminated(many0_count(satisfy(|c| {
-            let c = c.to_ascii_uppercase();
-            c == 'U' || c == 'L' || c == 'Z'
-        })))
+        // Leave custom suffixes that start like a standard one alone
+        .terminated(opt(standard_suffix.terminated(end_of_identifier)))
         .parse(s)
 }
 
-- 
2.43.0


From 93e4183a7cdb0691e5e1920b4438bba0994a89b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:42 +0000
Subject: [PATCH 12/45] fix: parse usage of the delete and co_await operators

---
 cpparser/src/subparsers/values/mod.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/cpparser/src/subparsers/values/mod.rs b/cpparser/src/subparsers/values/mod.rs
index adde8dd..241933e 100644
--- a/cpparser/src/subparsers/values/mod.rs
+++ b/cpparser/src/subparsers/values/mod.rs
@@ -128,7 +128,8 @@ impl EntityParser {
     ) -> IResult<'source, ValueHeader> {
         use nom::{
             character::complete::{char, multispace0},
-            sequence::{delimited, separated_pair},
+            combinator::peek,
+            sequence::{delimited, preceded, separated_pair},
         };
         use nom_supreme::tag::complete::tag;
 
@@ -143,12 +144,19 @@ impl EntityParser {
         .map(ValueHeader::Parenthesized);
 
         let curr_value_like = |s| self.parse_value_like_imut(s, allow_comma, allow_greater);
-        let unary_op = separated_pair(
-            |s| self.parse_unary_expr_prefix_imut(s),
-            multispace0,
-            curr_value_like,
-        )
-        .map(|(op, expr)| ValueHeader::UnaryOp(op, expr));
+        let unary_op = move |s| {
+            separated_pair(
+                |s| self.parse_unary_expr_prefix_imut(s),
+                multispace0,
+                curr_value_like,
+            )
+            .map(|(op, expr)| ValueHeader::UnaryOp(op, expr))
+            .parse(s)
+        };
+        let keyword_op = preceded(
+            peek(Self::keywords_parser(["delete", "co_await"])),
+            unary_op,
+        );
 
         let new_expression =
             (|s| self.parse_new_expression_imut(s)).map(ValueHeader::NewExpression);
@@ -166,7 +174,9 @@ impl EntityParser {
             .or(new_expression)
             .or(sizeof)
             .or(declval)
-            // Must come after sizeof and declaval as it matches the keywords
+            .or(keyword_op)
+            // Must come after sizeof, declval and other keyword-based operators
+            // as it matches the keywords
             .or(id_expression)
             .or(unary_op)
             // Must come after unary_op to match casts as intended
-- 
2.43.0


From b7a00692b5d7216505906a3067ffe32a1a199b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:59 +0000
Subject: [PATCH 13/45] fix: ignore the line terminator of an entity read from
 standard input

---
 simpp/src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simpp/src/main.rs b/simpp/src/main.rs
index 682c011..e42f403 100644
--- a/simpp/src/main.rs
+++ b/simpp/src/main.rs
@@ -34,6 +34,7 @@ fn main() {
                 std::io::stdin()
                     .read_to_string(&mut stdin)
                     .expect("Failed to read entity from standard input");
+                stdin.truncate(stdin.trim_end_matches(['\r', '\n']).len());
                 Some(stdin)
             }
         })
-- 
2.43.0


From aaa2cff21dd48761e95069b0edbb4175080c54a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:36 +0000
Subject: [PATCH 14/45] fix: do not panic on activities with an empty detail
 string

---
 clang-time-trace/src/stats/activity/argument.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/clang-time-trace/src/stats/activity/argument.rs b/clang-time-trace/src/stats/activity/argument.rs
index 30a302c..9218892 100644
--- a/clang-time-trace/src/stats/activity/argument.rs
+++ b/clang-time-trace/src/stats/activity/argument.rs
@@ -275,12 +275,7 @@ impl ActivityArgumentType {
         // entity without invoking a C++ parser, which is expensive, so that
         // will be our default case when things does not look like info text.
         //
-        if !detail
-            .chars()
-            .next()
-            .expect("detail is not empty if detail_arg() returned Ok")
-            .is_uppercase()
-        {
+        if detail.chars().next().is_some_and(|c| !c.is_uppercase()) {
             return ActivityArgumentType::CppEntity;
         }
         let mut can_be_string = true;
-- 
2.43.0


From 32e80da5f6363319cb68fcd6e1123e461c9b5e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:40 +0000
Subject: [PATCH 15/45] fix: do not panic on traces without any event

---
 clang-time-trace/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clang-time-trace/src/lib.rs b/clang-time-trace/src/lib.rs
index d42f745..2fdce39 100644
--- a/clang-time-trace/src/lib.rs
+++ b/clang-time-trace/src/lib.rs
@@ -252,7 +252,7 @@ impl FromStr for ClangTrace {
         };
 
         // Process the trace events
-        let mut activities = ActivityTreeBuilder::with_capacity(profile_ctf.traceEvents.len() - 1);
+        let mut activities = ActivityTreeBuilder::with_capacity(profile_ctf.traceEvents.len());
         let mut global_stats = HashMap::new();
         let mut process_name = None;
         let mut thread_name = None;
-- 
2.43.0


From 907a49f591effdeb951cccb4f389e4156f7cd39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:48 +0000
Subject: [PATCH 16/45] fix: do not demangle symbols which are not mangled as
 if they were types

---
 .../src/stats/activity/argument.rs            | 35 +++++++++++--------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/clang-time-trace/src/stats/activity/argument.rs b/clang-time-trace/src/stats/activity/argument.rs
index 9218892..6d53458 100644
--- a/clang-time-trace/src/stats/activity/argument.rs
+++ b/clang-time-trace/src/stats/activity/argument.rs
@@ -143,19 +143,24 @@ impl RawActivityArgument {
             symbol = Rc::from(&symbol[1..symbol.len() - 1]);
         }
 
-        let demangling_result = MangledSymbol::new_with_options(
-            &*symbol,
-            &ParseOptions::default().recursion_limit(CPP_DEMANGLE_RECURSION_LIMIT),
-        )
-        .map(|s| {
-            demangling_buf.clear();
-            s.structured_demangle(
-                &mut *demangling_buf,
-                &DemangleOptions::default()
-                    .hide_expression_literal_types()
-                    .no_return_type()
-                    .recursion_limit(CPP_DEMANGLE_RECURSION_LIMIT),
+        // Mangled symbols start with an underscore. Do not let cpp_demangle
+        // mistake other symbols (e.g. extern "C" functions called "f" or "i")
+        // for bare mangled types, which it would happily demangle too.
+        let demangling_result = symbol.starts_with('_').then(|| {
+            MangledSymbol::new_with_options(
+                &*symbol,
+                &ParseOptions::default().recursion_limit(CPP_DEMANGLE_RECURSION_LIMIT),
             )
+            .map(|s| {
+                demangling_buf.clear();
+                s.structured_demangle(
+                    &mut *demangling_buf,
+                    &DemangleOptions::default()
+                        .hide_expression_literal_types()
+                        .no_return_type()
+                        .recursion_limit(CPP_DEMANGLE_RECURSION_LIMIT),
+                )
+            })
         });
 
         let mut parse_demangled = |entity: Rc<str>| -> ParsedSymbol {
@@ -167,11 +172,11 @@ impl RawActivityArgument {
         };
         let parsed = match demangling_result {
             // Mangled symbol was successfully demangled, intern it along with the rest
-            Ok(Ok(())) => parse_demangled(demangling_buf.clone().into()),
+            Some(Ok(Ok(()))) => parse_demangled(demangling_buf.clone().into()),
 
-            // Symbol failed to demangle, try some patterns that cpp_demangle
+            // Symbol is not mangled or failed to demangle, try some patterns that cpp_demangle
             // should not reject but actually does reject before giving up
-            Ok(Err(_)) | Err(_) => match &*symbol {
+            None | Some(Ok(Err(_)) | Err(_)) => match &*symbol {
                 "main" | "__clang_call_terminate" => parse_demangled(symbol),
                 _ => ParsedSymbol::MaybeMangled(symbol),
             },
-- 
2.43.0


From f6ed9c803349de18fd9a2263d698b763bafa6f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:08 +0000
Subject: [PATCH 17/45] fix: do not crash the text report on widths below 3
 columns

---
 src/ui/stdio.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ui/stdio.rs b/src/ui/stdio.rs
index bc6597f..1a55354 100644
--- a/src/ui/stdio.rs
+++ b/src/ui/stdio.rs
@@ -118,7 +118,7 @@ fn print_flat_profile(
             std::io::stdout(),
             activity_trace.activity().id(),
             &parsed_arg.resolve(trace),
-            max_cols - 2,
+            max_cols.saturating_sub(2).max(1),
             duration,
             duration_norm,
         )
-- 
2.43.0


From 70a9fb000b509248822259b84685b63abe507bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:10 +0000
Subject: [PATCH 18/45] fix: exit with a failure status when the text report
 cannot be produced

---
 src/ui/stdio.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ui/stdio.rs b/src/ui/stdio.rs
index 1a55354..9e8c169 100644
--- a/src/ui/stdio.rs
+++ b/src/ui/stdio.rs
@@ -10,7 +10,7 @@ use crate::{trace, CliArgs};
 use clang_time_trace::{
     ActivityArgument, ActivityId, ActivityTrace, ActivityTraceId, ClangTrace, Duration,
 };
-use std::io;
+use std::{io, process};
 use termtree::{GlyphPalette, Tree};
 use unicode_width::UnicodeWidthStr;
 
@@ -23,12 +23,13 @@ pub fn run(args: CliArgs) {
     let input = if let Some(input) = args.input {
         input
     } else {
-        return eprintln!(
+        eprintln!(
             "Full-build profiling requires user interaction, so it is not \
             supported by the non-interactive stdio user interface.\n\
             Please switch to the interactive textual user interface or re-run \
             me on an input file emitted by clang++ -ftime-trace."
         );
+        process::exit(1);
     };
 
     // Determine column budget
@@ -41,7 +42,8 @@ pub fn run(args: CliArgs) {
     let mut trace = match ClangTrace::from_file(input) {
         Ok(trace) => trace,
         Err(e) => {
-            return eprintln!("Failed to process input: {e}");
+            eprintln!("Failed to process input: {e}");
+            process::exit(1);
         }
     };
 
-- 
2.43.0


From 26f3bd3e2bc8573f0043d5167274d2dfa821a0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:13 +0000
Subject: [PATCH 19/45] fix: do not panic on start times which are out of the
 calendar's range

---
 src/ui/display/metadata.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/ui/display/metadata.rs b/src/ui/display/metadata.rs
index 9b4e817..73021c3 100644
--- a/src/ui/display/metadata.rs
+++ b/src/ui/display/metadata.rs
@@ -49,11 +49,15 @@ pub fn metadata(trace: &ClangTrace, max_cols: u16) -> String {
     }
     if let Some(bot) = trace.beginning_of_time() {
         let mut display = "recorded ".to_owned();
-        let bot = OffsetDateTime::from_unix_timestamp_nanos((bot / MICROSECOND) as i128 * 1000)
-            .unwrap()
-            .format(&Rfc3339)
-            .unwrap();
-        display.push_str(&bot);
+        let nanos = ((bot / MICROSECOND) as i128).saturating_mul(1000);
+        let date = OffsetDateTime::from_unix_timestamp_nanos(nanos)
+            .ok()
+            .and_then(|date| date.format(&Rfc3339).ok());
+        match date {
+            Some(date) => display.push_str(&date),
+            // Not a date that we can represent
+            None => display.push_str(&format!("at {bot:e}µs")),
+        }
         display_more(&mut buf, display);
     }
     buf.push('.');
-- 
2.43.0


From e7d065a042d915946373af4930ca661153d8ab4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:25 +0000
Subject: [PATCH 20/45] fix: list activity types of equal self-duration in a
 reproducible order

---
 src/trace.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/trace.rs b/src/trace.rs
index 5cab4cc..aebac96 100644
--- a/src/trace.rs
+++ b/src/trace.rs
@@ -11,6 +11,7 @@ pub fn duration_norm<'a>(roots: impl Iterator<Item = ActivityTrace<'a>>) -> Dura
 }
 
 /// Breakdown of self-duration by activity type, ordered by decreasing duration
+/// (then by name, so that the output is reproducible)
 pub fn activity_type_breakdown(trace: &ClangTrace) -> Box<[(Box<str>, Duration)]> {
     let mut profile = HashMap::<Box<str>, Duration>::new();
     for activity_trace in trace.all_activities() {
@@ -19,8 +20,10 @@ pub fn activity_type_breakdown(trace: &ClangTrace) -> Box<[(Box<str>, Duration)]
             .or_default() += activity_trace.self_duration();
     }
     let mut profile = profile.into_iter().collect::<Box<[_]>>();
-    profile.sort_unstable_by(|(_, d1), (_, d2)| {
-        d2.partial_cmp(d1).expect("No NaNs expected in time-trace")
+    profile.sort_unstable_by(|(n1, d1), (n2, d2)| {
+        d2.partial_cmp(d1)
+            .expect("No NaNs expected in time-trace")
+            .then_with(|| n1.cmp(n2))
     });
     profile
 }
-- 
2.43.0


From a9fefc931f60b26adff45e2be937bee74bec143f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:05 +0000
Subject: [PATCH 21/45] fix: show paths in full whenever they fit, including /
 and /name

---
 src/ui/display/path.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/ui/display/path.rs b/src/ui/display/path.rs
index 18fd446..5cf54bf 100644
--- a/src/ui/display/path.rs
+++ b/src/ui/display/path.rs
@@ -41,6 +41,12 @@ pub fn truncate_path_iter(
     assert!(cols > 0, "Need at least one column to display something");
     let cols = usize::from(cols);
 
+    // Nothing to truncate if the full path fits
+    let full_path = full_path(components.clone());
+    if full_path.width() <= cols {
+        return full_path;
+    }
+
     // Determine how many complete path components we can display
     let (accepted_front, accepted_back) = select_components(components.clone(), cols);
 
@@ -68,6 +74,18 @@ pub fn truncate_path_iter(
     result
 }
 
+/// Display all path components
+fn full_path(components: impl Iterator<Item = impl AsRef<str>>) -> Box<str> {
+    let mut buffer = String::new();
+    for component in components {
+        if !(buffer.is_empty() || buffer.ends_with(PATH_SEPARATOR)) {
+            buffer.push(PATH_SEPARATOR);
+        }
+        buffer.push_str(component.as_ref());
+    }
+    buffer.into()
+}
+
 /// Minimal filename width (in terminal columns) for partial display
 ///
 /// Above this limit, if truncate_path doesn't have enough terminal columns to
-- 
2.43.0


From 741ed10004499e00da9994437f25bd6accfcd9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:36 +0000
Subject: [PATCH 22/45] Hooks for external verification tools, behind the
 crofiler_verif cfg

---
 src/main.rs       |  7 +++++++
 src/ui/mod.rs     | 16 ++++++++++++++++
 src/ui/tui/mod.rs |  6 ++++++
 3 files changed, 29 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index ace3734..d1f1a30 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,11 +1,18 @@
 //! Easier C++ build profiling
 
 #![deny(missing_docs)]
+#![allow(unexpected_cfgs)]
 
 mod clang;
 mod trace;
 mod ui;
 
+/// Access to internals for external verification tools
+#[cfg(crofiler_verif)]
+pub mod verif {
+    pub use crate::ui::verif::*;
+}
+
 use clap::{Parser, ValueEnum};
 use std::{io, path::PathBuf};
 
diff --git a/src/ui/mod.rs b/src/ui/mod.rs
index 606cba7..ad37403 100644
--- a/src/ui/mod.rs
+++ b/src/ui/mod.rs
@@ -6,6 +6,22 @@ mod display;
 pub mod stdio;
 pub mod tui;
 
+/// Access to internals for external verification tools
+#[cfg(crofiler_verif)]
+pub mod verif {
+    pub use super::{
+        display::{
+            activity::{display_activity_desc, ActivityDescError},
+            display_string,
+            duration::display_duration,
+            metadata::metadata,
+            path::display_path,
+            DisplayConfig,
+        },
+        tui::verif::*,
+    };
+}
+
 /// Try to parse an activity argument using its intended logic
 ///
 /// If that fails, log an error, then treat it as a string argument
diff --git a/src/ui/tui/mod.rs b/src/ui/tui/mod.rs
index a1ca0a8..ae09cdd 100644
--- a/src/ui/tui/mod.rs
+++ b/src/ui/tui/mod.rs
@@ -7,6 +7,12 @@ mod names;
 mod processing;
 mod trace;
 
+/// Access to internals for external verification tools
+#[cfg(crofiler_verif)]
+pub mod verif {
+    pub use super::processing::{ActivityInfo, ProcessingThread};
+}
+
 use self::{
     processing::ProcessingThread,
     trace::display::{ProfileDisplay, ProfileLayer},
-- 
2.43.0


From c6fad0812dfe657776ee152bf933f6c29b85a3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:59 +0000
Subject: [PATCH 23/45] fix: reject build profiles that cannot be read

---
 cmakeperf/src/output.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmakeperf/src/output.rs b/cmakeperf/src/output.rs
index d62a320..ec1d12f 100644
--- a/cmakeperf/src/output.rs
+++ b/cmakeperf/src/output.rs
@@ -27,6 +27,8 @@ pub fn load(path: impl AsRef<Path>) -> Result<BuildProfile, ProfileLoadError> {
 
 /// Like `load()`, but takes any CSV reader, not necessarily a file reader
 fn from_csv_reader<R: Read>(mut reader: csv::Reader<R>) -> Result<BuildProfile, ProfileLoadError> {
+    // Deserialization would take a table whose header cannot be read for an empty one
+    reader.headers()?;
     let mut result = Vec::new();
     for unit in reader.deserialize() {
         result.push(unit?);
-- 
2.43.0


From 4d949b5993d3ea09bf4f19091c4061efd3112835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:32 +0000
Subject: [PATCH 24/45] fix: let compilation jobs print any amount of any
 output

---
 cmakeperf/src/measure/worker.rs | 62 ++++++++++++++++++++++++++-------
 1 file changed, 49 insertions(+), 13 deletions(-)

diff --git a/cmakeperf/src/measure/worker.rs b/cmakeperf/src/measure/worker.rs
index d8ce954..1234367 100644
--- a/cmakeperf/src/measure/worker.rs
+++ b/cmakeperf/src/measure/worker.rs
@@ -12,6 +12,7 @@ use std::{
         mpsc::Sender,
         RwLockReadGuard,
     },
+    thread::JoinHandle,
     time::Instant,
 };
 use sysinfo::{Pid, Process, Signal, System};
@@ -60,6 +61,7 @@ fn process_job(
     }
     let start = measure_time.then(Instant::now);
     let mut process = start_job(&job)?;
+    let output = JobOutput::collect(&mut process);
     let mut poll_clock = PollClock::start();
 
     // Monitor the job to completion or error
@@ -84,7 +86,7 @@ fn process_job(
     let wall_time = start.map(|start| start.elapsed());
 
     // Decide if job has succeeded or failed, log output accordingly
-    report_process(process, exit_status)?;
+    report_process(output, exit_status)?;
 
     // Compute relative path to the input, if possible
     let rel_path = std::env::current_dir()
@@ -228,9 +230,51 @@ impl ProcessTree {
     }
 }
 
+/// Output of a job, collected while the job is running
+///
+/// A job that prints more than the capacity of a pipe will not make progress
+/// until something reads from the other end of that pipe.
+///
+struct JobOutput {
+    /// Thread collecting the standard output
+    stdout: JoinHandle<Vec<u8>>,
+
+    /// Thread collecting the standard error
+    stderr: JoinHandle<Vec<u8>>,
+}
+//
+impl JobOutput {
+    /// Start collecting the output of a job
+    fn collect(process: &mut Child) -> Self {
+        fn read_stdpipe(pipe: Option<impl Read + Send + 'static>) -> JoinHandle<Vec<u8>> {
+            let mut pipe = pipe.expect("Process output/error should have been piped");
+            std::thread::spawn(move || {
+                let mut buf = Vec::new();
+                if let Err(e) = pipe.read_to_end(&mut buf) {
+                    log::warn!("Failed to read job output: {e}");
+                }
+                buf
+            })
+        }
+        Self {
+            stdout: read_stdpipe(process.stdout.take()),
+            stderr: read_stdpipe(process.stderr.take()),
+        }
+    }
+
+    /// Wait for the output to be complete, return stdout and stderr
+    fn finish(self) -> (String, String) {
+        let join = |reader: JoinHandle<Vec<u8>>| {
+            let buf = reader.join().expect("Output readers should not panic");
+            String::from_utf8_lossy(&buf).into_owned()
+        };
+        (join(self.stdout), join(self.stderr))
+    }
+}
+
 /// Report on process failure or unexpected output
-fn report_process(process: Child, exit_status: ExitStatus) -> Result<(), JobError> {
-    let stdpipe_report = report_stdpipe(process);
+fn report_process(output: JobOutput, exit_status: ExitStatus) -> Result<(), JobError> {
+    let stdpipe_report = report_stdpipe(output);
     if !exit_status.success() {
         let mut message = format!("Job failed with {exit_status}");
         if !stdpipe_report.is_empty() {
@@ -246,16 +290,8 @@ fn report_process(process: Child, exit_status: ExitStatus) -> Result<(), JobErro
 }
 
 /// Report on non-empty stdout and/or stderr from a compilation process
-fn report_stdpipe(process: Child) -> String {
-    fn read_stdpipe(pipe: Option<impl Read>) -> String {
-        let mut buf = String::new();
-        pipe.expect("Process output/error should have been piped and available")
-            .read_to_string(&mut buf)
-            .expect("Reading from pipes should be infaillible");
-        buf
-    }
-    let stdout = read_stdpipe(process.stdout);
-    let stderr = read_stdpipe(process.stderr);
+fn report_stdpipe(output: JobOutput) -> String {
+    let (stdout, stderr) = output.finish();
     let mut report = String::new();
     let has_stdout = !stdout.is_empty();
     if has_stdout {
-- 
2.43.0


From 097213090073d49f75ac49dab03624bad784a9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:12 +0000
Subject: [PATCH 25/45] fix: keep polling the system when many jobs finish in a
 row

---
 cmakeperf/src/measure/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cmakeperf/src/measure/mod.rs b/cmakeperf/src/measure/mod.rs
index 6dd5010..46b6bc2 100644
--- a/cmakeperf/src/measure/mod.rs
+++ b/cmakeperf/src/measure/mod.rs
@@ -278,7 +278,7 @@ const BITS_PER_USIZE: usize = std::mem::size_of::<usize>() * 8;
 
 /// Polling clock, used for system monitoring tasks
 pub struct PollClock {
-    /// When the last poll occured
+    /// When the last scheduled poll occured, or will occur
     last_poll: Instant,
 }
 //
@@ -292,7 +292,14 @@ impl PollClock {
 
     /// Advance poll clock, tell how long till the next poll should occur
     pub fn poll_delay(&mut self) -> Duration {
+        // If the wait for the next poll was interrupted, resume it
         let poll_start = Instant::now();
+        let remaining_delay = self.last_poll.saturating_duration_since(poll_start);
+        if !remaining_delay.is_zero() {
+            return remaining_delay;
+        }
+
+        // Otherwise, schedule the next poll
         let curr_polling_interval = Self::polling_interval();
         let mut next_poll = self.last_poll + curr_polling_interval;
         if next_poll < poll_start {
-- 
2.43.0


From 933d33efb250b00a324b0527b33f7d31b2eab550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:02 +0000
Subject: [PATCH 26/45] fix: handle lack of memory with 64 workers or more

---
 cmakeperf/src/measure/main.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/cmakeperf/src/measure/main.rs b/cmakeperf/src/measure/main.rs
index d9107f8..8b75e53 100644
--- a/cmakeperf/src/measure/main.rs
+++ b/cmakeperf/src/measure/main.rs
@@ -426,15 +426,13 @@ impl<'flags> StopServer<'flags> {
         self.word_values()
             .enumerate()
             .flat_map(|(word_idx, mut word_value)| {
-                let mut bit_offset = word_idx * BITS_PER_USIZE;
                 std::iter::from_fn(move || {
                     if word_value == 0 {
                         return None;
                     }
-                    let offset_after_first_one = word_value.trailing_zeros() as usize + 1;
-                    bit_offset += offset_after_first_one;
-                    word_value >>= offset_after_first_one;
-                    Some(bit_offset - 1)
+                    let bit_offset = word_value.trailing_zeros() as usize;
+                    word_value &= word_value - 1;
+                    Some(word_idx * BITS_PER_USIZE + bit_offset)
                 })
             })
     }
-- 
2.43.0


From 8082f9c481c13bbfa21ccc46025cbae4a4cffa1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:27 +0000
Subject: [PATCH 27/45] fix: stop the other jobs when a full-build measurement
 fails

---
 cmakeperf/src/measure/main.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cmakeperf/src/measure/main.rs b/cmakeperf/src/measure/main.rs
index 8b75e53..f0a5a54 100644
--- a/cmakeperf/src/measure/main.rs
+++ b/cmakeperf/src/measure/main.rs
@@ -366,6 +366,13 @@ impl<'monitor> MonitorServer<'monitor> {
     }
 }
 //
+impl Drop for MonitorServer<'_> {
+    /// Do not let workers process jobs once the main thread has given up
+    fn drop(&mut self) {
+        self.stop_all();
+    }
+}
+//
 /// Error returned when all threads have been killed due to OOM
 #[must_use]
 #[derive(Clone, Copy, Debug, Eq, PartialEq)]
-- 
2.43.0


From 9a2e61501edf30ca8228eff03e15e2db4afc2ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:16 +0000
Subject: [PATCH 28/45] fix: kill recently started jobs too when stopping

---
 cmakeperf/src/measure/worker.rs | 34 ++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/cmakeperf/src/measure/worker.rs b/cmakeperf/src/measure/worker.rs
index 1234367..b321c98 100644
--- a/cmakeperf/src/measure/worker.rs
+++ b/cmakeperf/src/measure/worker.rs
@@ -13,9 +13,9 @@ use std::{
         RwLockReadGuard,
     },
     thread::JoinHandle,
-    time::Instant,
+    time::{Duration, Instant},
 };
-use sysinfo::{Pid, Process, Signal, System};
+use sysinfo::{Pid, Process, ProcessRefreshKind, RefreshKind, Signal, System};
 use thiserror::Error;
 use wait_timeout::ChildExt;
 
@@ -70,14 +70,13 @@ fn process_job(
     let exit_status = loop {
         match process.wait_timeout(poll_clock.poll_delay()) {
             Ok(None) => {
-                let system = monitor_client.system();
-                tree.refresh(&system);
                 if let Err(MustStop) = monitor_client.keep_job() {
-                    tree.kill(&system);
+                    kill_job(&mut process, tree);
                     return Err(JobError::Killed(job));
-                } else {
-                    max_rss_bytes = max_rss_bytes.max(tree.memory(&system));
                 }
+                let system = monitor_client.system();
+                tree.refresh(&system);
+                max_rss_bytes = max_rss_bytes.max(tree.memory(&system));
             }
             Ok(Some(exit_status)) => break exit_status,
             Err(e) => return Err(JobError::WaitFailed(e)),
@@ -146,6 +145,27 @@ fn start_job(job: &DatabaseEntry) -> Result<Child, JobError> {
     }
 }
 
+/// Terminate a job before its end
+fn kill_job(process: &mut Child, tree: &mut ProcessTree) {
+    // The shared system monitor state may be too old to contain every process
+    // from the job, or even the job itself if it was started recently.
+    let system =
+        System::new_with_specifics(RefreshKind::new().with_processes(ProcessRefreshKind::new()));
+    tree.refresh(&system);
+    tree.kill(&system);
+
+    // Make sure that the job does terminate
+    if let Ok(Some(_status)) = process.wait_timeout(KILL_TIMEOUT) {
+        return;
+    }
+    if let Err(e) = process.kill().and_then(|()| process.wait()) {
+        log::error!("Failed to kill job: {e}");
+    }
+}
+
+/// Time that a job is given to terminate before it is forced to
+const KILL_TIMEOUT: Duration = Duration::from_secs(1);
+
 /// Process tree monitor
 struct ProcessTree {
     /// Buffer to collect the full process tree
-- 
2.43.0


From 5b45e3f2beeca17e0eddeab64d8a7025c876e786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:40 +0000
Subject: [PATCH 29/45] fix: Display profiles of activities that took no time

---
 src/ui/tui/trace/mod.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/ui/tui/trace/mod.rs b/src/ui/tui/trace/mod.rs
index fce9aa2..3245d7c 100644
--- a/src/ui/tui/trace/mod.rs
+++ b/src/ui/tui/trace/mod.rs
@@ -8,6 +8,15 @@ use clang_time_trace::Duration;
 use decorum::Finite;
 
 /// Compute the percentage norm associated with a set of activities
+///
+/// If these activities took no time at all, every share of their duration is
+/// considered to be zero.
+///
 fn percent_norm(total_duration: Duration) -> Finite<Duration> {
-    Finite::<Duration>::from_inner(100.0 / total_duration)
+    let norm = if total_duration > 0.0 {
+        100.0 / total_duration
+    } else {
+        0.0
+    };
+    Finite::<Duration>::from_inner(norm)
 }
-- 
2.43.0


From 7f2e5cacd2160e4cac599a50cb046fb561272110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:43 +0000
Subject: [PATCH 30/45] fix: Display traces which have no activity

---
 src/ui/tui/trace/display.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/ui/tui/trace/display.rs b/src/ui/tui/trace/display.rs
index adefacd..9cadc91 100644
--- a/src/ui/tui/trace/display.rs
+++ b/src/ui/tui/trace/display.rs
@@ -226,7 +226,9 @@ fn show_profile(
     );
 
     // Initialize the description
-    update_description(cursive, selected_activity);
+    if let Some(selected_activity) = selected_activity {
+        update_description(cursive, selected_activity);
+    }
 }
 
 /// Register a new profile in the TUI state and return the information needed to
@@ -313,7 +315,7 @@ fn make_profile_view(
     description_width: u16,
     display_config: ProfileDisplay,
     update_description: impl Fn(&mut Cursive, ActivityTraceId) + Send + Sync + 'static,
-) -> (impl View, ActivityTraceId) {
+) -> (impl View, Option<ActivityTraceId>) {
     // Set up the children activity table
     let items = make_profile_data(kind, &activity_infos, activity_descs);
     let update_desc = select(table_name.clone(), update_description);
@@ -328,11 +330,13 @@ fn make_profile_view(
     add_duration_cols_and_sort(&mut table, kind, display_config);
     table.set_selected_row(0);
 
-    // Determine the ID of the currently selected activity
-    let selected_activity = table
-        .borrow_item(table.item().expect("There should be a selected item"))
-        .expect("Selected item index should be OK")
-        .id;
+    // Determine the ID of the currently selected activity, if there is any
+    let selected_activity = table.item().map(|index| {
+        table
+            .borrow_item(index)
+            .expect("Selected item index should be OK")
+            .id
+    });
 
     // Let user zoom in on child activities in hierarchical profiles
     match kind {
@@ -377,7 +381,7 @@ fn make_profile_view(
         )
     });
 
-    // Return the view and selected activity ID
+    // Return the view and selected activity ID (if any)
     (view, selected_activity)
 }
 
-- 
2.43.0


From 3c82eb710db06b68582476e05a68b8c3d5dc3bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:37 +0000
Subject: [PATCH 31/45] fix: Keep the sort direction when switching duration
 units

---
 src/ui/tui/trace/display.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ui/tui/trace/display.rs b/src/ui/tui/trace/display.rs
index 9cadc91..7e099ad 100644
--- a/src/ui/tui/trace/display.rs
+++ b/src/ui/tui/trace/display.rs
@@ -569,8 +569,10 @@ fn add_duration_cols_and_sort(
             sort_config.key = sort_config.key.into_flat();
         }
     }
-    table.set_default_column(sort_config.key.into_column(duration_display));
-    table.sort();
+    table.sort_by(
+        sort_config.key.into_column(duration_display),
+        sort_config.order[sort_config.key as usize],
+    );
 }
 
 /// Hierarchical profile column
-- 
2.43.0


From b0d27baa83482c76b2bc8f01c4dc6144f36b0465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:04 +0000
Subject: [PATCH 32/45] fix: Do not crash in narrow terminals

---
 src/ui/tui/build/display.rs | 4 ++--
 src/ui/tui/trace/display.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ui/tui/build/display.rs b/src/ui/tui/build/display.rs
index 92e9954..f5db99b 100644
--- a/src/ui/tui/build/display.rs
+++ b/src/ui/tui/build/display.rs
@@ -44,7 +44,7 @@ pub fn display_profile(
     if has_walltime {
         non_file_width += WALL_TIME_WIDTH + 3;
     }
-    let file_width = terminal_width as usize - non_file_width;
+    let file_width = (terminal_width as usize).saturating_sub(non_file_width);
 
     // Set up table display
     type FullBuildProfileView = TableView<UnitProfile, ProfileColumn>;
@@ -99,7 +99,7 @@ pub fn display_profile(
     // Show the profile
     cursive.add_fullscreen_layer(
         LinearLayout::vertical()
-            .child(table.min_size((terminal_width, terminal_height - 1)))
+            .child(table.min_size((terminal_width, terminal_height.saturating_sub(1))))
             .child(TextView::new("Press H for help.").center()),
     );
     cursive.run();
diff --git a/src/ui/tui/trace/display.rs b/src/ui/tui/trace/display.rs
index 7e099ad..f61c9a1 100644
--- a/src/ui/tui/trace/display.rs
+++ b/src/ui/tui/trace/display.rs
@@ -785,7 +785,7 @@ fn description_column_width(profile_kind: ProfileKind, terminal_width: u16) -> u
         ProfileKind::Hierarchical => DURATION_WIDTH + 4,
         ProfileKind::Flat => 0,
     };
-    terminal_width - durations_scroll_width as u16
+    terminal_width.saturating_sub(durations_scroll_width as u16)
 }
 
 /// Construct the cursive view used to provide the detailed name of an activity,
-- 
2.43.0


From a498d26edd1ffb60a88724c360aa026be80d65b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:55 +0000
Subject: [PATCH 33/45] fix: Read the output of clang while it measures a trace

---
 src/ui/tui/trace/measure.rs | 72 ++++++++++++++++++++++++++-----------
 1 file changed, 52 insertions(+), 20 deletions(-)

diff --git a/src/ui/tui/trace/measure.rs b/src/ui/tui/trace/measure.rs
index 87d6a9f..4f8e662 100644
--- a/src/ui/tui/trace/measure.rs
+++ b/src/ui/tui/trace/measure.rs
@@ -13,6 +13,7 @@ use std::{
         atomic::{self, AtomicBool, Ordering},
         Arc,
     },
+    thread::JoinHandle,
     time::Duration,
 };
 use wait_timeout::ChildExt;
@@ -299,6 +300,12 @@ struct CancelableClang {
     /// Child process
     child: Child,
 
+    /// Content of the child's stdout
+    stdout: PipeReader,
+
+    /// Content of the child's stderr
+    stderr: PipeReader,
+
     /// Cancelation flag
     canceled: Arc<AtomicBool>,
 }
@@ -307,7 +314,7 @@ impl CancelableClang {
     /// Start clang and set up cancelation, emit an error message if it goes wrong
     fn start(mut command: Command) -> Result<(Self, CancelTrigger), String> {
         // Start clang process
-        let child = match command
+        let mut child = match command
             .stdin(Stdio::null())
             .stdout(Stdio::piped())
             .stderr(Stdio::piped())
@@ -319,12 +326,24 @@ impl CancelableClang {
             }
         };
 
+        // Start reading clang's output, otherwise it will block once pipes are full
+        let stdout = PipeReader::start(child.stdout.take().expect("Failed to access stdout"));
+        let stderr = PipeReader::start(child.stderr.take().expect("Failed to access stderr"));
+
         // Set up cancelation
         let canceled = Arc::new(AtomicBool::new(false));
         let cancel_trigger = CancelTrigger(canceled.clone());
 
         // Return all of that
-        Ok((Self { child, canceled }, cancel_trigger))
+        Ok((
+            Self {
+                child,
+                stdout,
+                stderr,
+                canceled,
+            },
+            cancel_trigger,
+        ))
     }
 
     /// Wait for the process to terminate or be canceled
@@ -356,7 +375,11 @@ impl CancelableClang {
             Ok(Some(status)) if status.success() => Ok(false),
 
             // Clang terminated with an error status
-            Ok(Some(error_status)) => Err(child_failure_message(self.child, error_status)),
+            Ok(Some(error_status)) => Err(child_failure_message(
+                self.stdout,
+                self.stderr,
+                error_status,
+            )),
 
             // The work was canceled, kill clang and exit through the error path
             Ok(None) => match self.child.kill() {
@@ -386,28 +409,37 @@ impl CancelTrigger {
     }
 }
 
+/// Background reader of the data that a child process writes to a pipe
+struct PipeReader(JoinHandle<Vec<u8>>);
+//
+impl PipeReader {
+    /// Start reading from a pipe
+    fn start(mut pipe: impl Read + Send + 'static) -> Self {
+        Self(std::thread::spawn(move || {
+            let mut data = Vec::new();
+            std::mem::drop(pipe.read_to_end(&mut data));
+            data
+        }))
+    }
+
+    /// Wait for the pipe to be closed and emit all data that came out of it
+    fn finish(self) -> Vec<u8> {
+        self.0.join().unwrap_or_default()
+    }
+}
+
 /// Generate an error message for a failing Child process
 ///
 /// Ignore failure to extract info from stdout and stderr as that's difficult
 /// to handle and ultimately these are just nice-to-have details.
 ///
-fn child_failure_message(mut child: Child, error_status: ExitStatus) -> String {
-    let mut stdout = Vec::new();
-    let mut stderr = Vec::new();
-    std::mem::drop(
-        child
-            .stdout
-            .take()
-            .expect("Failed to access stdout")
-            .read_to_end(&mut stdout),
-    );
-    std::mem::drop(
-        child
-            .stderr
-            .take()
-            .expect("Failed to access stderr")
-            .read_to_end(&mut stderr),
-    );
+fn child_failure_message(
+    stdout: PipeReader,
+    stderr: PipeReader,
+    error_status: ExitStatus,
+) -> String {
+    let stdout = stdout.finish();
+    let stderr = stderr.finish();
     let mut error = format!("clang time-trace run failed ({})", error_status);
     let append_pipe = |error: &mut String, is_first, stream_name: &str, stream_data| {
         write!(
-- 
2.43.0


From b8c5299c19d551c4fe785395d2b9b6ab4e2fa057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:32 +0000
Subject: [PATCH 34/45] fix: Keep the previous trace when clang does not
 produce a new one

---
 src/ui/tui/trace/measure.rs | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/ui/tui/trace/measure.rs b/src/ui/tui/trace/measure.rs
index 4f8e662..6fa6994 100644
--- a/src/ui/tui/trace/measure.rs
+++ b/src/ui/tui/trace/measure.rs
@@ -169,8 +169,16 @@ pub fn start_measure(cursive: &mut Cursive, command: Command, output_path: Box<P
         let error_message = match wait_result {
             // Clang completed successfully
             Ok(false) => {
-                // Delete the backup file
-                let (output_path, backup_error) = backup.cleanup();
+                // Delete the backup file, unless there is nothing to replace it
+                let (output_path, backup_error) = match backup.cleanup() {
+                    Ok(tuple) => tuple,
+                    Err(error) => {
+                        callback(cb_sink, move |cursive| {
+                            cursive.add_layer(Dialog::info(error))
+                        });
+                        return;
+                    }
+                };
 
                 // Show the trace loading screen
                 callback(cb_sink, move |cursive| {
@@ -282,15 +290,28 @@ impl TraceBackup {
     /// In case of clang success, this attempts to delete the backup and returns
     /// the output file path, along with an error message to be displayed if the
     /// deletion process failed
-    #[must_use]
-    fn cleanup(self) -> (Box<Path>, Option<String>) {
+    ///
+    /// If clang did not actually produce any output, the backup is restored and
+    /// a fatal error message is returned instead.
+    ///
+    fn cleanup(self) -> Result<(Box<Path>, Option<String>), String> {
+        if !self.output.exists() {
+            let mut error = format!(
+                "clang completed without producing a time trace at {}",
+                self.output.display()
+            );
+            if let Some(restore_error) = self.restore_or_delete() {
+                write!(error, "\n{restore_error}").expect("Writing to String always succeeds");
+            }
+            return Err(error);
+        }
         match std::fs::remove_file(&self.backup) {
-            Ok(()) => (self.output, None),
-            Err(e) if e.kind() == io::ErrorKind::NotFound => (self.output, None),
-            Err(other) => (
+            Ok(()) => Ok((self.output, None)),
+            Err(e) if e.kind() == io::ErrorKind::NotFound => Ok((self.output, None)),
+            Err(other) => Ok((
                 self.output,
                 Some(format!("Failed to remove clang trace backup: {other}")),
-            ),
+            )),
         }
     }
 }
-- 
2.43.0


From 9b9c7baa7776d5a42261a0e28d8b1002ad31968d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:02 +0000
Subject: [PATCH 35/45] fix: Wait for clang to be gone when a trace measurement
 is aborted

---
 src/ui/tui/trace/measure.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ui/tui/trace/measure.rs b/src/ui/tui/trace/measure.rs
index 6fa6994..7690694 100644
--- a/src/ui/tui/trace/measure.rs
+++ b/src/ui/tui/trace/measure.rs
@@ -403,8 +403,11 @@ impl CancelableClang {
             )),
 
             // The work was canceled, kill clang and exit through the error path
-            Ok(None) => match self.child.kill() {
-                Ok(()) => Ok(true),
+            //
+            // Once killed, clang must also be awaited: it may otherwise still
+            // be busy writing output for a while, and would remain as a zombie.
+            Ok(None) => match self.child.kill().and_then(|()| self.child.wait()) {
+                Ok(_status) => Ok(true),
                 Err(e)
                     if e.kind() == io::ErrorKind::InvalidInput
                         || e.kind() == io::ErrorKind::NotFound =>
-- 
2.43.0


From f36b719cd435b672b152a399529f8ccc278a7ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:39 +0000
Subject: [PATCH 36/45] fix: Cancel the measurement of a trace when the user
 quits

---
 src/ui/tui/mod.rs           |  9 ++++++-
 src/ui/tui/trace/measure.rs | 48 +++++++++++++++++++++++++++++++------
 2 files changed, 49 insertions(+), 8 deletions(-)

diff --git a/src/ui/tui/mod.rs b/src/ui/tui/mod.rs
index ae09cdd..e2c036d 100644
--- a/src/ui/tui/mod.rs
+++ b/src/ui/tui/mod.rs
@@ -15,7 +15,10 @@ pub mod verif {
 
 use self::{
     processing::ProcessingThread,
-    trace::display::{ProfileDisplay, ProfileLayer},
+    trace::{
+        display::{ProfileDisplay, ProfileLayer},
+        measure::OngoingMeasurement,
+    },
 };
 use crate::CliArgs;
 use clang_time_trace::Duration;
@@ -58,6 +61,7 @@ pub fn run(args: CliArgs) {
         layers_below_profile: 0,
         no_escape: false,
         display_config: Default::default(),
+        trace_measurement: None,
     });
 
     // Set up the last-chance panic handler and run
@@ -115,6 +119,9 @@ pub struct State {
 
     /// Current profile display configuration
     display_config: ProfileDisplay,
+
+    /// Ongoing time-trace measurement, canceled when the UI terminates
+    trace_measurement: Option<OngoingMeasurement>,
 }
 
 /// Run a closure on the UI state
diff --git a/src/ui/tui/trace/measure.rs b/src/ui/tui/trace/measure.rs
index 7690694..cad5a29 100644
--- a/src/ui/tui/trace/measure.rs
+++ b/src/ui/tui/trace/measure.rs
@@ -142,23 +142,26 @@ pub fn start_measure(cursive: &mut Cursive, command: Command, output_path: Box<P
 
     // Set up the measurement screen
     cursive.add_layer(
-        Dialog::text("Measuring time trace, please minimize system activity...")
-            .button("Abort", move |_cursive| cancel_trigger.cancel()),
+        Dialog::text("Measuring time trace, please minimize system activity...").button("Abort", {
+            let cancel_trigger = cancel_trigger.clone();
+            move |_cursive| cancel_trigger.cancel()
+        }),
     );
 
     // Start a thread that measures a clang time-trace and arranges for the
     // next steps to be taken once that's done
     let cb_sink = cursive.cb_sink().clone();
-    std::thread::spawn(move || {
-        // Force-send a callback to the cursive thread with less verbosity
+    let thread = std::thread::spawn(move || {
+        // Send a callback to the cursive thread with less verbosity
+        //
+        // This fails if the user quits, in which case the UI is gone for good
+        // and only the cleanup work remains to be done.
         let cb_sink = &cb_sink;
         fn callback(
             cb_sink: &cursive::CbSink,
             callback: impl FnOnce(&mut Cursive) + Send + 'static,
         ) {
-            cb_sink
-                .send(Box::new(callback))
-                .expect("Failed to send cursive callback to main thread");
+            std::mem::drop(cb_sink.send(Box::new(callback)));
         }
 
         // Wait for clang to finish or for the cancelation signal to be sent
@@ -215,6 +218,35 @@ pub fn start_measure(cursive: &mut Cursive, command: Command, output_path: Box<P
             });
         }
     });
+    // Make sure that the measurement is canceled if the user quits
+    with_state(cursive, |state| {
+        state.trace_measurement = Some(OngoingMeasurement {
+            cancel_trigger,
+            thread: Some(thread),
+        })
+    });
+}
+
+/// Ongoing time-trace measurement
+///
+/// Dropping this cancels the measurement if it is not over yet, and waits for
+/// clang to be gone and for the previous trace to be restored.
+///
+pub struct OngoingMeasurement {
+    /// Mechanism to cancel the measurement
+    cancel_trigger: CancelTrigger,
+
+    /// Thread that performs the measurement
+    thread: Option<JoinHandle<()>>,
+}
+//
+impl Drop for OngoingMeasurement {
+    fn drop(&mut self) {
+        self.cancel_trigger.cancel();
+        if let Some(thread) = self.thread.take() {
+            std::mem::drop(thread.join());
+        }
+    }
 }
 
 /// Saved Cursive state returned by start_measure, to be passed back to
@@ -234,6 +266,7 @@ struct MeasureState {
 ///
 fn end_measure(cursive: &mut Cursive, state: MeasureState) {
     let old_layers = with_state(cursive, |state| {
+        state.trace_measurement = None;
         state.no_escape = false;
         state.layers_below_profile
     });
@@ -424,6 +457,7 @@ impl CancelableClang {
 }
 //
 /// Cancelation trigger for CancelableClang
+#[derive(Clone)]
 struct CancelTrigger(Arc<AtomicBool>);
 //
 impl CancelTrigger {
-- 
2.43.0


From 2424e672fffac90bf1a7a485d8fa508f8f79d420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:54 +0000
Subject: [PATCH 37/45] fix: Delete the backup of the build profile once there
 is a new one

---
 src/ui/tui/build/measure.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ui/tui/build/measure.rs b/src/ui/tui/build/measure.rs
index 9c95246..78eee4a 100644
--- a/src/ui/tui/build/measure.rs
+++ b/src/ui/tui/build/measure.rs
@@ -125,7 +125,7 @@ pub fn measure_profile(
 ///
 /// If an old profile already exists, a backup will be taken, and restored in
 /// case this is dropped without seeing the whole data collection process
-/// through. This provides RAII-based data collection error & cancelation handling.
+/// through. Otherwise, the backup will be deleted. This provides RAII-based data collection error & cancelation handling.
 ///
 struct MeasureHandle<'cursive, 'output> {
     /// Cursive handle
@@ -223,7 +223,15 @@ impl<'cursive, 'output> MeasureHandle<'cursive, 'output> {
 //
 impl Drop for MeasureHandle<'_, '_> {
     fn drop(&mut self) {
-        if !self.success.load(Ordering::Acquire) {
+        if self.success.load(Ordering::Acquire) {
+            // The backup should not outlive its purpose, as it could otherwise
+            // be mistaken for that of a later measurement
+            match std::fs::remove_file(&self.backup_path) {
+                Ok(()) => {}
+                Err(e) if e.kind() == io::ErrorKind::NotFound => {}
+                Err(other) => log::warn!("Failed to remove build profile backup: {other}"),
+            }
+        } else {
             Self::restore_or_delete(self.cursive, &self.backup_path, self.output_path);
         }
     }
-- 
2.43.0


From 0bb14d8944b71a204fd2b30a9047fcea8fd3a8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:20 +0000
Subject: [PATCH 38/45] fix: Stop measuring a build before restoring its former
 profile

---
 src/ui/tui/build/measure.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ui/tui/build/measure.rs b/src/ui/tui/build/measure.rs
index 78eee4a..062cd4c 100644
--- a/src/ui/tui/build/measure.rs
+++ b/src/ui/tui/build/measure.rs
@@ -141,7 +141,7 @@ struct MeasureHandle<'cursive, 'output> {
     success: Arc<AtomicBool>,
 
     /// Live cmakeperf data collection process
-    _measurement: Measurement,
+    measurement: Option<Measurement>,
 }
 //
 impl<'cursive, 'output> MeasureHandle<'cursive, 'output> {
@@ -197,7 +197,7 @@ impl<'cursive, 'output> MeasureHandle<'cursive, 'output> {
             output_path,
             backup_path,
             success,
-            _measurement: measurement,
+            measurement: Some(measurement),
         })
     }
 
@@ -223,6 +223,8 @@ impl<'cursive, 'output> MeasureHandle<'cursive, 'output> {
 //
 impl Drop for MeasureHandle<'_, '_> {
     fn drop(&mut self) {
+        // Make sure that data collection is over before touching its output
+        std::mem::drop(self.measurement.take());
         if self.success.load(Ordering::Acquire) {
             // The backup should not outlive its purpose, as it could otherwise
             // be mistaken for that of a later measurement
-- 
2.43.0


From a57cadbe684684d48a4ad5311b6cceef6b441222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:46 +0000
Subject: [PATCH 39/45] fix: Display build profiles where some times are
 missing or invalid

---
 src/ui/tui/build/display.rs | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/ui/tui/build/display.rs b/src/ui/tui/build/display.rs
index f5db99b..0576a09 100644
--- a/src/ui/tui/build/display.rs
+++ b/src/ui/tui/build/display.rs
@@ -28,10 +28,7 @@ pub fn display_profile(
     profile: BuildProfile,
 ) {
     // Determine if the profile contains wall-clock time information
-    let has_walltime = profile
-        .first()
-        .map(|unit| unit.wall_time().is_some())
-        .unwrap_or(false);
+    let has_walltime = profile.iter().any(|unit| unit.wall_time().is_some());
 
     // Check terminal dimensions
     let (terminal_width, terminal_height) =
@@ -122,13 +119,14 @@ impl TableViewItem<ProfileColumn> for UnitProfile {
     fn to_column(&self, column: ProfileColumn) -> String {
         match column {
             ProfileColumn::MaxRSS => format!("{:.2} GB", self.max_rss_bytes() as f32 / 1e9),
-            ProfileColumn::WallTime => format!(
-                "{:.1}s",
-                self.wall_time()
-                    .expect("Wall-time should be present if this is probed")
-                    .map(|dur| dur.as_secs_f32())
-                    .unwrap_or_else(|raw_secs| raw_secs)
-            ),
+            ProfileColumn::WallTime => match self.wall_time() {
+                Some(time) => format!(
+                    "{:.1}s",
+                    time.map(|dur| dur.as_secs_f32())
+                        .unwrap_or_else(|raw_secs| raw_secs)
+                ),
+                None => "?".to_owned(),
+            },
             ProfileColumn::RelPath(cols) => truncate_path_iter(
                 self.rel_path()
                     .components()
@@ -145,11 +143,11 @@ impl TableViewItem<ProfileColumn> for UnitProfile {
     {
         match column {
             ProfileColumn::MaxRSS => self.max_rss_bytes().cmp(&other.max_rss_bytes()),
-            ProfileColumn::WallTime => self
-                .wall_time()
-                .zip(other.wall_time())
-                .map(|(x, y)| x.partial_cmp(&y).expect("Failed to compare wall-time"))
-                .expect("Wall-time should be present if this is probed"),
+            ProfileColumn::WallTime => match (self.wall_time(), other.wall_time()) {
+                // Invalid durations may be NaNs, which cannot be compared normally
+                (Some(Err(x)), Some(Err(y))) => x.total_cmp(&y),
+                (x, y) => x.partial_cmp(&y).expect("Failed to compare wall-time"),
+            },
             ProfileColumn::RelPath(_cols) => self.rel_path().cmp(other.rel_path()),
         }
     }
-- 
2.43.0


From db4f7ae9737f13cf560333ff88fb420c39ed3d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:49 +0000
Subject: [PATCH 40/45] fix: Do not make up the age of profiles that come from
 the future

---
 src/ui/tui/create.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ui/tui/create.rs b/src/ui/tui/create.rs
index b1c12fa..035839c 100644
--- a/src/ui/tui/create.rs
+++ b/src/ui/tui/create.rs
@@ -40,9 +40,9 @@ impl CreatePrompt {
             // might still be because we are not omniscient. Prompt if it's older
             // than one minute and we're using the default path (not manual choice)
             ProductFreshness::MaybeOutdated(age) => {
-                let age_mins = age.map(|d| d.as_secs() / 60).unwrap_or(u64::MAX);
-                if age_mins > 0 && !manually_specified {
-                    Some(CreatePrompt::maybe_stale_build_profile(Some(age_mins)))
+                let age_mins = age.map(|d| d.as_secs() / 60);
+                if age_mins != Some(0) && !manually_specified {
+                    Some(CreatePrompt::maybe_stale_build_profile(age_mins))
                 } else {
                     None
                 }
-- 
2.43.0


From b1c26df8a62a81fd161039dc9e496f161f5c4aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:52 +0000
Subject: [PATCH 41/45] fix: Find database entries of source files behind
 symbolic links

---
 src/ui/tui/trace/measure.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ui/tui/trace/measure.rs b/src/ui/tui/trace/measure.rs
index cad5a29..37a79e9 100644
--- a/src/ui/tui/trace/measure.rs
+++ b/src/ui/tui/trace/measure.rs
@@ -39,8 +39,14 @@ pub fn show_wizard(
         }
     };
 
-    // Find the compilation database entry for the target file
-    let entry = match compilation_database.entry(&abs_path) {
+    // Find the compilation database entry for the target file, keeping in mind
+    // that the database may refer to it via symbolic links
+    let entry = compilation_database.entry(&abs_path).or_else(|| {
+        compilation_database
+            .entries()
+            .find(|entry| matches!(entry.input().canonicalize(), Ok(path) if path == abs_path))
+    });
+    let entry = match entry {
         Some(entry) => entry,
         None => {
             cursive.add_layer(Dialog::info(format!(
-- 
2.43.0


From e55b54b36758b4f58ee5661da2751140e3118133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:33 +0000
Subject: [PATCH 42/45] fix: Do not crash when showing build profiles in narrow
 terminals

---
 src/ui/tui/build/display.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ui/tui/build/display.rs b/src/ui/tui/build/display.rs
index 0576a09..787e826 100644
--- a/src/ui/tui/build/display.rs
+++ b/src/ui/tui/build/display.rs
@@ -41,7 +41,9 @@ pub fn display_profile(
     if has_walltime {
         non_file_width += WALL_TIME_WIDTH + 3;
     }
-    let file_width = (terminal_width as usize).saturating_sub(non_file_width);
+    let file_width = (terminal_width as usize)
+        .saturating_sub(non_file_width)
+        .max(1);
 
     // Set up table display
     type FullBuildProfileView = TableView<UnitProfile, ProfileColumn>;
-- 
2.43.0


From 473855227d7c11175c4a30b6aaa36586920937c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:54 +0000
Subject: [PATCH 43/45] fix: do not crash the text report on terminals of
 unknown width

---
 src/main.rs     | 7 ++++++-
 src/ui/stdio.rs | 9 +++++----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index d1f1a30..5838135 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -65,7 +65,12 @@ pub struct CliArgs {
     ///
     /// Only used by the stdio user interface, the TUI detects the screen width.
     ///
-    #[clap(short = 'c', long = "cols", default_value = "200")]
+    #[clap(
+        short = 'c',
+        long = "cols",
+        default_value = "200",
+        value_parser = clap::value_parser!(u16).range(1..)
+    )]
     max_cols: u16,
 
     /// Granularity to be used when measuring time-trace profiles (in µs)
diff --git a/src/ui/stdio.rs b/src/ui/stdio.rs
index 9e8c169..fdf54a2 100644
--- a/src/ui/stdio.rs
+++ b/src/ui/stdio.rs
@@ -32,10 +32,11 @@ pub fn run(args: CliArgs) {
         process::exit(1);
     };
 
-    // Determine column budget
-    let max_cols = termion::terminal_size()
-        .map(|(width, _height)| width.min(args.max_cols))
-        .unwrap_or(args.max_cols);
+    // Determine column budget (terminals of unknown size report zero columns)
+    let max_cols = match termion::terminal_size() {
+        Ok((width, _height)) if width > 0 => width.min(args.max_cols),
+        _ => args.max_cols,
+    };
 
     // Load the clang trace
     eprintln!("Processing input data...");
-- 
2.43.0


From 8aa13af4a3882d6ce8ecba4d4bf7491a7b4126b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:47 +0000
Subject: [PATCH 44/45] fix: keep former build profiles whose name ends in .bak

---
 src/ui/tui/build/measure.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ui/tui/build/measure.rs b/src/ui/tui/build/measure.rs
index 062cd4c..68dc1ad 100644
--- a/src/ui/tui/build/measure.rs
+++ b/src/ui/tui/build/measure.rs
@@ -156,7 +156,13 @@ impl<'cursive, 'output> MeasureHandle<'cursive, 'output> {
         // FIXME: Ask user what kind of profile they want (memory-only or wall-time too ? What concurrency ?)
 
         // If a cmakeperf output already exists, back it up
-        let backup_path = output_path.with_extension("bak").into_boxed_path();
+        //
+        // Users can give the output any extension, including this one
+        let mut backup_path = output_path.with_extension("bak");
+        if backup_path == output_path {
+            backup_path.set_extension("bak.bak");
+        }
+        let backup_path = backup_path.into_boxed_path();
         match std::fs::rename(output_path, &backup_path) {
             Ok(()) => {}
             Err(e) if e.kind() == io::ErrorKind::NotFound => {}
-- 
2.43.0


From 9a9d03bee36b3dcf59399fda16966abbcab1cdc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:18 +0000
Subject: [PATCH 45/45] fix: show activities with an empty argument wherever
 they fit

---
 src/ui/display/activity.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/ui/display/activity.rs b/src/ui/display/activity.rs
index aad85c5..6038498 100644
--- a/src/ui/display/activity.rs
+++ b/src/ui/display/activity.rs
@@ -28,6 +28,15 @@ pub fn display_activity_desc(
     let paren_width = '('.width().expect("Not a control char");
     debug_assert_eq!(Some(paren_width), ')'.width());
 
+    // Parameters take up at least one column, unless there is nothing to show
+    let min_argument_width = match activity_arg {
+        ActivityArgument::Nothing => 0,
+        ActivityArgument::String(s)
+        | ActivityArgument::Symbol(Symbol::Demangled(s))
+        | ActivityArgument::Symbol(Symbol::MaybeMangled(s)) => 2 * paren_width + s.width().min(1),
+        _ => 2 * paren_width + 1,
+    };
+
     // Can we display at least ActivityName + (…) if there are parameters?
     // FIXME: Remove allow-directive once pretty printing is implemented
     #[allow(unused_mut)]
@@ -35,7 +44,7 @@ pub fn display_activity_desc(
         // In the single-line case, this is only true if there are enough
         // terminal columns available, otherwise we error out
         DisplayConfig::SingleLine { max_cols } => {
-            if usize::from(*max_cols) < activity_name.width() + 3 * (has_argument as usize) {
+            if usize::from(*max_cols) < activity_name.width() + min_argument_width {
                 return Err(ActivityDescError::NotEnoughCols(*max_cols));
             } else {
                 write!(output, "{activity_name}")?;
-- 
2.43.0

