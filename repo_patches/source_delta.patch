From b41bc1406d5aabfbde22030b02ded07ebe89cf26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:45 +0000
Subject: [PATCH 01/49] fix: report an error instead of panicking when parsing
 stops mid-rule

RuleIter asserted on drop that no tokens were left, so any error returned with
tokens still pending (an unknown function in a Filter, Sort or Join, a duplicate
Fetch argument, ...) turned into a panic. Completeness is still asserted by done().
---
 src/parser/common.rs | 28 +++++-----------------------
 1 file changed, 5 insertions(+), 23 deletions(-)

diff --git a/src/parser/common.rs b/src/parser/common.rs
index c79c939..bc7198f 100644
--- a/src/parser/common.rs
+++ b/src/parser/common.rs
@@ -1,5 +1,5 @@
 use std::collections::HashMap;
-use std::{fmt, thread};
+use std::fmt;
 
 use pest::error::{Error as PestError, ErrorVariant};
 use pest::iterators::{Pair, Pairs};
@@ -198,21 +198,16 @@ pub(crate) trait ScopedParsePair: Sized {
 }
 
 pub(crate) fn iter_pairs(pair: Pairs<'_, Rule>) -> RuleIter<'_> {
-    RuleIter {
-        iter: pair,
-        done: false,
-    }
+    RuleIter { iter: pair }
 }
 
 pub(crate) struct RuleIter<'a> {
     iter: Pairs<'a, Rule>,
-    // Set to true when done is called, so destructor doesn't panic
-    done: bool,
 }
 
 impl<'a> From<Pairs<'a, Rule>> for RuleIter<'a> {
     fn from(iter: Pairs<'a, Rule>) -> Self {
-        RuleIter { iter, done: false }
+        RuleIter { iter }
     }
 }
 
@@ -285,8 +280,9 @@ impl<'a> RuleIter<'a> {
         T::parse_pair(extensions, pair)
     }
 
+    // Assert that every pair was consumed. Not checked on drop: an iterator
+    // dropped early by an error return legitimately has pairs left.
     pub(crate) fn done(mut self) {
-        self.done = true;
         // A rule may end with the `EOI` marker to force full input consumption
         // (e.g. `virtual_read_relation`). That marker carries no data, so it is
         // not leftover content — skip it before asserting the iterator is empty.
@@ -298,20 +294,6 @@ impl<'a> RuleIter<'a> {
     }
 }
 
-/// Make sure that the iterator was completely consumed when the iterator is
-/// dropped - that we didn't leave any partially-parsed tokens.
-///
-/// This is not strictly necessary, but it's a good way to catch bugs.
-impl Drop for RuleIter<'_> {
-    fn drop(&mut self) {
-        if self.done || thread::panicking() {
-            return;
-        }
-        // If the iterator is not done, something probably went wrong.
-        assert_eq!(self.iter.next(), None);
-    }
-}
-
 /// A collection of named arguments (`name=value` pairs) extracted from a
 /// named-argument-list rule, keyed by name with duplicate-name rejection.
 pub(crate) struct ParsedNamedArgs<'a> {
-- 
2.43.0


From 50437b491d46318da65f5685a7ebb08722a4eeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:03 +0000
Subject: [PATCH 02/49] fix: reject out-of-range numbers in text plans instead
 of panicking

Field references beyond i32, anchors beyond u32 (or negative) and integers
beyond i64 hit unwrap() in the converters.
---
 src/parser/common.rs     | 36 ++++++++++++++++++++++++++++++++++++
 src/parser/extensions.rs |  3 ++-
 src/parser/mod.rs        |  2 +-
 src/parser/structural.rs |  8 +++++++-
 4 files changed, 46 insertions(+), 3 deletions(-)

diff --git a/src/parser/common.rs b/src/parser/common.rs
index bc7198f..3797183 100644
--- a/src/parser/common.rs
+++ b/src/parser/common.rs
@@ -87,6 +87,41 @@ pub(crate) fn unwrap_single_pair(pair: Pair<Rule>) -> Pair<Rule> {
     pair
 }
 
+/// Check that every number in `pairs` fits the type it will be stored as: `i32`
+/// for field references, `u32` for anchors, `i64` for any other integer.
+///
+/// The grammar accepts digit strings of any length (and a sign), so this runs
+/// before the pairs are converted.
+pub(crate) fn check_number_ranges(pairs: &Pairs<Rule>) -> Result<(), MessageParseError> {
+    for pair in pairs.clone().flatten() {
+        let (number, kind, in_range) = match pair.as_rule() {
+            Rule::reference => {
+                let number = unwrap_single_pair(pair);
+                let in_range = number.as_str().parse::<i32>().is_ok();
+                (number, "field reference", in_range)
+            }
+            Rule::anchor | Rule::urn_anchor => {
+                let number = unwrap_single_pair(pair);
+                let in_range = number.as_str().parse::<u32>().is_ok();
+                (number, "anchor", in_range)
+            }
+            Rule::integer => {
+                let in_range = pair.as_str().parse::<i64>().is_ok();
+                (pair, "integer", in_range)
+            }
+            _ => continue,
+        };
+        if !in_range {
+            return Err(MessageParseError::invalid(
+                kind,
+                number.as_span(),
+                format!("{kind} out of range: {}", number.as_str()),
+            ));
+        }
+    }
+    Ok(())
+}
+
 /// Unescapes a quoted string literal, handling escape sequences.
 ///
 /// # Arguments
@@ -170,6 +205,7 @@ pub(crate) trait ParsePair: Sized {
     fn parse_str(s: &str) -> Result<Self, MessageParseError> {
         let mut pairs = <ExpressionParser as PestParser<Rule>>::parse(Self::rule(), s)
             .map_err(|e| MessageParseError::new(Self::message(), ErrorKind::Syntax, Box::new(e)))?;
+        check_number_ranges(&pairs)?;
         assert_eq!(pairs.as_str(), s);
         let pair = pairs.next().unwrap();
         assert_eq!(pairs.next(), None);
diff --git a/src/parser/extensions.rs b/src/parser/extensions.rs
index ec2fb5e..45b4fb6 100644
--- a/src/parser/extensions.rs
+++ b/src/parser/extensions.rs
@@ -10,7 +10,7 @@ use thiserror::Error;
 
 use super::{
     ErrorKind, ExpressionParser, MessageParseError, ParsePair, Rule, RuleIter, ScopedParsePair,
-    unescape_string, unwrap_single_pair,
+    check_number_ranges, unescape_string, unwrap_single_pair,
 };
 use crate::extensions::any::Any;
 use crate::extensions::simple::{self, ExtensionKind};
@@ -220,6 +220,7 @@ impl SimpleExtensionDeclaration {
             .map_err(|e| {
                 MessageParseError::new("SimpleExtensionDeclaration", ErrorKind::Syntax, Box::new(e))
             })?;
+        check_number_ranges(&pairs)?;
         assert_eq!(pairs.as_str(), s);
         let pair = pairs.next().unwrap();
         let mut iter = RuleIter::from(pair.into_inner());
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 72d62a6..02e5db7 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -10,7 +10,7 @@ pub(crate) mod types;
 pub use common::MessageParseError;
 pub(crate) use common::{
     ErrorKind, ExpressionParser, ParsePair, ParsedNamedArgs, Rule, RuleIter, ScopedParsePair,
-    iter_pairs, sort_direction_from_str, unescape_string, unwrap_single_pair,
+    check_number_ranges, iter_pairs, sort_direction_from_str, unescape_string, unwrap_single_pair,
 };
 pub use errors::{ParseContext, ParseError, ParseResult};
 pub use extensions::{ExpectedExtensionLine, ExtensionParseError};
diff --git a/src/parser/structural.rs b/src/parser/structural.rs
index 1fc989a..9b06b12 100644
--- a/src/parser/structural.rs
+++ b/src/parser/structural.rs
@@ -26,7 +26,9 @@ use crate::parser::extensions::{
 use crate::parser::relations::{
     ExtensionReadRel, RelationParsingContext, VirtualReadRel, parse_set_relation_pair,
 };
-use crate::parser::{ErrorKind, ExpressionParser, RelationParsePair, Rule, unwrap_single_pair};
+use crate::parser::{
+    ErrorKind, ExpressionParser, RelationParsePair, Rule, check_number_ranges, unwrap_single_pair,
+};
 
 pub const PLAN_HEADER: &str = "=== Plan";
 pub const VERSION_HEADER: &str = "=== Version";
@@ -105,6 +107,8 @@ impl<'a> LineNode<'a> {
                     MessageParseError::new("planNode", ErrorKind::InvalidValue, Box::new(e)),
                 )
             })?;
+        check_number_ranges(&pairs)
+            .map_err(|e| ParseError::Plan(ParseContext::new(line_no, line.to_string()), e))?;
 
         let outer = pairs.next().unwrap();
         assert!(pairs.next().is_none()); // Should be exactly one pair
@@ -136,6 +140,8 @@ impl<'a> LineNode<'a> {
                 MessageParseError::new("top_level_relation", ErrorKind::Syntax, Box::new(e)),
             )
         })?;
+        check_number_ranges(&pairs)
+            .map_err(|e| ParseError::Plan(ParseContext::new(line_no, line.to_string()), e))?;
 
         let outer = pairs.next().unwrap();
         assert!(pairs.next().is_none());
-- 
2.43.0


From 23449a32de91de433f869e32456ce5add73f1a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:31 +0000
Subject: [PATCH 03/49] fix: reject trailing text after an extension
 declaration instead of panicking

---
 src/parser/common.rs     | 21 ++++++++++++++++++++-
 src/parser/extensions.rs |  4 ++--
 src/parser/mod.rs        |  3 ++-
 3 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/parser/common.rs b/src/parser/common.rs
index 3797183..659f9c7 100644
--- a/src/parser/common.rs
+++ b/src/parser/common.rs
@@ -122,6 +122,25 @@ pub(crate) fn check_number_ranges(pairs: &Pairs<Rule>) -> Result<(), MessagePars
     Ok(())
 }
 
+/// Check that `pairs` cover all of `input`, so nothing after the matched rule is
+/// silently dropped.
+pub(crate) fn check_fully_matched(
+    message: &'static str,
+    pairs: &Pairs<Rule>,
+    input: &str,
+) -> Result<(), MessageParseError> {
+    let matched = pairs.as_str().len();
+    if matched == input.len() {
+        return Ok(());
+    }
+    let rest = Span::new(input, matched, input.len()).expect("a match ends on a char boundary");
+    Err(MessageParseError::invalid(
+        message,
+        rest,
+        format!("Unexpected trailing input: {:?}", &input[matched..]),
+    ))
+}
+
 /// Unescapes a quoted string literal, handling escape sequences.
 ///
 /// # Arguments
@@ -206,7 +225,7 @@ pub(crate) trait ParsePair: Sized {
         let mut pairs = <ExpressionParser as PestParser<Rule>>::parse(Self::rule(), s)
             .map_err(|e| MessageParseError::new(Self::message(), ErrorKind::Syntax, Box::new(e)))?;
         check_number_ranges(&pairs)?;
-        assert_eq!(pairs.as_str(), s);
+        check_fully_matched(Self::message(), &pairs, s)?;
         let pair = pairs.next().unwrap();
         assert_eq!(pairs.next(), None);
         Ok(Self::parse_pair(pair))
diff --git a/src/parser/extensions.rs b/src/parser/extensions.rs
index 45b4fb6..15213b4 100644
--- a/src/parser/extensions.rs
+++ b/src/parser/extensions.rs
@@ -10,7 +10,7 @@ use thiserror::Error;
 
 use super::{
     ErrorKind, ExpressionParser, MessageParseError, ParsePair, Rule, RuleIter, ScopedParsePair,
-    check_number_ranges, unescape_string, unwrap_single_pair,
+    check_fully_matched, check_number_ranges, unescape_string, unwrap_single_pair,
 };
 use crate::extensions::any::Any;
 use crate::extensions::simple::{self, ExtensionKind};
@@ -221,7 +221,7 @@ impl SimpleExtensionDeclaration {
                 MessageParseError::new("SimpleExtensionDeclaration", ErrorKind::Syntax, Box::new(e))
             })?;
         check_number_ranges(&pairs)?;
-        assert_eq!(pairs.as_str(), s);
+        check_fully_matched("SimpleExtensionDeclaration", &pairs, s)?;
         let pair = pairs.next().unwrap();
         let mut iter = RuleIter::from(pair.into_inner());
 
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 02e5db7..e1c144d 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -10,7 +10,8 @@ pub(crate) mod types;
 pub use common::MessageParseError;
 pub(crate) use common::{
     ErrorKind, ExpressionParser, ParsePair, ParsedNamedArgs, Rule, RuleIter, ScopedParsePair,
-    check_number_ranges, iter_pairs, sort_direction_from_str, unescape_string, unwrap_single_pair,
+    check_fully_matched, check_number_ranges, iter_pairs, sort_direction_from_str, unescape_string,
+    unwrap_single_pair,
 };
 pub use errors::{ParseContext, ParseError, ParseResult};
 pub use extensions::{ExpectedExtensionLine, ExtensionParseError};
-- 
2.43.0


From 17e820920d5da501162f6a272d6977396da8ea5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:43 +0000
Subject: [PATCH 04/49] fix: parse map, struct and integer-parameterized types
 instead of panicking

The grammar and the formatter cover map<..>, struct<..> and integer type
parameters, but the parser hit unimplemented!(). The unsigned integer names are
dropped from the grammar: Substrait has no such types, and they hit
unreachable!().
---
 src/parser/expression_grammar.pest |  4 --
 src/parser/types.rs                | 74 ++++++++++++++++++++++++++++--
 2 files changed, 70 insertions(+), 8 deletions(-)

diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index 3518570..0d5ecbf 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -84,10 +84,6 @@ simple_type_name = {
   | "i16"
   | "i32"
   | "i64"
-  | "u8"
-  | "u16"
-  | "u32"
-  | "u64"
   | "fp32"
   | "fp64"
   | "string"
diff --git a/src/parser/types.rs b/src/parser/types.rs
index 42efae6..39ef1e8 100644
--- a/src/parser/types.rs
+++ b/src/parser/types.rs
@@ -98,7 +98,20 @@ impl ScopedParsePair for Parameter {
                     Type::parse_pair(extensions, inner)?,
                 )),
             }),
-            _ => unimplemented!("{:?}", inner.as_rule()),
+            Rule::integer => {
+                let value = inner
+                    .as_str()
+                    .parse()
+                    .map_err(|e| MessageParseError::invalid(Self::message(), inner.as_span(), e))?;
+                Ok(Parameter {
+                    parameter: Some(proto::r#type::parameter::Parameter::Integer(value)),
+                })
+            }
+            _ => Err(MessageParseError::invalid(
+                Self::message(),
+                inner.as_span(),
+                "Only types and integers are supported as type parameters",
+            )),
         }
     }
 }
@@ -187,13 +200,13 @@ fn parse_compound_type(
     let inner = unwrap_single_pair(pair);
     match inner.as_rule() {
         Rule::list_type => parse_list_type(extensions, inner),
-        // Rule::map_type => parse_map_type(inner),
-        // Rule::struct_type => parse_struct_type(inner),
+        Rule::map_type => parse_map_type(extensions, inner),
+        Rule::struct_type => parse_struct_type(extensions, inner),
         Rule::precision_timestamp_tz_type
         | Rule::precision_timestamp_type
         | Rule::precision_time_type => parse_precision_type(inner),
         Rule::interval_day_type => parse_interval_day_type(inner),
-        _ => unimplemented!("{:?}", inner.as_rule()),
+        rule => unreachable!("Grammar guarantees a compound type, got {rule:?}"),
     }
 }
 
@@ -287,6 +300,59 @@ fn parse_list_type(
     })
 }
 
+fn parse_map_type(
+    extensions: &SimpleExtensions,
+    pair: Pair<Rule>,
+) -> Result<Type, MessageParseError> {
+    assert_eq!(pair.as_rule(), Rule::map_type);
+    let mut iter = iter_pairs(pair.into_inner());
+    let nullability = iter.parse_next::<Nullability>();
+    let key = iter.parse_next_scoped::<Type>(extensions)?;
+    let value = iter.parse_next_scoped::<Type>(extensions)?;
+    iter.done();
+
+    Ok(Type {
+        kind: Some(Kind::Map(Box::new(proto::r#type::Map {
+            nullability: nullability.into(),
+            key: Some(Box::new(key)),
+            value: Some(Box::new(value)),
+            type_variation_reference: 0,
+        }))),
+    })
+}
+
+fn parse_struct_type(
+    extensions: &SimpleExtensions,
+    pair: Pair<Rule>,
+) -> Result<Type, MessageParseError> {
+    assert_eq!(pair.as_rule(), Rule::struct_type);
+    let span = pair.as_span();
+    let mut iter = iter_pairs(pair.into_inner());
+    let nullability = iter.parse_next::<Nullability>();
+    let parameters = parse_parameters(extensions, iter.pop(Rule::parameters))?;
+    iter.done();
+
+    let types = parameters
+        .into_iter()
+        .map(|p| match p.parameter {
+            Some(proto::r#type::parameter::Parameter::DataType(t)) => Ok(t),
+            _ => Err(MessageParseError::invalid(
+                "struct",
+                span,
+                "struct fields must be types",
+            )),
+        })
+        .collect::<Result<Vec<_>, _>>()?;
+
+    Ok(Type {
+        kind: Some(Kind::Struct(proto::r#type::Struct {
+            nullability: nullability.into(),
+            types,
+            type_variation_reference: 0,
+        })),
+    })
+}
+
 fn parse_parameters(
     extensions: &SimpleExtensions,
     pair: Pair<Rule>,
-- 
2.43.0


From fcab2d61554850bf821f1be9fe942d090ee097d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:25 +0000
Subject: [PATCH 05/49] fix: report the line number of an unexpected line
 before the first section

The error carried the line's indentation depth instead of its number.
---
 src/parser/structural.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/structural.rs b/src/parser/structural.rs
index 9b06b12..2d21e6f 100644
--- a/src/parser/structural.rs
+++ b/src/parser/structural.rs
@@ -1061,8 +1061,8 @@ impl<'a> Parser<'a> {
         match self.state {
             State::Initial => match indented_line {
                 IndentedLine(0, l) if l.trim().is_empty() => Ok(()),
-                IndentedLine(n, l) => Err(ParseError::Initial(
-                    ParseContext::new(n as i64, l.to_string()),
+                IndentedLine(_, l) => Err(ParseError::Initial(
+                    ParseContext::new(line_no, l.to_string()),
                     MessageParseError::invalid(
                         "initial",
                         pest::Span::new(l, 0, l.len()).expect("Invalid span?!"),
-- 
2.43.0


From 127e99ae2577c66b88b641687a7b9d1d0b64c232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:33 +0000
Subject: [PATCH 06/49] fix: write floats so they read back as floats

Whole-number floats were written without a fractional part (1.0 as 1, 5.0:fp32
as 5:fp32) and came back as integers or a parse error; NaN and infinities were
written as text that cannot be parsed, without reporting an error.
---
 src/textify/expressions.rs | 21 +++++++++++++++++++--
 src/textify/extensions.rs  | 14 ++++++++++++--
 2 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/textify/expressions.rs b/src/textify/expressions.rs
index ffca46e..50c2147 100644
--- a/src/textify/expressions.rs
+++ b/src/textify/expressions.rs
@@ -59,6 +59,21 @@ fn unimplemented_literal<S: Scope, W: fmt::Write>(
     )
 }
 
+/// A finite floating-point value, always written with a fractional part: without
+/// one, the text would read back as an integer.
+pub(crate) struct FloatText<T>(pub T);
+
+impl<T: fmt::Display> fmt::Display for FloatText<T> {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        let text = self.0.to_string();
+        f.write_str(&text)?;
+        if !text.contains('.') {
+            f.write_str(".0")?;
+        }
+        Ok(())
+    }
+}
+
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 enum PrecisionFormatError {
     /// `precision` isn't one of the precisions literals support (0, 3, 6, 9, 12).
@@ -314,8 +329,10 @@ fn write_literal_value<S: Scope, W: fmt::Write>(
         LiteralType::Boolean(b) => write!(w, "{b}"),
         LiteralType::I8(i) | LiteralType::I16(i) | LiteralType::I32(i) => write!(w, "{i}"),
         LiteralType::I64(i) => write!(w, "{i}"),
-        LiteralType::Fp32(f) => write!(w, "{f}"),
-        LiteralType::Fp64(f) => write!(w, "{f}"),
+        LiteralType::Fp32(f) if !f.is_finite() => unimplemented_literal("non-finite Fp32", ctx, w),
+        LiteralType::Fp64(f) if !f.is_finite() => unimplemented_literal("non-finite Fp64", ctx, w),
+        LiteralType::Fp32(f) => write!(w, "{}", FloatText(f)),
+        LiteralType::Fp64(f) => write!(w, "{}", FloatText(f)),
         LiteralType::String(s) => write!(w, "'{}'", s.escape_debug()),
         LiteralType::Binary(items) => textify_binary(items, ctx, w),
         LiteralType::Date(days) => {
diff --git a/src/textify/extensions.rs b/src/textify/extensions.rs
index 8e731ca..7f01c2c 100644
--- a/src/textify/extensions.rs
+++ b/src/textify/extensions.rs
@@ -7,10 +7,11 @@
 
 use std::fmt;
 
-use crate::FormatError;
 use crate::extensions::{Expr, ExtensionArgs, ExtensionColumn, ExtensionValue, TupleValue};
+use crate::textify::expressions::FloatText;
 use crate::textify::foundation::{Scope, Textify};
 use crate::textify::types::{Name, escaped};
+use crate::{FormatError, PlanError};
 
 impl Textify for TupleValue {
     fn name() -> &'static str {
@@ -38,7 +39,16 @@ impl Textify for ExtensionValue {
         match self {
             ExtensionValue::String(s) => write!(w, "'{}'", escaped(s)),
             ExtensionValue::Integer(i) => write!(w, "{i}"),
-            ExtensionValue::Float(f) => write!(w, "{f}"),
+            ExtensionValue::Float(f) if !f.is_finite() => write!(
+                w,
+                "{}",
+                ctx.failure(PlanError::unimplemented(
+                    "ExtensionValue",
+                    Some("Float"),
+                    "non-finite floats have no text form",
+                ))
+            ),
+            ExtensionValue::Float(f) => write!(w, "{}", FloatText(f)),
             ExtensionValue::Boolean(b) => write!(w, "{b}"),
             ExtensionValue::Null => write!(w, "null"),
             ExtensionValue::Error(error) => {
-- 
2.43.0


From 198d4f177aec80f2d2ffb2809d84cf0f31aecc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:05 +0000
Subject: [PATCH 07/49] fix: reject integer literals that do not fit their type

5000000000:i32 was silently truncated and 300:i8 stored as is.
---
 src/parser/expressions.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index f116c0a..d5bfec8 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -1,5 +1,6 @@
 use std::fmt::{self, Display, Formatter};
 use std::mem::size_of;
+use std::num::TryFromIntError;
 use std::str::FromStr;
 
 use chrono::{DateTime, NaiveDate, NaiveDateTime, NaiveTime};
@@ -95,6 +96,13 @@ const UNSIGNED_INT_KIND: Kind = Kind::I64(I64 {
 fn to_int_literal(value: Pair<Rule>, typ: Option<Type>) -> Result<Literal, MessageParseError> {
     assert_eq!(value.as_rule(), Rule::integer);
     let parsed_value: i64 = value.as_str().parse().unwrap();
+    let out_of_range = |e: TryFromIntError| {
+        MessageParseError::invalid(
+            "int_literal",
+            value.as_span(),
+            format!("{e}: {parsed_value}"),
+        )
+    };
 
     // If no type is provided, we assume i64, Nullability::Required.
     let kind = typ.and_then(|t| t.kind).unwrap_or(UNSIGNED_INT_KIND);
@@ -102,17 +110,17 @@ fn to_int_literal(value: Pair<Rule>, typ: Option<Type>) -> Result<Literal, Messa
     let (lit, nullability, tvar) = match &kind {
         // If no type is provided, we assume i64, Nullability::Required.
         Kind::I8(i) => (
-            LiteralType::I8(parsed_value as i32),
+            LiteralType::I8(i8::try_from(parsed_value).map_err(out_of_range)?.into()),
             i.nullability,
             i.type_variation_reference,
         ),
         Kind::I16(i) => (
-            LiteralType::I16(parsed_value as i32),
+            LiteralType::I16(i16::try_from(parsed_value).map_err(out_of_range)?.into()),
             i.nullability,
             i.type_variation_reference,
         ),
         Kind::I32(i) => (
-            LiteralType::I32(parsed_value as i32),
+            LiteralType::I32(i32::try_from(parsed_value).map_err(out_of_range)?),
             i.nullability,
             i.type_variation_reference,
         ),
-- 
2.43.0


From 2cda5d83cecd498a742e5e0417bf316ac3cac506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:11 +0000
Subject: [PATCH 08/49] fix: keep the declared type of a string literal

'x':string? lost its nullability, and 'x':binary, 'x':uuid and other types with
no string form were silently turned into plain strings.
---
 src/parser/expressions.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index d5bfec8..90fbd61 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -341,14 +341,16 @@ fn to_string_literal(value: Pair<Rule>, typ: Option<Type>) -> Result<Literal, Me
                 type_variation_reference: pt.type_variation_reference,
             })
         }
-        _ => {
-            // For other types, treat as string
-            Ok(Literal {
-                literal_type: Some(LiteralType::String(string_value)),
-                nullable: false,
-                type_variation_reference: 0,
-            })
-        }
+        Kind::String(s) => Ok(Literal {
+            literal_type: Some(LiteralType::String(string_value)),
+            nullable: s.nullability != Nullability::Required as i32,
+            type_variation_reference: s.type_variation_reference,
+        }),
+        k => Err(MessageParseError::invalid(
+            "string_literal_type",
+            value.as_span(),
+            format!("Invalid type for string literal: {k:?}"),
+        )),
     }
 }
 
-- 
2.43.0


From 3afdd9fb108886bfefa9a3419369c9eec254f99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:40 +0000
Subject: [PATCH 09/49] fix: accept the empty sort list the formatter writes

A Sort with no sort fields is written as Sort[_ => ...], which did not parse.
---
 src/parser/expression_grammar.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index 0d5ecbf..0f4fe0e 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -331,7 +331,7 @@ empty = { "_" }
 
 // SortRel: Sort[($0, &AscNullsFirst), (lower($1):string, &DescNullsLast) => ...]
 sort_relation   = { "Sort" ~ "[" ~ sort_field_list ~ sp ~ "=>" ~ sp ~ reference_list ~ "]" }
-sort_field_list = { (sort_field ~ (sp ~ "," ~ sp ~ sort_field)*)? }
+sort_field_list = { "_" | (sort_field ~ (sp ~ "," ~ sp ~ sort_field)*)? }
 sort_field      = { "(" ~ sp ~ expression ~ sp ~ "," ~ sp ~ sort_direction ~ sp ~ ")" }
 sort_direction  = { "&AscNullsFirst" | "&AscNullsLast" | "&DescNullsFirst" | "&DescNullsLast" }
 
-- 
2.43.0


From 876075460dad0b32afa96841bd94f52032f1b00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:12 +0000
Subject: [PATCH 10/49] fix: do not split names that start with a type name,
 boolean or null

A user-defined type such as time_series, and a call such as nullif(..) as an
extension argument, were read as the keyword followed by junk.
---
 src/parser/expression_grammar.pest | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index 0f4fe0e..eb66f5a 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -8,8 +8,8 @@ sp = _{ whitespace* }
 identifier = @{ ASCII_ALPHA ~ (ASCII_ALPHANUMERIC | "_")* }
 integer    = @{ "-"? ~ ASCII_DIGIT+ }
 float      = @{ "-"? ~ ASCII_DIGIT+ ~ "." ~ ASCII_DIGIT+ }
-boolean    = @{ "true" | "false" }
-null       = @{ "null" }
+boolean    = @{ ("true" | "false") ~ !(ASCII_ALPHANUMERIC | "_") }
+null       = @{ "null" ~ !(ASCII_ALPHANUMERIC | "_") }
 
 // Basic string literals, does not handle escape sequences for simplicity here.
 // String literals are for literal values
@@ -78,8 +78,10 @@ nullability = { ("?" | "⁉")? }
 
 // -- Type Expressions --
 // See <https://substrait.io/types/type_classes/>. These must be lowercase.
+// The lookahead keeps a user-defined name that merely starts with one of these
+// (e.g. `time_series`) from being split.
 simple_type_name = {
-    "boolean"
+  ( "boolean"
   | "i8"
   | "i16"
   | "i32"
@@ -94,6 +96,7 @@ simple_type_name = {
   | "time"
   | "interval_year"
   | "uuid"
+  ) ~ !(ASCII_ALPHANUMERIC | "_")
 }
 
 // A simple native type expression, composed of a name and optional nullability.
-- 
2.43.0


From 0b26147293c4d0bce80efbaac93d152b2d74ba8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:21 +0000
Subject: [PATCH 11/49] fix: read back the \u{..} and \0 escapes the formatter
 writes

Strings and names with control, unprintable or combining characters came back as
the literal text u{..} or 0.
---
 src/parser/common.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/parser/common.rs b/src/parser/common.rs
index 659f9c7..2c07ff6 100644
--- a/src/parser/common.rs
+++ b/src/parser/common.rs
@@ -195,6 +195,16 @@ pub(crate) fn unescape_string(pair: Pair<Rule>) -> String {
                     'n' => result.push('\n'),
                     't' => result.push('\t'),
                     'r' => result.push('\r'),
+                    '0' => result.push('\0'),
+                    // `\u{...}`, as the formatter writes characters with no
+                    // printable form. Anything else after `\u` is taken as is.
+                    'u' => match unicode_escape(chars.as_str()) {
+                        Some((c, rest)) => {
+                            result.push(c);
+                            chars = rest.chars();
+                        }
+                        None => result.push('u'),
+                    },
                     // For all other characters (especially `"`, `'`, and `\`), we just
                     // push the character.
                     _ => result.push(next),
@@ -206,6 +216,14 @@ pub(crate) fn unescape_string(pair: Pair<Rule>) -> String {
     result
 }
 
+/// Parse the `{...}` part of a `\u{...}` escape at the start of `s`, returning
+/// the character and the rest of `s`.
+fn unicode_escape(s: &str) -> Option<(char, &str)> {
+    let (digits, rest) = s.strip_prefix('{')?.split_once('}')?;
+    let c = char::from_u32(u32::from_str_radix(digits, 16).ok()?)?;
+    Some((c, rest))
+}
+
 // A trait for converting a pest::iterators::Pair<Rule> into a Rust type. This
 // is used to convert from the uniformly structured nesting
 // pest::iterators::Pair<Rule> into more structured types.
-- 
2.43.0


From 2a9f948a2b5f751af75cdc7733d831bbc158b259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:28 +0000
Subject: [PATCH 12/49] fix: accept calls by signature in extension output
 columns

add:i64_i64(..) was taken as the named column add of type i64_i64.
---
 src/parser/expression_grammar.pest | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index eb66f5a..b68a781 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -405,7 +405,8 @@ extension_named_argument  = { name ~ sp ~ "=" ~ sp ~ extension_argument }
 
 // Output columns - can mix named columns, references, and expressions
 extension_columns = { (extension_column ~ (sp ~ "," ~ sp ~ extension_column)*)? }
-extension_column  = { named_column | reference | expression }
+// A function call can start like a named column: `add:i64_i64($0, $1):i64`.
+extension_column  = { named_column ~ !"(" | reference | expression }
 
 // Relation addenda: metadata/detail lines attached to a relation.
 // Format: + Enh:Name[args], + Opt:Name[args], or + Ext:Name[args]
-- 
2.43.0


From 85b01120a5b3cf3de073f2e7dddde36279ef63c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:05 +0000
Subject: [PATCH 13/49] fix: accept the typed limits and offsets the formatter
 writes

---
 src/parser/expression_grammar.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index b68a781..716944a 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -340,7 +340,7 @@ sort_direction  = { "&AscNullsFirst" | "&AscNullsLast" | "&DescNullsFirst" | "&D
 
 // FetchRel: Fetch[limit=..., offset=... => ...] (named arguments only, any order, or _ for empty)
 fetch_arg_name       =  { "limit" | "offset" }
-fetch_value          =  { integer | expression }
+fetch_value          =  { integer ~ !(":" | ".") | expression }
 fetch_named_arg      =  { fetch_arg_name ~ sp ~ "=" ~ sp ~ fetch_value }
 fetch_named_arg_list =  { fetch_named_arg ~ (sp ~ "," ~ sp ~ fetch_named_arg)* }
 fetch_args           = _{ fetch_named_arg_list | empty }
-- 
2.43.0


From 48101a863197056d158ddbeb8d0607d1254286e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:11 +0000
Subject: [PATCH 14/49] fix: accept a cast as a grouping expression

---
 src/parser/expression_grammar.pest | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index 716944a..6ef61b1 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -323,7 +323,8 @@ aggregate_relation = { "Aggregate" ~ "[" ~ aggregate_group_by ~ sp ~ "=>" ~ sp ~
 
 aggregate_group_by = { grouping_set_list | expression_list }
 grouping_set_list  = { grouping_set ~ sp ~ ("," ~ sp ~ grouping_set)* }
-grouping_set       = { ("(" ~ sp ~ expression_list ~ sp ~ ")") | empty }
+// A parenthesized expression followed by `::` is a cast, not a grouping set.
+grouping_set       = { ("(" ~ sp ~ expression_list ~ sp ~ ")" ~ !(sp ~ "::")) | empty }
 expression_list    = { expression ~ sp ~ ("," ~ sp ~ expression)* }
 
 // TODO: Add support for filter invocation, etc.
-- 
2.43.0


From 3eefbb4573b5c859f996945b1960405868470c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:08 +0000
Subject: [PATCH 15/49] fix: reject a repeated named argument instead of
 dropping the first

---
 src/parser/extensions.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parser/extensions.rs b/src/parser/extensions.rs
index 15213b4..064b5e3 100644
--- a/src/parser/extensions.rs
+++ b/src/parser/extensions.rs
@@ -594,7 +594,15 @@ fn extension_args_rule_parsing(
                     let mut arg_iter = arg_pair.into_inner();
                     let name_p = arg_iter.next().unwrap();
                     let value_p = arg_iter.next().unwrap();
+                    let name_span = name_p.as_span();
                     let key = Name::parse_pair(name_p).0.to_string();
+                    if args.named.contains_key(&key) {
+                        return Err(MessageParseError::invalid(
+                            "extension argument",
+                            name_span,
+                            format!("Duplicate argument: {key}"),
+                        ));
+                    }
                     let val = ExtensionValue::parse_pair(extensions, value_p)?;
                     args.insert(key, val);
                 }
-- 
2.43.0


From 452a7b9cabd877c261b0f9f622555e2a501e16c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:37 +0000
Subject: [PATCH 16/49] fix: quote extension and argument names that are not
 identifiers

---
 src/parser/extensions.rs  | 12 ++++--------
 src/textify/addenda.rs    |  8 +++++++-
 src/textify/extensions.rs |  2 +-
 src/textify/rels.rs       |  2 +-
 src/textify/values.rs     |  2 +-
 5 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/parser/extensions.rs b/src/parser/extensions.rs
index 064b5e3..5c24182 100644
--- a/src/parser/extensions.rs
+++ b/src/parser/extensions.rs
@@ -475,18 +475,14 @@ impl ScopedParsePair for ExtensionInvocation {
 
         // Parse extension name to determine relation type and custom name
         let extension_name_pair = iter.next().unwrap(); // Grammar guarantees extension_name exists
-        let full_extension_name = extension_name_pair.as_str();
 
         // Extract the relation type and custom name from the extension name
         // (e.g., "ExtensionLeaf:ParquetScan" -> "ExtensionLeaf" and "ParquetScan")
-        let (relation_type_str, custom_name) = if full_extension_name.contains(':') {
-            let parts: Vec<&str> = full_extension_name.splitn(2, ':').collect();
-            (parts[0], parts[1].to_string())
-        } else {
-            (full_extension_name, "UnknownExtension".to_string())
-        };
+        let mut name_iter = extension_name_pair.into_inner();
+        let relation_type_pair = name_iter.next().unwrap();
+        let custom_name = Name::parse_pair(name_iter.next().unwrap()).0;
 
-        let relation_kind = ExtensionRelationKind::from_str(relation_type_str).unwrap();
+        let relation_kind = ExtensionRelationKind::from_str(relation_type_pair.as_str()).unwrap();
         let mut args = ExtensionArgs::default();
 
         // Parse optional arguments
diff --git a/src/textify/addenda.rs b/src/textify/addenda.rs
index 83b0dfe..be5ab07 100644
--- a/src/textify/addenda.rs
+++ b/src/textify/addenda.rs
@@ -13,6 +13,7 @@ use crate::extensions::any::AnyRef;
 use crate::extensions::registry::ExtensionError;
 use crate::extensions::{AddendumKind, ExtensionArgs};
 use crate::textify::foundation::{PlanError, Scope, Textify};
+use crate::textify::types::Name;
 
 /// All addenda associated with a relation, in canonical text-format order.
 #[derive(Default)]
@@ -160,7 +161,12 @@ impl Textify for AddendumLine {
                         )))
                     )
                 } else {
-                    write!(w, "{indent}+ {prefix}:{name}[{}]", ctx.display(args))
+                    write!(
+                        w,
+                        "{indent}+ {prefix}:{}[{}]",
+                        Name(name),
+                        ctx.display(args)
+                    )
                 }
             }
             AddendumLine::DecodeError { kind, error } => {
diff --git a/src/textify/extensions.rs b/src/textify/extensions.rs
index 7f01c2c..205ba74 100644
--- a/src/textify/extensions.rs
+++ b/src/textify/extensions.rs
@@ -108,7 +108,7 @@ impl Textify for ExtensionArgs {
             if has_args {
                 write!(w, ", ")?;
             }
-            write!(w, "{name}=")?;
+            write!(w, "{}=", Name(name))?;
             value.textify(ctx, w)?;
             has_args = true;
         }
diff --git a/src/textify/rels.rs b/src/textify/rels.rs
index 4020575..374cb50 100644
--- a/src/textify/rels.rs
+++ b/src/textify/rels.rs
@@ -682,7 +682,7 @@ impl<'a> Relation<'a> {
                     .map(Value::ExtColumn)
                     .collect();
                 Relation {
-                    name: Cow::Owned(format!("{}:{}", ext_type, name)),
+                    name: Cow::Owned(format!("{}:{}", ext_type, Name(&name))),
                     arguments: Some(RelationArgs::inline(positional, named)),
                     columns,
                     emit: None,
diff --git a/src/textify/values.rs b/src/textify/values.rs
index 72bc239..1d9820d 100644
--- a/src/textify/values.rs
+++ b/src/textify/values.rs
@@ -306,7 +306,7 @@ impl<'a> Textify for NamedArg<'a> {
         "NamedArg"
     }
     fn textify<S: Scope, W: fmt::Write>(&self, ctx: &S, w: &mut W) -> fmt::Result {
-        write!(w, "{}=", self.name)?;
+        write!(w, "{}=", Name(&self.name))?;
         self.value.textify(ctx, w)
     }
 }
-- 
2.43.0


From 8c8c717b016a7a54f24286521f7f07ee1a5d3502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:09 +0000
Subject: [PATCH 17/49] fix: write an empty struct type as struct<>

---
 src/textify/types.rs | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/textify/types.rs b/src/textify/types.rs
index db0c8f5..d8920b3 100644
--- a/src/textify/types.rs
+++ b/src/textify/types.rs
@@ -507,19 +507,26 @@ impl Textify for ptype::Kind {
                 p.type_variation_reference,
                 Parameters(&[Some(Parameter::Integer(p.precision as i64))]),
             ),
-            ptype::Kind::Struct(s) => textify_type(
-                ctx,
-                w,
-                "struct",
-                s.nullability(),
-                s.type_variation_reference,
-                Parameters(
-                    &s.types
-                        .iter()
-                        .map(|t| Some(Parameter::DataType(t.clone())))
-                        .collect::<Vec<_>>(),
-                ),
-            ),
+            ptype::Kind::Struct(s) => {
+                textify_type(
+                    ctx,
+                    w,
+                    "struct",
+                    s.nullability(),
+                    s.type_variation_reference,
+                    Parameters(
+                        &s.types
+                            .iter()
+                            .map(|t| Some(Parameter::DataType(t.clone())))
+                            .collect::<Vec<_>>(),
+                    ),
+                )?;
+                // A struct always has a parameter list, even an empty one.
+                if s.types.is_empty() {
+                    write!(w, "<>")?;
+                }
+                Ok(())
+            }
             ptype::Kind::List(l) => {
                 let p = l
                     .r#type
-- 
2.43.0


From a90df19533c01d9e284a681041786519bd76e020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:15 +0000
Subject: [PATCH 18/49] fix: report an out-of-range date literal instead of
 panicking

---
 src/textify/expressions.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/textify/expressions.rs b/src/textify/expressions.rs
index 50c2147..0a8f0bc 100644
--- a/src/textify/expressions.rs
+++ b/src/textify/expressions.rs
@@ -130,11 +130,12 @@ pub fn textify_enum<S: Scope, W: fmt::Write>(s: &str, _ctx: &S, w: &mut W) -> fm
     write!(w, "&{}", Name(s))
 }
 
-/// Convert days since Unix epoch to date string
-fn days_to_date_string(days: i32) -> String {
+/// Convert days since Unix epoch to date string, or `None` if the date is
+/// outside chrono's representable range.
+fn days_to_date_string(days: i32) -> Option<String> {
     let epoch = NaiveDate::from_ymd_opt(1970, 1, 1).unwrap();
-    let date = epoch + chrono::Duration::days(days as i64);
-    date.format("%Y-%m-%d").to_string()
+    let date = epoch.checked_add_signed(chrono::Duration::days(days as i64))?;
+    Some(date.format("%Y-%m-%d").to_string())
 }
 
 /// Convert a value in `precision` units, to a `chrono::Duration`.
@@ -335,9 +336,18 @@ fn write_literal_value<S: Scope, W: fmt::Write>(
         LiteralType::Fp64(f) => write!(w, "{}", FloatText(f)),
         LiteralType::String(s) => write!(w, "'{}'", s.escape_debug()),
         LiteralType::Binary(items) => textify_binary(items, ctx, w),
-        LiteralType::Date(days) => {
-            write!(w, "'{}'", escaped(&days_to_date_string(*days)))
-        }
+        LiteralType::Date(days) => match days_to_date_string(*days) {
+            Some(date) => write!(w, "'{}'", escaped(&date)),
+            None => write!(
+                w,
+                "{}",
+                ctx.failure(PlanError::invalid(
+                    "LiteralType",
+                    Some("Date"),
+                    format!("value {days} is out of range for Date"),
+                ))
+            ),
+        },
         #[allow(deprecated)]
         LiteralType::Time(microseconds) => write_precision_literal(
             "Time",
-- 
2.43.0


From 99a1626edffbc94737c170511c2c0f03c6692350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:13 +0000
Subject: [PATCH 19/49] fix: use the real output width of semi, anti, single
 and mark joins when parsing

---
 src/parser/relations.rs  | 20 +++++++++++++++++---
 src/parser/structural.rs |  6 ++----
 src/textify/rels.rs      | 17 ++++++++++++-----
 3 files changed, 31 insertions(+), 12 deletions(-)

diff --git a/src/parser/relations.rs b/src/parser/relations.rs
index 38d9c1c..b99587b 100644
--- a/src/parser/relations.rs
+++ b/src/parser/relations.rs
@@ -25,6 +25,7 @@ use crate::extensions::registry::ExtensionError;
 use crate::extensions::{AddendumKind, ExtensionArgs, ExtensionRegistry, SimpleExtensions};
 use crate::parser::errors::{ParseContext, ParseError};
 use crate::parser::expressions::{FieldIndex, Name};
+use crate::textify::rels::join_output_width;
 
 /// Parsing context for relations that includes extensions, registry, and optional warning collection
 pub struct RelationParsingContext<'a> {
@@ -88,6 +89,12 @@ pub trait RelationParsePair: Sized {
     fn rule() -> Rule;
     fn message() -> &'static str;
 
+    /// The `input_field_count` to parse this relation with, given the output
+    /// field count of each child: the fields the children provide in total.
+    fn input_field_count(_pair: &Pair<Rule>, child_field_counts: &[usize]) -> usize {
+        child_field_counts.iter().sum()
+    }
+
     /// Parse the grammar pair into this relation type and its output field
     /// count.
     ///
@@ -1171,6 +1178,16 @@ impl RelationParsePair for JoinRel {
         "JoinRel"
     }
 
+    /// Some joins (e.g. semi joins) do not output the fields of both inputs.
+    fn input_field_count(pair: &Pair<Rule>, child_field_counts: &[usize]) -> usize {
+        match (child_field_counts, pair.clone().into_inner().next()) {
+            (&[left, right], Some(join_type)) => {
+                join_output_width(join_rel::JoinType::parse_pair(join_type), left, right)
+            }
+            _ => child_field_counts.iter().sum(),
+        }
+    }
+
     fn into_rel(mut self, adv_ext: Option<AdvancedExtension>) -> Rel {
         self.advanced_extension = adv_ext;
         Rel {
@@ -1214,9 +1231,6 @@ impl RelationParsePair for JoinRel {
         let references_pair = iter.pop(Rule::reference_list);
         iter.done();
 
-        // TODO: For semi/anti joins, the direct output width differs from
-        // left+right — `input_field_count` would misclassify the emit as Direct.
-        // Revisit when those join types are supported.
         let (emit, output_count) = parse_emit(references_pair, input_field_count);
         let common = RelCommon {
             emit_kind: Some(emit),
diff --git a/src/parser/structural.rs b/src/parser/structural.rs
index 2d21e6f..095854a 100644
--- a/src/parser/structural.rs
+++ b/src/parser/structural.rs
@@ -554,12 +554,10 @@ impl<'a> RelationParser<'a> {
         assert_eq!(pair.as_rule(), T::rule());
         let line = pair.as_str();
         let advanced_extension = addenda.into_standard_advanced_extension(registry)?;
-        let input_field_count: usize = children.iter().map(|c| c.field_count).sum();
+        let child_field_counts: Vec<usize> = children.iter().map(|c| c.field_count).collect();
+        let input_field_count = T::input_field_count(&pair, &child_field_counts);
         let input_children = into_rels(children);
 
-        // TODO: pass `ParsedChildren` into `parse_pair_with_context`, instead
-        // of this overall 'input_field_count'; for some relations (e.g. a LEFT
-        // SEMI JOIN), the field count sum is not the correct count.
         match T::parse_pair_with_context(extensions, pair, input_children, input_field_count) {
             Ok((parsed, count)) => Ok((parsed.into_rel(advanced_extension), count)),
             Err(e) => Err(ParseError::Plan(
diff --git a/src/textify/rels.rs b/src/textify/rels.rs
index 374cb50..fa238a4 100644
--- a/src/textify/rels.rs
+++ b/src/textify/rels.rs
@@ -957,12 +957,13 @@ impl<'a> Relation<'a> {
     }
 }
 
-fn join_output_columns(
+/// The number of columns a join outputs before any emit.
+pub(crate) fn join_output_width(
     join_type: join_rel::JoinType,
     left_columns: usize,
     right_columns: usize,
-) -> Vec<Value<'static>> {
-    let total_columns = match join_type {
+) -> usize {
+    match join_type {
         // Inner, Left, Right, Outer joins output columns from both sides
         join_rel::JoinType::Inner
         | join_rel::JoinType::Left
@@ -985,10 +986,16 @@ fn join_output_columns(
 
         // Unspecified - fallback to all columns
         join_rel::JoinType::Unspecified => left_columns + right_columns,
-    };
+    }
+}
 
+fn join_output_columns(
+    join_type: join_rel::JoinType,
+    left_columns: usize,
+    right_columns: usize,
+) -> Vec<Value<'static>> {
     // Output is always a contiguous range starting from $0
-    (0..total_columns)
+    (0..join_output_width(join_type, left_columns, right_columns))
         .map(|i| Value::Reference(i as i32))
         .collect()
 }
-- 
2.43.0


From fc6059dd81950dbe388d2705ef11b36f25c68f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:31 +0000
Subject: [PATCH 20/49] fix: report nested field references instead of dropping
 the nested part

---
 src/textify/expressions.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/textify/expressions.rs b/src/textify/expressions.rs
index 0a8f0bc..8ae630d 100644
--- a/src/textify/expressions.rs
+++ b/src/textify/expressions.rs
@@ -633,6 +633,15 @@ impl Textify for FieldReference {
         };
 
         match &ref_type.reference_type {
+            Some(reference_segment::ReferenceType::StructField(s)) if s.child.is_some() => write!(
+                w,
+                "{}",
+                ctx.failure(PlanError::unimplemented(
+                    "ReferenceSegment",
+                    Some("child"),
+                    "ReferenceSegment textification not implemented for nested references",
+                ))
+            ),
             Some(reference_segment::ReferenceType::StructField(s)) => {
                 write!(w, "{}", Reference(s.field))
             }
-- 
2.43.0


From 25e9fc2aa831f5963ba27e308e55cd9cf57e3336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:37 +0000
Subject: [PATCH 21/49] fix: report i8 and i16 literals whose value does not
 fit the type

---
 src/textify/expressions.rs | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/textify/expressions.rs b/src/textify/expressions.rs
index 8ae630d..905f2de 100644
--- a/src/textify/expressions.rs
+++ b/src/textify/expressions.rs
@@ -130,6 +130,24 @@ pub fn textify_enum<S: Scope, W: fmt::Write>(s: &str, _ctx: &S, w: &mut W) -> fm
     write!(w, "&{}", Name(s))
 }
 
+/// Write a failure token for a value its literal type cannot hold.
+fn out_of_range_literal<S: Scope, W: fmt::Write>(
+    variant: &'static str,
+    value: &i32,
+    ctx: &S,
+    w: &mut W,
+) -> fmt::Result {
+    write!(
+        w,
+        "{}",
+        ctx.failure(PlanError::invalid(
+            "LiteralType",
+            Some(variant),
+            format!("value {value} is out of range for {variant}"),
+        ))
+    )
+}
+
 /// Convert days since Unix epoch to date string, or `None` if the date is
 /// outside chrono's representable range.
 fn days_to_date_string(days: i32) -> Option<String> {
@@ -328,6 +346,8 @@ fn write_literal_value<S: Scope, W: fmt::Write>(
 ) -> fmt::Result {
     match lit {
         LiteralType::Boolean(b) => write!(w, "{b}"),
+        LiteralType::I8(i) if i8::try_from(*i).is_err() => out_of_range_literal("I8", i, ctx, w),
+        LiteralType::I16(i) if i16::try_from(*i).is_err() => out_of_range_literal("I16", i, ctx, w),
         LiteralType::I8(i) | LiteralType::I16(i) | LiteralType::I32(i) => write!(w, "{i}"),
         LiteralType::I64(i) => write!(w, "{i}"),
         LiteralType::Fp32(f) if !f.is_finite() => unimplemented_literal("non-finite Fp32", ctx, w),
@@ -338,15 +358,7 @@ fn write_literal_value<S: Scope, W: fmt::Write>(
         LiteralType::Binary(items) => textify_binary(items, ctx, w),
         LiteralType::Date(days) => match days_to_date_string(*days) {
             Some(date) => write!(w, "'{}'", escaped(&date)),
-            None => write!(
-                w,
-                "{}",
-                ctx.failure(PlanError::invalid(
-                    "LiteralType",
-                    Some("Date"),
-                    format!("value {days} is out of range for Date"),
-                ))
-            ),
+            None => out_of_range_literal("Date", days, ctx, w),
         },
         #[allow(deprecated)]
         LiteralType::Time(microseconds) => write_precision_literal(
-- 
2.43.0


From fd75256bdc3d7f9b9e62d6d810fba6e795476eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:53 +0000
Subject: [PATCH 22/49] fix: reject float literals that overflow to infinity

---
 src/parser/common.rs      | 7 ++++++-
 src/parser/expressions.rs | 7 +++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/parser/common.rs b/src/parser/common.rs
index 2c07ff6..7355c27 100644
--- a/src/parser/common.rs
+++ b/src/parser/common.rs
@@ -88,7 +88,8 @@ pub(crate) fn unwrap_single_pair(pair: Pair<Rule>) -> Pair<Rule> {
 }
 
 /// Check that every number in `pairs` fits the type it will be stored as: `i32`
-/// for field references, `u32` for anchors, `i64` for any other integer.
+/// for field references, `u32` for anchors, `i64` for any other integer, `f64`
+/// for floats.
 ///
 /// The grammar accepts digit strings of any length (and a sign), so this runs
 /// before the pairs are converted.
@@ -109,6 +110,10 @@ pub(crate) fn check_number_ranges(pairs: &Pairs<Rule>) -> Result<(), MessagePars
                 let in_range = pair.as_str().parse::<i64>().is_ok();
                 (pair, "integer", in_range)
             }
+            Rule::float => {
+                let in_range = pair.as_str().parse::<f64>().is_ok_and(f64::is_finite);
+                (pair, "float", in_range)
+            }
             _ => continue,
         };
         if !in_range {
diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 90fbd61..1bf0f64 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -158,6 +158,13 @@ fn to_float_literal(value: Pair<Rule>, typ: Option<Type>) -> Result<Literal, Mes
     let kind = typ.and_then(|t| t.kind).unwrap_or(UNSIGNED_FLOAT_KIND);
 
     let (lit, nullability, tvar) = match &kind {
+        Kind::Fp32(_) if !(parsed_value as f32).is_finite() => {
+            return Err(MessageParseError::invalid(
+                "float_literal",
+                value.as_span(),
+                format!("out of range for fp32: {parsed_value}"),
+            ));
+        }
         Kind::Fp32(f) => (
             LiteralType::Fp32(parsed_value as f32),
             f.nullability,
-- 
2.43.0


From 87804f7b65bf7096666ae24b1a34e6a9f7fc6fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:27 +0000
Subject: [PATCH 23/49] fix: report a missing input relation instead of
 omitting it

---
 src/textify/rels.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/textify/rels.rs b/src/textify/rels.rs
index fa238a4..49ca6dc 100644
--- a/src/textify/rels.rs
+++ b/src/textify/rels.rs
@@ -352,14 +352,27 @@ impl Relation<'_> {
     /// Each child is preceded by a newline.
     pub fn write_children<S: Scope, W: fmt::Write>(&self, ctx: &S, w: &mut W) -> fmt::Result {
         let child_scope = ctx.push_indent();
-        for child in self.children.iter().flatten() {
+        for child in &self.children {
             writeln!(w)?;
-            child.textify(&child_scope, w)?;
+            match child {
+                Some(child) => child.textify(&child_scope, w)?,
+                None => write_missing_input(&child_scope, w)?,
+            }
         }
         Ok(())
     }
 }
 
+/// Write the failure token that stands in for a required but absent input.
+fn write_missing_input<S: Scope, W: fmt::Write>(ctx: &S, w: &mut W) -> fmt::Result {
+    let token = ctx.failure(PlanError::invalid(
+        "Rel",
+        Some("input"),
+        "Required input relation is missing",
+    ));
+    write!(w, "{}{token}", ctx.indent())
+}
+
 impl<'a> Relation<'a> {
     pub fn emitted(&self) -> usize {
         match self.emit {
@@ -844,12 +857,11 @@ impl Textify for RelRoot {
             ctx.separated(names.iter(), ", ")
         )?;
         let child_scope = ctx.push_indent();
-        for child in self.input.iter() {
-            writeln!(w)?;
-            child.textify(&child_scope, w)?;
+        writeln!(w)?;
+        match &self.input {
+            Some(child) => child.textify(&child_scope, w),
+            None => write_missing_input(&child_scope, w),
         }
-
-        Ok(())
     }
 }
 
-- 
2.43.0


From a3ca5e8d97408f1d1ac970907e2f2b480918ee98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:33 +0000
Subject: [PATCH 24/49] fix: report a missing aggregate measure instead of
 shifting later columns

---
 src/textify/rels.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/textify/rels.rs b/src/textify/rels.rs
index 49ca6dc..6546009 100644
--- a/src/textify/rels.rs
+++ b/src/textify/rels.rs
@@ -797,9 +797,11 @@ impl<'a> Relation<'a> {
         // Then, add all measures (aggregate functions)
         // These are indexed after the group-by fields
         for m in &rel.measures {
-            if let Some(agg_fn) = m.measure.as_ref() {
-                all_outputs.push(Value::AggregateFunction(agg_fn));
-            }
+            // A missing measure keeps its place: emit indices count it.
+            let measure = m.measure.as_ref().map(Value::AggregateFunction);
+            all_outputs.push(Value::expect(measure, || {
+                PlanError::invalid("Measure", Some("measure"), "Measure function is None")
+            }));
         }
         let emit = get_emit(rel.common.as_ref());
         let (children, _) = Relation::convert_children(vec![rel.input.as_deref()], ctx);
-- 
2.43.0


From 0ac62820ad31246f7d930301eccaf3b6902cb165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:15 +0000
Subject: [PATCH 25/49] fix: reject leap seconds in time and timestamp literals

---
 src/parser/expressions.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 1bf0f64..2a32e6b 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -3,7 +3,7 @@ use std::mem::size_of;
 use std::num::TryFromIntError;
 use std::str::FromStr;
 
-use chrono::{DateTime, NaiveDate, NaiveDateTime, NaiveTime};
+use chrono::{DateTime, NaiveDate, NaiveDateTime, NaiveTime, Timelike};
 use pest::Parser as PestParser;
 use pest::iterators::Pair;
 use substrait::proto::aggregate_rel::Measure;
@@ -506,6 +506,23 @@ fn check_supported_precision(
     }
 }
 
+/// Reject a leap second (`:60`): chrono accepts it, but Substrait values count
+/// seconds without them, so it would turn into a different time.
+fn check_no_leap_second(
+    time: &impl Timelike,
+    literal_kind: &'static str,
+    span: pest::Span,
+) -> Result<(), MessageParseError> {
+    if time.nanosecond() < 1_000_000_000 {
+        return Ok(());
+    }
+    Err(MessageParseError::invalid(
+        "precision_literal_leap_second",
+        span,
+        format!("leap seconds are not supported for {literal_kind} literals"),
+    ))
+}
+
 /// Parse a timestamp string using chrono to a value in the given precision's units since the Unix epoch.
 fn parse_timestamp_to_precision_units(
     timestamp_str: &str,
@@ -529,6 +546,7 @@ fn parse_timestamp_to_precision_units(
 
     for format in &formats {
         if let Ok(datetime) = NaiveDateTime::parse_from_str(timestamp_str, format) {
+            check_no_leap_second(&datetime, literal_kind, span)?;
             let epoch = DateTime::from_timestamp(0, 0).unwrap().naive_utc();
             let duration = datetime.signed_duration_since(epoch);
             return duration_to_precision_units(duration, precision, literal_kind, span);
@@ -558,6 +576,7 @@ fn parse_time_to_precision_units(
 
     for format in &formats {
         if let Ok(time) = NaiveTime::parse_from_str(time_str, format) {
+            check_no_leap_second(&time, literal_kind, span)?;
             let midnight = NaiveTime::from_hms_opt(0, 0, 0).unwrap();
             let duration = time.signed_duration_since(midnight);
             return duration_to_precision_units(duration, precision, literal_kind, span);
-- 
2.43.0


From 918a8c6b8d06afe3fd61bf87ac3ced24779da710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:41 +0000
Subject: [PATCH 26/49] fix: reject time fractions finer than a nanosecond
 instead of truncating

---
 src/parser/expressions.rs | 43 ++++++++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 2a32e6b..c05886c 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -432,16 +432,7 @@ fn duration_to_precision_units(
             ),
         )
     };
-    let fractional_truncated = || {
-        MessageParseError::invalid(
-            "precision_literal_fractional_truncated",
-            span,
-            format!(
-                "value has a fractional component finer than precision {} can represent for a {literal_kind} literal",
-                precision.units()
-            ),
-        )
-    };
+    let fractional_truncated = || fractional_truncated(precision, literal_kind, span);
 
     match precision {
         SupportedPrecision::Seconds => {
@@ -506,6 +497,36 @@ fn check_supported_precision(
     }
 }
 
+fn fractional_truncated(
+    precision: SupportedPrecision,
+    literal_kind: &'static str,
+    span: pest::Span,
+) -> MessageParseError {
+    MessageParseError::invalid(
+        "precision_literal_fractional_truncated",
+        span,
+        format!(
+            "value has a fractional component finer than precision {} can represent for a {literal_kind} literal",
+            precision.units()
+        ),
+    )
+}
+
+/// Reject digits beyond the ninth in the fraction of `text`: chrono skips them.
+fn check_fraction_digits(
+    text: &str,
+    precision: SupportedPrecision,
+    literal_kind: &'static str,
+    span: pest::Span,
+) -> Result<(), MessageParseError> {
+    match text.split_once('.') {
+        Some((_, fraction)) if fraction.chars().skip(9).any(|c| ('1'..='9').contains(&c)) => {
+            Err(fractional_truncated(precision, literal_kind, span))
+        }
+        _ => Ok(()),
+    }
+}
+
 /// Reject a leap second (`:60`): chrono accepts it, but Substrait values count
 /// seconds without them, so it would turn into a different time.
 fn check_no_leap_second(
@@ -547,6 +568,7 @@ fn parse_timestamp_to_precision_units(
     for format in &formats {
         if let Ok(datetime) = NaiveDateTime::parse_from_str(timestamp_str, format) {
             check_no_leap_second(&datetime, literal_kind, span)?;
+            check_fraction_digits(timestamp_str, precision, literal_kind, span)?;
             let epoch = DateTime::from_timestamp(0, 0).unwrap().naive_utc();
             let duration = datetime.signed_duration_since(epoch);
             return duration_to_precision_units(duration, precision, literal_kind, span);
@@ -577,6 +599,7 @@ fn parse_time_to_precision_units(
     for format in &formats {
         if let Ok(time) = NaiveTime::parse_from_str(time_str, format) {
             check_no_leap_second(&time, literal_kind, span)?;
+            check_fraction_digits(time_str, precision, literal_kind, span)?;
             let midnight = NaiveTime::from_hms_opt(0, 0, 0).unwrap();
             let duration = time.signed_duration_since(midnight);
             return duration_to_precision_units(duration, precision, literal_kind, span);
-- 
2.43.0


From 2f3c7e47abbec546527446b2b25e5c96eae004c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:48 +0000
Subject: [PATCH 27/49] fix: tell typed literals from named columns in
 extension output columns

---
 src/parser/expression_grammar.pest | 5 +++--
 src/textify/extensions.rs          | 6 ++++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index 6ef61b1..02aacff 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -406,8 +406,9 @@ extension_named_argument  = { name ~ sp ~ "=" ~ sp ~ extension_argument }
 
 // Output columns - can mix named columns, references, and expressions
 extension_columns = { (extension_column ~ (sp ~ "," ~ sp ~ extension_column)*)? }
-// A function call can start like a named column: `add:i64_i64($0, $1):i64`.
-extension_column  = { named_column ~ !"(" | reference | expression }
+// A function call can start like a named column: `add:i64_i64($0, $1):i64`. So can
+// a typed literal, `null:i64`, so a column with such a name is written quoted.
+extension_column  = { !((boolean | null) ~ ":") ~ named_column ~ !"(" | reference | expression }
 
 // Relation addenda: metadata/detail lines attached to a relation.
 // Format: + Enh:Name[args], + Opt:Name[args], or + Ext:Name[args]
diff --git a/src/textify/extensions.rs b/src/textify/extensions.rs
index 205ba74..540714e 100644
--- a/src/textify/extensions.rs
+++ b/src/textify/extensions.rs
@@ -78,6 +78,12 @@ impl Textify for ExtensionColumn {
 
     fn textify<S: Scope, W: fmt::Write>(&self, ctx: &S, w: &mut W) -> fmt::Result {
         match self {
+            // Quoted, because unquoted these would start a typed literal.
+            ExtensionColumn::Named { name, r#type: ty }
+                if matches!(name.as_str(), "true" | "false" | "null") =>
+            {
+                write!(w, "\"{name}\":{}", ctx.display(ty))
+            }
             ExtensionColumn::Named { name, r#type: ty } => {
                 write!(w, "{}:{}", Name(name), ctx.display(ty))
             }
-- 
2.43.0


From 21a4e1b6ee47cf9719b13052dae2f2aea2f928b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:51 +0000
Subject: [PATCH 28/49] fix: quote extension argument names that read as
 literals

---
 src/textify/extensions.rs | 12 +++---------
 src/textify/types.rs      | 14 ++++++++++++++
 src/textify/values.rs     |  4 ++--
 3 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/textify/extensions.rs b/src/textify/extensions.rs
index 540714e..cc4a4c0 100644
--- a/src/textify/extensions.rs
+++ b/src/textify/extensions.rs
@@ -10,7 +10,7 @@ use std::fmt;
 use crate::extensions::{Expr, ExtensionArgs, ExtensionColumn, ExtensionValue, TupleValue};
 use crate::textify::expressions::FloatText;
 use crate::textify::foundation::{Scope, Textify};
-use crate::textify::types::{Name, escaped};
+use crate::textify::types::{NonLiteralName, escaped};
 use crate::{FormatError, PlanError};
 
 impl Textify for TupleValue {
@@ -78,14 +78,8 @@ impl Textify for ExtensionColumn {
 
     fn textify<S: Scope, W: fmt::Write>(&self, ctx: &S, w: &mut W) -> fmt::Result {
         match self {
-            // Quoted, because unquoted these would start a typed literal.
-            ExtensionColumn::Named { name, r#type: ty }
-                if matches!(name.as_str(), "true" | "false" | "null") =>
-            {
-                write!(w, "\"{name}\":{}", ctx.display(ty))
-            }
             ExtensionColumn::Named { name, r#type: ty } => {
-                write!(w, "{}:{}", Name(name), ctx.display(ty))
+                write!(w, "{}:{}", NonLiteralName(name), ctx.display(ty))
             }
             ExtensionColumn::Expr(expr) => expr.textify(ctx, w),
         }
@@ -114,7 +108,7 @@ impl Textify for ExtensionArgs {
             if has_args {
                 write!(w, ", ")?;
             }
-            write!(w, "{}=", Name(name))?;
+            write!(w, "{}=", NonLiteralName(name))?;
             value.textify(ctx, w)?;
             has_args = true;
         }
diff --git a/src/textify/types.rs b/src/textify/types.rs
index d8920b3..319d536 100644
--- a/src/textify/types.rs
+++ b/src/textify/types.rs
@@ -91,6 +91,20 @@ impl<'a> Textify for Name<'a> {
     }
 }
 
+/// A name where the grammar would also accept a literal: like [`Name`], but the
+/// identifiers that are literals (`true`, `false`, `null`) are quoted.
+#[derive(Debug, Copy, Clone)]
+pub struct NonLiteralName<'a>(pub &'a str);
+
+impl<'a> fmt::Display for NonLiteralName<'a> {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        match self.0 {
+            "true" | "false" | "null" => write!(f, "\"{}\"", self.0),
+            name => write!(f, "{}", Name(name)),
+        }
+    }
+}
+
 #[derive(Debug, Copy, Clone)]
 pub struct Anchor {
     reference: u32,
diff --git a/src/textify/values.rs b/src/textify/values.rs
index 1d9820d..07d86e9 100644
--- a/src/textify/values.rs
+++ b/src/textify/values.rs
@@ -12,7 +12,7 @@ use substrait::proto::{
     AggregateFunction, AggregationPhase, Expression, SortField, Type, join_rel, set_rel,
 };
 
-use super::types::Name;
+use super::types::{Name, NonLiteralName};
 use super::{PlanError, Scope, Textify};
 use crate::extensions::{ExtensionColumn, ExtensionValue};
 
@@ -306,7 +306,7 @@ impl<'a> Textify for NamedArg<'a> {
         "NamedArg"
     }
     fn textify<S: Scope, W: fmt::Write>(&self, ctx: &S, w: &mut W) -> fmt::Result {
-        write!(w, "{}=", Name(&self.name))?;
+        write!(w, "{}=", NonLiteralName(&self.name))?;
         self.value.textify(ctx, w)
     }
 }
-- 
2.43.0


From cfe778c9542c357724d8200585c7e8e300d97835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:41 +0000
Subject: [PATCH 29/49] fix: reject a reference whose URN anchor is not its
 declaration's

---
 src/parser/expressions.rs | 28 +++++++++++++++++++++-------
 src/parser/types.rs       | 25 +++++++++++++++++++++++--
 2 files changed, 44 insertions(+), 9 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index c05886c..23ae132 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -22,7 +22,7 @@ use substrait::proto::function_argument::ArgType;
 use substrait::proto::r#type::{Fp64, I64, Kind, Nullability};
 use substrait::proto::{AggregateFunction, Expression, FunctionArgument, Type};
 
-use super::types::get_and_validate_anchor;
+use super::types::{get_and_validate_anchor, validate_urn_anchor};
 use super::{
     ExpressionParser, MessageParseError, ParsePair, Rule, RuleIter, ScopedParsePair,
     unescape_string, unwrap_single_pair,
@@ -791,10 +791,12 @@ impl ScopedParsePair for Literal {
     }
 }
 
-/// An unresolved reference to a function: its compound name plus an optional explicit anchor.
+/// An unresolved reference to a function: its compound name plus an optional explicit anchor and URN
+/// anchor.
 struct FunctionReference {
     name: CompoundName,
     anchor: Option<u32>,
+    urn_anchor: Option<u32>,
 }
 
 impl ParsePair for FunctionReference {
@@ -818,13 +820,17 @@ impl ParsePair for FunctionReference {
             .try_pop(Rule::anchor)
             .map(|n| unwrap_single_pair(n).as_str().parse::<u32>().unwrap());
 
-        // Optional URN anchor (e.g., @1); currently unused.
-        let _urn_anchor = iter
+        // Optional URN anchor (e.g., @1)
+        let urn_anchor = iter
             .try_pop(Rule::urn_anchor)
             .map(|n| unwrap_single_pair(n).as_str().parse::<u32>().unwrap());
 
         iter.done();
-        FunctionReference { name, anchor }
+        FunctionReference {
+            name,
+            anchor,
+            urn_anchor,
+        }
     }
 }
 
@@ -836,13 +842,21 @@ impl FunctionReference {
         extensions: &SimpleExtensions,
         span: pest::Span,
     ) -> Result<u32, MessageParseError> {
-        get_and_validate_anchor(
+        let anchor = get_and_validate_anchor(
             extensions,
             ExtensionKind::Function,
             self.anchor,
             self.name.full(),
             span,
-        )
+        )?;
+        validate_urn_anchor(
+            extensions,
+            ExtensionKind::Function,
+            anchor,
+            self.urn_anchor,
+            span,
+        )?;
+        Ok(anchor)
     }
 }
 
diff --git a/src/parser/types.rs b/src/parser/types.rs
index 39ef1e8..a43293c 100644
--- a/src/parser/types.rs
+++ b/src/parser/types.rs
@@ -57,6 +57,27 @@ pub(crate) fn get_and_validate_anchor(
     }
 }
 
+/// A URN anchor written on a reference must be the one its declaration names.
+pub(crate) fn validate_urn_anchor(
+    extensions: &SimpleExtensions,
+    kind: ExtensionKind,
+    anchor: u32,
+    urn_anchor: Option<u32>,
+    span: pest::Span,
+) -> Result<(), MessageParseError> {
+    let Some(written) = urn_anchor else {
+        return Ok(());
+    };
+    match extensions.find_by_anchor(kind, anchor) {
+        Ok((declared, _)) if declared != written => Err(MessageParseError::invalid(
+            kind.name(),
+            span,
+            format!("#{anchor} is declared with URN anchor @{declared}, not @{written}"),
+        )),
+        _ => Ok(()),
+    }
+}
+
 impl ParsePair for Nullability {
     fn rule() -> Rule {
         Rule::nullability
@@ -380,8 +401,7 @@ fn parse_user_defined_type(
         .try_pop(Rule::anchor)
         .map(|n| unwrap_single_pair(n).as_str().parse::<u32>().unwrap());
 
-    // TODO: Handle urn_anchor; validate that it matches the anchor
-    let _urn_anchor = iter
+    let urn_anchor = iter
         .try_pop(Rule::urn_anchor)
         .map(|n| unwrap_single_pair(n).as_str().parse::<u32>().unwrap());
 
@@ -393,6 +413,7 @@ fn parse_user_defined_type(
     iter.done();
 
     let anchor = get_and_validate_anchor(extensions, ExtensionKind::Type, anchor, &name, span)?;
+    validate_urn_anchor(extensions, ExtensionKind::Type, anchor, urn_anchor, span)?;
 
     Ok(Type {
         kind: Some(Kind::UserDefined(proto::r#type::UserDefined {
-- 
2.43.0


From d6d362325acc13c6f0e32124666df2a2e8ecda4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:33 +0000
Subject: [PATCH 30/49] fix: accept spaces before the arguments of calls in
 extension output columns

---
 src/parser/expression_grammar.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index 02aacff..0ffc9e4 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -408,7 +408,7 @@ extension_named_argument  = { name ~ sp ~ "=" ~ sp ~ extension_argument }
 extension_columns = { (extension_column ~ (sp ~ "," ~ sp ~ extension_column)*)? }
 // A function call can start like a named column: `add:i64_i64($0, $1):i64`. So can
 // a typed literal, `null:i64`, so a column with such a name is written quoted.
-extension_column  = { !((boolean | null) ~ ":") ~ named_column ~ !"(" | reference | expression }
+extension_column  = { !((boolean | null) ~ ":") ~ named_column ~ !(sp ~ (anchor ~ sp)? ~ (urn_anchor ~ sp)? ~ "(") | reference | expression }
 
 // Relation addenda: metadata/detail lines attached to a relation.
 // Format: + Enh:Name[args], + Opt:Name[args], or + Ext:Name[args]
-- 
2.43.0


From bda93b7641cee5884246e26f490c0985bcd8e36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:44 +0000
Subject: [PATCH 31/49] fix: write user-defined types named like a built-in
 type with the u! prefix

---
 src/textify/types.rs | 39 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/src/textify/types.rs b/src/textify/types.rs
index 319d536..52b09e9 100644
--- a/src/textify/types.rs
+++ b/src/textify/types.rs
@@ -375,6 +375,38 @@ impl<'a> Textify for Parameters<'a> {
     }
 }
 
+/// True if `name` would be read as a built-in type: simple type names are
+/// case-sensitive, compound type names are not.
+fn is_builtin_type_name(name: &str) -> bool {
+    const SIMPLE: [&str; 15] = [
+        "boolean",
+        "i8",
+        "i16",
+        "i32",
+        "i64",
+        "fp32",
+        "fp64",
+        "string",
+        "binary",
+        "timestamp_tz",
+        "timestamp",
+        "date",
+        "time",
+        "interval_year",
+        "uuid",
+    ];
+    const COMPOUND: [&str; 7] = [
+        "list",
+        "map",
+        "struct",
+        "precisiontimestamptz",
+        "precisiontimestamp",
+        "precisiontime",
+        "interval_day",
+    ];
+    SIMPLE.contains(&name) || COMPOUND.iter().any(|c| c.eq_ignore_ascii_case(name))
+}
+
 impl Textify for ptype::UserDefined {
     fn name() -> &'static str {
         "UserDefined"
@@ -391,10 +423,15 @@ impl Textify for ptype::UserDefined {
                 .map(|t| t.parameter.clone())
                 .collect();
             let params = Parameters(&param_vec);
+            // The explicit prefix tells the type from the built-in one.
+            let prefix = match &name_and_anchor.name {
+                MaybeToken(Ok(n)) if is_builtin_type_name(n.full()) => "u!",
+                _ => "",
+            };
 
             write!(
                 w,
-                "{name_and_anchor}{null}{var}{params}",
+                "{prefix}{name_and_anchor}{null}{var}{params}",
                 name_and_anchor = ctx.display(&name_and_anchor),
                 null = ctx.display(&self.nullability()),
                 var = ctx.display(&TypeVariation(self.type_variation_reference)),
-- 
2.43.0


From 173c1f2592ba85f5539e559d73ef760033e3108f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:17 +0000
Subject: [PATCH 32/49] fix: read a call of a function named true, false or
 null in extension arguments

---
 src/parser/expression_grammar.pest | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index 0ffc9e4..18cc1a7 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -383,8 +383,9 @@ extension_arguments = { extension_argument ~ (sp ~ "," ~ sp ~ extension_argument
 // Parameter literals are direct scalar values without type ascriptions.
 // Ascribed literals (for example, 2:i16 or '2024-01-01':date) fall through to
 // expression parsing so their Substrait type information is preserved. Bare
-// null is a parameter value; ascribed null falls through to expression parsing.
-parameter_literal = { (float | integer | boolean | string_literal | null) ~ !(":") }
+// null is a parameter value; ascribed null falls through to expression parsing,
+// and so does a call of a function with such a name, `null($0)`.
+parameter_literal = { (float | integer | boolean | string_literal | null) ~ !(":" | sp ~ (anchor ~ sp)? ~ (urn_anchor ~ sp)? ~ "(") }
 
 // Tuples follow the Python/Rust trailing-comma convention to disambiguate from parenthesised
 // expressions.
-- 
2.43.0


From 7376014785246e3bfd2643c542f843ec5fb656d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:49 +0000
Subject: [PATCH 33/49] fix: name the right line when a continuation follows a
 blank line

---
 src/parser/structural.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/structural.rs b/src/parser/structural.rs
index 095854a..fd19f95 100644
--- a/src/parser/structural.rs
+++ b/src/parser/structural.rs
@@ -1006,7 +1006,8 @@ impl<'a> Parser<'a> {
             .expect("a non-exhausted cursor always yields a line");
         c.merge(first);
 
-        if matches!(self.state, State::Plan) {
+        // A blank line is a chunk of its own: it has nothing to continue.
+        if matches!(self.state, State::Plan) && !first.as_str().trim().is_empty() {
             let base = IndentedLine::from(first.as_str()).0;
             while let Some(line) = c.peek_line() {
                 let IndentedLine(depth, body) = IndentedLine::from(line.as_str());
-- 
2.43.0


From 09b5ea92e425bab96c278932d62e437d0f372e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:48 +0000
Subject: [PATCH 34/49] fix: accept a tab at the end of a line that is
 continued

---
 src/parser/expression_grammar.pest | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index 18cc1a7..1c62d77 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -279,8 +279,9 @@ extension_read_relation = { "Read:Extension" ~ "[" ~ named_column_list ~ "]" }
 // indented and prefixed by a `- ` marker at defined points in the relation grammar.
 //
 // TODO: reuse these for other bracketed relations (Project, Aggregate, ...).
-// A continuation line transition: newline, followed by spaces and "- "
-relation_line_cont = _{ sp ~ NEWLINE ~ sp ~ "- " ~ sp }
+// A continuation line transition: newline, followed by spaces and "- ".
+// Trailing whitespace does not matter, just as at the end of any other line.
+relation_line_cont = _{ (whitespace | "\t")* ~ NEWLINE ~ sp ~ "- " ~ sp }
 // Continuation allowed after relation opening ("["), between arguments (after ","),
 // or before the columns (before "=>")
 relation_open      = _{ "[" ~ relation_line_cont? }
-- 
2.43.0


From f4e4ed1902d39330e03c4c285c9f02c7f6587ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:42 +0000
Subject: [PATCH 35/49] fix: reject JSON input with anything after the plan

---
 src/json.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/json.rs b/src/json.rs
index f32c8d9..1642611 100644
--- a/src/json.rs
+++ b/src/json.rs
@@ -89,9 +89,13 @@ pub fn parse_json(json: &str, pool: &DescriptorPool) -> anyhow::Result<Plan> {
         .get_message_by_name("substrait.Plan")
         .context("substrait.Plan not found in descriptor pool")?;
 
-    let dyn_msg =
-        DynamicMessage::deserialize(plan_desc, &mut serde_json::Deserializer::from_str(json))
-            .context("failed to parse JSON as substrait.Plan")?;
+    let mut deserializer = serde_json::Deserializer::from_str(json);
+    let dyn_msg = DynamicMessage::deserialize(plan_desc, &mut deserializer)
+        .context("failed to parse JSON as substrait.Plan")?;
+    // The deserializer stops at the end of the first value; nothing may follow it.
+    deserializer
+        .end()
+        .context("failed to parse JSON as substrait.Plan")?;
 
     Plan::decode(dyn_msg.encode_to_vec().as_slice())
         .context("failed to decode Plan from dynamic message bytes")
-- 
2.43.0


From 487c26024535f8bcd98657b02bd43f281a37f9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:14 +0000
Subject: [PATCH 36/49] fix: write deprecated grouping expressions when the
 first grouping set is empty

---
 src/textify/rels.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/textify/rels.rs b/src/textify/rels.rs
index 6546009..8f59311 100644
--- a/src/textify/rels.rs
+++ b/src/textify/rels.rs
@@ -741,8 +741,10 @@ impl<'a> Relation<'a> {
         // set, then we silently ignore the deprecated one.
         #[allow(deprecated)]
         if rel.grouping_expressions.is_empty()
-            && !rel.groupings.is_empty()
-            && !rel.groupings[0].grouping_expressions.is_empty()
+            && rel
+                .groupings
+                .iter()
+                .any(|group| !group.grouping_expressions.is_empty())
         {
             (expression_list, grouping_sets) = Relation::get_grouping_sets(rel);
         } else {
-- 
2.43.0


From 403c4f8e94c270aa46cf4f4d639d692efb7ae36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:19 +0000
Subject: [PATCH 37/49] fix: report type parameters that have no text form

---
 src/textify/types.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/textify/types.rs b/src/textify/types.rs
index 52b09e9..c5da99c 100644
--- a/src/textify/types.rs
+++ b/src/textify/types.rs
@@ -326,14 +326,22 @@ impl Textify for Parameter {
 
     fn textify<S: Scope, W: fmt::Write>(&self, ctx: &S, w: &mut W) -> fmt::Result {
         match self {
-            Parameter::Boolean(true) => write!(w, "true")?,
-            Parameter::Boolean(false) => write!(w, "false")?,
             Parameter::DataType(t) => write!(w, "{}", ctx.display(t))?,
-            Parameter::Enum(e) => write!(w, "{e}")?,
             Parameter::Integer(i) => write!(w, "{i}")?,
-            // TODO: Do we just put the string in directly?
-            Parameter::String(s) => write!(w, "{s}")?,
-            Parameter::Null(_) => write!(w, "null")?,
+            // The grammar has types and integers for parameters; nothing else
+            // could be read back.
+            Parameter::Boolean(_)
+            | Parameter::Enum(_)
+            | Parameter::String(_)
+            | Parameter::Null(_) => write!(
+                w,
+                "{}",
+                ctx.failure(PlanError::unimplemented(
+                    "Parameter",
+                    Some(format!("{self:?}")),
+                    "only types and integers have a text form as type parameters",
+                ))
+            )?,
         };
 
         Ok(())
-- 
2.43.0


From 8b597dc15ebc9398c060a1026894d6a22de3cf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:11 +0000
Subject: [PATCH 38/49] fix: report extension URNs and names that cannot be
 read back

---
 src/extensions/simple.rs | 12 ++++++++++++
 src/parser/extensions.rs | 16 ++++++++++++++++
 src/parser/mod.rs        |  1 +
 src/textify/plan.rs      | 25 ++++++++++++++++++++++++-
 4 files changed, 53 insertions(+), 1 deletion(-)

diff --git a/src/extensions/simple.rs b/src/extensions/simple.rs
index ba9bb2e..bedf588 100644
--- a/src/extensions/simple.rs
+++ b/src/extensions/simple.rs
@@ -280,6 +280,18 @@ impl SimpleExtensions {
         }
     }
 
+    /// The URNs, by anchor.
+    pub(crate) fn urns(&self) -> impl Iterator<Item = (u32, &str)> {
+        self.urns.iter().map(|(anchor, urn)| (*anchor, urn.as_str()))
+    }
+
+    /// The declarations, by anchor and kind.
+    pub(crate) fn declarations(&self) -> impl Iterator<Item = (u32, ExtensionKind, &CompoundName)> {
+        self.extensions
+            .iter()
+            .map(|((anchor, kind), (_, name))| (*anchor, *kind, name))
+    }
+
     pub fn is_empty(&self) -> bool {
         self.urns.is_empty() && self.extensions.is_empty()
     }
diff --git a/src/parser/extensions.rs b/src/parser/extensions.rs
index 5c24182..fe25473 100644
--- a/src/parser/extensions.rs
+++ b/src/parser/extensions.rs
@@ -214,6 +214,22 @@ impl FromStr for URNExtensionDeclaration {
     }
 }
 
+/// Whether a URN can be read back from the declaration line it is written to.
+pub(crate) fn is_writable_urn(urn: &str) -> bool {
+    let line = format!("@0: {urn}");
+    !urn.contains('\n')
+        && line.trim_end() == line
+        && URNExtensionDeclaration::from_str(&line).is_ok_and(|decl| decl.urn == urn)
+}
+
+/// Whether the name of an extension, stored without any `u!` prefix, can be
+/// read back from the declaration line it is written to.
+pub(crate) fn is_writable_extension_name(kind: ExtensionKind, name: &str) -> bool {
+    !name.starts_with("u!")
+        && SimpleExtensionDeclaration::parse_from_kind(&format!("#0 @0: {name}"), kind)
+            .is_ok_and(|decl| decl.name == name)
+}
+
 impl SimpleExtensionDeclaration {
     fn parse_from_kind(s: &str, kind: ExtensionKind) -> Result<Self, MessageParseError> {
         let mut pairs = <ExpressionParser as pest::Parser<Rule>>::parse(Rule::simple_extension, s)
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index e1c144d..c40fb23 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -15,6 +15,7 @@ pub(crate) use common::{
 };
 pub use errors::{ParseContext, ParseError, ParseResult};
 pub use extensions::{ExpectedExtensionLine, ExtensionParseError};
+pub(crate) use extensions::{is_writable_extension_name, is_writable_urn};
 pub(crate) use relations::RelationParsePair;
 pub use structural::Parser;
 pub(crate) use structural::{PLAN_HEADER, VERSION_HEADER};
diff --git a/src/textify/plan.rs b/src/textify/plan.rs
index 36d66f0..e676004 100644
--- a/src/textify/plan.rs
+++ b/src/textify/plan.rs
@@ -4,9 +4,12 @@ use substrait::proto;
 
 use super::Textify;
 use crate::extensions::{ExtensionRegistry, SimpleExtensions};
-use crate::parser::{PLAN_HEADER, VERSION_HEADER};
+use crate::parser::{
+    PLAN_HEADER, VERSION_HEADER, is_writable_extension_name, is_writable_urn,
+};
 use crate::textify::foundation::ErrorAccumulator;
 use crate::textify::{OutputOptions, ScopedContext};
+use crate::{FormatError, PlanError};
 
 #[derive(Debug, Clone)]
 pub(crate) struct PlanWriter<'a, E: ErrorAccumulator + Default> {
@@ -31,6 +34,26 @@ impl<'a, E: ErrorAccumulator + Default + Clone> PlanWriter<'a, E> {
         for err in errs {
             errors.push(err.into());
         }
+        // URNs and names are written as they are; report those that cannot be
+        // read back.
+        for (anchor, urn) in extensions.urns() {
+            if !is_writable_urn(urn) {
+                errors.push(FormatError::Format(PlanError::unimplemented(
+                    "extension_urn",
+                    Some(format!("@{anchor}")),
+                    format!("URN {urn:?} has no text form"),
+                )));
+            }
+        }
+        for (anchor, kind, name) in extensions.declarations() {
+            if !is_writable_extension_name(kind, name.full()) {
+                errors.push(FormatError::Format(PlanError::unimplemented(
+                    "extension",
+                    Some(format!("#{anchor}")),
+                    format!("{kind} name {:?} has no text form", name.full()),
+                )));
+            }
+        }
 
         let relations = plan.relations.as_slice();
 
-- 
2.43.0


From 83c7e79c24b5334bd6b793198be3449f0b201956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:42 +0000
Subject: [PATCH 39/49] fix: report version fields that cannot be read back

---
 src/textify/plan.rs | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/src/textify/plan.rs b/src/textify/plan.rs
index e676004..bbd6bd4 100644
--- a/src/textify/plan.rs
+++ b/src/textify/plan.rs
@@ -7,7 +7,7 @@ use crate::extensions::{ExtensionRegistry, SimpleExtensions};
 use crate::parser::{
     PLAN_HEADER, VERSION_HEADER, is_writable_extension_name, is_writable_urn,
 };
-use crate::textify::foundation::ErrorAccumulator;
+use crate::textify::foundation::{ErrorAccumulator, Scope};
 use crate::textify::{OutputOptions, ScopedContext};
 use crate::{FormatError, PlanError};
 
@@ -94,21 +94,26 @@ impl<'a, E: ErrorAccumulator + Default + Clone> PlanWriter<'a, E> {
             "{VERSION_HEADER} {}.{}.{}",
             version.major_number, version.minor_number, version.patch_number
         )?;
-        if !version.producer.is_empty() {
-            writeln!(
-                w,
-                "{}producer: {}",
-                self.options.indent,
-                version.producer.trim()
-            )?;
-        }
-        if !version.git_hash.is_empty() {
-            writeln!(
-                w,
-                "{}git_hash: {}",
-                self.options.indent,
-                version.git_hash.trim()
-            )?;
+        let scope = self.scope();
+        for (field, value) in [
+            ("producer", &version.producer),
+            ("git_hash", &version.git_hash),
+        ] {
+            if value.is_empty() {
+                continue;
+            }
+            write!(w, "{}{field}: ", self.options.indent)?;
+            // The value is the rest of the line, without surrounding whitespace.
+            if value.contains('\n') || value.trim() != value {
+                let error = PlanError::unimplemented(
+                    "version",
+                    Some(field),
+                    format!("{value:?} has no text form"),
+                );
+                writeln!(w, "{}", scope.failure(error))?;
+            } else {
+                writeln!(w, "{value}")?;
+            }
         }
         Ok(())
     }
-- 
2.43.0


From edf5c35947862371fec8edd5740cd61efe9f17ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:10 +0000
Subject: [PATCH 40/49] fix: report extension enum values that cannot be read
 back

---
 src/textify/extensions.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/textify/extensions.rs b/src/textify/extensions.rs
index cc4a4c0..eb82f81 100644
--- a/src/textify/extensions.rs
+++ b/src/textify/extensions.rs
@@ -10,7 +10,7 @@ use std::fmt;
 use crate::extensions::{Expr, ExtensionArgs, ExtensionColumn, ExtensionValue, TupleValue};
 use crate::textify::expressions::FloatText;
 use crate::textify::foundation::{Scope, Textify};
-use crate::textify::types::{NonLiteralName, escaped};
+use crate::textify::types::{NonLiteralName, escaped, is_identifer};
 use crate::{FormatError, PlanError};
 
 impl Textify for TupleValue {
@@ -55,6 +55,15 @@ impl Textify for ExtensionValue {
                 write!(w, "{}", ctx.failure(FormatError::Extension(error.clone())))
             }
             ExtensionValue::Expr(expr) => expr.textify(ctx, w),
+            ExtensionValue::Enum(e) if !is_identifer(e) => write!(
+                w,
+                "{}",
+                ctx.failure(PlanError::unimplemented(
+                    "ExtensionValue",
+                    Some("Enum"),
+                    format!("{e:?} is not an identifier"),
+                ))
+            ),
             ExtensionValue::Enum(e) => write!(w, "&{e}"),
             ExtensionValue::Tuple(tv) => tv.textify(ctx, w),
         }
-- 
2.43.0


From 6864c5ad9b991efc347b19a83f693c708901f86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:06 +0000
Subject: [PATCH 41/49] fix: write the type variation of a literal

---
 src/textify/expressions.rs | 16 ++++++++++++----
 src/textify/types.rs       |  2 +-
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/textify/expressions.rs b/src/textify/expressions.rs
index 905f2de..3a3ad26 100644
--- a/src/textify/expressions.rs
+++ b/src/textify/expressions.rs
@@ -16,7 +16,7 @@ use substrait::proto::{
 use super::{PlanError, Scope, Textify, Visibility};
 use crate::extensions::simple::ExtensionKind;
 use crate::precision::SupportedPrecision;
-use crate::textify::types::{Name, NamedAnchor, OutputType, escaped};
+use crate::textify::types::{Name, NamedAnchor, OutputType, TypeVariation, escaped};
 
 // …(…) for function call
 // […] for variant
@@ -426,9 +426,11 @@ fn write_literal_value<S: Scope, W: fmt::Write>(
 /// before the parameter list (`interval_day?<6>`, not `interval_day<6>?`).
 /// Returns `None` for unimplemented types whose [`write_literal_value`] already
 /// emitted an error token.
-fn write_literal_type_suffix<W: fmt::Write>(
+fn write_literal_type_suffix<S: Scope, W: fmt::Write>(
     lit: &LiteralType,
     nullable: bool,
+    variation: TypeVariation,
+    ctx: &S,
     w: &mut W,
 ) -> fmt::Result {
     // (type name, precision parameter for parameterized types).
@@ -463,6 +465,7 @@ fn write_literal_type_suffix<W: fmt::Write>(
     if nullable {
         write!(w, "?")?;
     }
+    write!(w, "{}", ctx.display(&variation))?;
     if let Some(p) = precision {
         write!(w, "<{p}>")?;
     }
@@ -513,14 +516,19 @@ impl Textify for expr::Literal {
         let show_suffix = match ctx.options().literal_types {
             Visibility::Never => false,
             Visibility::Always => true,
-            Visibility::Required => self.nullable || !is_default_for_syntax(lit),
+            Visibility::Required => {
+                self.nullable
+                    || self.type_variation_reference != 0
+                    || !is_default_for_syntax(lit)
+            }
         };
         if let LiteralType::Null(typ) = lit {
             write!(w, ":{}", ctx.expect(Some(typ)))?;
             return Ok(());
         }
         if show_suffix {
-            write_literal_type_suffix(lit, self.nullable, w)?;
+            let variation = TypeVariation(self.type_variation_reference);
+            write_literal_type_suffix(lit, self.nullable, variation, ctx, w)?;
         }
         Ok(())
     }
diff --git a/src/textify/types.rs b/src/textify/types.rs
index c5da99c..42489ca 100644
--- a/src/textify/types.rs
+++ b/src/textify/types.rs
@@ -261,7 +261,7 @@ impl<T: Deref<Target = proto::Type>> Textify for OutputType<T> {
     }
 }
 
-struct TypeVariation(u32);
+pub struct TypeVariation(pub u32);
 
 impl Textify for TypeVariation {
     fn name() -> &'static str {
-- 
2.43.0


From 8982c70aa131efbc97275f9286ae84023b1739dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:13 +0000
Subject: [PATCH 42/49] fix: write deprecated function arguments instead of
 dropping them

---
 src/textify/expressions.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/textify/expressions.rs b/src/textify/expressions.rs
index 3a3ad26..52ba901 100644
--- a/src/textify/expressions.rs
+++ b/src/textify/expressions.rs
@@ -698,6 +698,8 @@ impl Textify for FieldReference {
 pub struct FunctionInvocation<'a> {
     pub function_reference: u32,
     pub arguments: &'a [FunctionArgument],
+    /// The deprecated form of `arguments`, written when those are empty.
+    pub args: &'a [Expression],
     pub options: &'a [FunctionOption],
 }
 
@@ -706,6 +708,8 @@ impl<'a> From<&'a ScalarFunction> for FunctionInvocation<'a> {
         FunctionInvocation {
             function_reference: f.function_reference,
             arguments: &f.arguments,
+            #[allow(deprecated)]
+            args: &f.args,
             options: &f.options,
         }
     }
@@ -716,6 +720,8 @@ impl<'a> From<&'a AggregateFunction> for FunctionInvocation<'a> {
         FunctionInvocation {
             function_reference: f.function_reference,
             arguments: &f.arguments,
+            #[allow(deprecated)]
+            args: &f.args,
             options: &f.options,
         }
     }
@@ -731,15 +737,17 @@ impl Textify for FunctionInvocation<'_> {
             NamedAnchor::lookup(ctx, ExtensionKind::Function, self.function_reference);
         let name_and_anchor = ctx.display(&name_and_anchor);
 
-        let args = ctx.separated(self.arguments, ", ");
-        let options = ctx.separated(self.options, ", ");
-        let between = if self.arguments.is_empty() || self.options.is_empty() {
-            ""
+        write!(w, "{name_and_anchor}(")?;
+        if self.arguments.is_empty() {
+            write!(w, "{}", ctx.separated(self.args, ", "))?;
         } else {
-            ", "
-        };
-
-        write!(w, "{name_and_anchor}({args}{between}{options})")
+            write!(w, "{}", ctx.separated(self.arguments, ", "))?;
+        }
+        let has_arguments = !(self.arguments.is_empty() && self.args.is_empty());
+        if has_arguments && !self.options.is_empty() {
+            write!(w, ", ")?;
+        }
+        write!(w, "{})", ctx.separated(self.options, ", "))
     }
 }
 
-- 
2.43.0


From 1964f6176b6c84c8b6952e121a5bdf1285de1939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:39 +0000
Subject: [PATCH 43/49] fix: write the deprecated literal rows of a virtual
 table

---
 src/textify/rels.rs   | 13 ++++++++++---
 src/textify/values.rs |  3 +++
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/textify/rels.rs b/src/textify/rels.rs
index 8f59311..6ddd909 100644
--- a/src/textify/rels.rs
+++ b/src/textify/rels.rs
@@ -415,12 +415,19 @@ impl<'a> Relation<'a> {
                 }
             }
             Some(ReadType::VirtualTable(vt)) => {
-                let row_count = vt.expressions.len();
-                let mut positional: Vec<Value> = vt
+                let expression_rows = vt
                     .expressions
                     .iter()
-                    .map(|row| Value::Tuple(row.fields.iter().map(Value::Expression).collect()))
+                    .map(|row| Value::Tuple(row.fields.iter().map(Value::Expression).collect()));
+                // Rows may also be given as literals, in the deprecated `values`.
+                #[allow(deprecated)]
+                let mut positional: Vec<Value> = vt
+                    .values
+                    .iter()
+                    .map(|row| Value::Tuple(row.fields.iter().map(Value::Literal).collect()))
+                    .chain(expression_rows)
                     .collect();
+                let row_count = positional.len();
                 let mut named = vec![];
                 if let Some(filter) = rel.filter.as_ref() {
                     named.push(NamedArg {
diff --git a/src/textify/values.rs b/src/textify/values.rs
index 07d86e9..cf8e51c 100644
--- a/src/textify/values.rs
+++ b/src/textify/values.rs
@@ -7,6 +7,7 @@ use std::fmt;
 
 use prost::UnknownEnumValue;
 use substrait::proto::aggregate_function::AggregationInvocation;
+use substrait::proto::expression::Literal;
 use substrait::proto::sort_field::{SortDirection, SortKind};
 use substrait::proto::{
     AggregateFunction, AggregationPhase, Expression, SortField, Type, join_rel, set_rel,
@@ -35,6 +36,7 @@ pub enum Value<'a> {
     Tuple(Vec<Value<'a>>),
     Reference(i32),
     Expression(&'a Expression),
+    Literal(&'a Literal),
     AggregateFunction(&'a AggregateFunction),
     /// Represents a missing, invalid, or unspecified value.
     Missing(PlanError),
@@ -81,6 +83,7 @@ impl<'a> Textify for Value<'a> {
             // Field-reference syntax (`$N`); inlined rather than importing `expressions::Reference`.
             Value::Reference(i) => write!(w, "${i}"),
             Value::Expression(e) => write!(w, "{}", ctx.display(*e)),
+            Value::Literal(l) => write!(w, "{}", ctx.display(*l)),
             Value::AggregateFunction(agg_fn) => agg_fn.textify(ctx, w),
             Value::Missing(err) => write!(w, "{}", ctx.failure(err.clone())),
             Value::Enum(res) => write!(w, "&{res}"),
-- 
2.43.0


From c9ee5de0b7209b465c5dc004ec3874900c00d301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:29 +0000
Subject: [PATCH 44/49] fix: report negative limits and offsets

---
 src/textify/rels.rs | 79 +++++++++++++++++++++++++++------------------
 1 file changed, 47 insertions(+), 32 deletions(-)

diff --git a/src/textify/rels.rs b/src/textify/rels.rs
index 6ddd909..474ae3f 100644
--- a/src/textify/rels.rs
+++ b/src/textify/rels.rs
@@ -4,15 +4,17 @@ use std::convert::TryFrom;
 use std::fmt;
 
 use prost::Message;
+use substrait::proto::expression::literal::LiteralType;
+use substrait::proto::expression::{Literal, RexType};
 use substrait::proto::fetch_rel::{CountMode, OffsetMode};
 use substrait::proto::plan_rel::RelType as PlanRelType;
 use substrait::proto::read_rel::ReadType;
 use substrait::proto::rel::RelType;
 use substrait::proto::rel_common::EmitKind;
 use substrait::proto::{
-    AggregateRel, CrossRel, ExtensionLeafRel, ExtensionMultiRel, ExtensionSingleRel, FetchRel,
-    FilterRel, JoinRel, NamedStruct, PlanRel, ProjectRel, ReadRel, Rel, RelCommon, RelRoot, SetRel,
-    SortRel, join_rel, set_rel,
+    AggregateRel, CrossRel, Expression, ExtensionLeafRel, ExtensionMultiRel, ExtensionSingleRel,
+    FetchRel, FilterRel, JoinRel, NamedStruct, PlanRel, ProjectRel, ReadRel, Rel, RelCommon,
+    RelRoot, SetRel, SortRel, join_rel, set_rel,
 };
 
 use super::addenda::AddendumLines;
@@ -929,38 +931,25 @@ impl<'a> Relation<'a> {
     fn from_fetch<S: Scope>(rel: &'a FetchRel, ctx: &S) -> Self {
         let (children, input_columns) = Relation::convert_children(vec![rel.input.as_deref()], ctx);
         let mut named_args: Vec<NamedArg> = vec![];
-        match &rel.count_mode {
-            Some(CountMode::CountExpr(expr)) => {
-                named_args.push(NamedArg {
-                    name: Cow::Borrowed("limit"),
-                    value: Value::Expression(expr),
-                });
-            }
-            #[allow(deprecated)]
-            Some(CountMode::Count(val)) => {
+        #[allow(deprecated)]
+        let limit = match &rel.count_mode {
+            Some(CountMode::CountExpr(expr)) => Some(fetch_expression("count", expr)),
+            // The deprecated count says that there is no limit with -1.
+            Some(CountMode::Count(-1)) | None => None,
+            Some(CountMode::Count(val)) => Some(fetch_integer("count", *val)),
+        };
+        #[allow(deprecated)]
+        let offset = rel.offset_mode.as_ref().map(|offset| match offset {
+            OffsetMode::OffsetExpr(expr) => fetch_expression("offset", expr),
+            OffsetMode::Offset(val) => fetch_integer("offset", *val),
+        });
+        for (name, value) in [("limit", limit), ("offset", offset)] {
+            if let Some(value) = value {
                 named_args.push(NamedArg {
-                    name: Cow::Borrowed("limit"),
-                    value: Value::Integer(*val),
+                    name: Cow::Borrowed(name),
+                    value,
                 });
             }
-            None => {}
-        }
-        if let Some(offset) = &rel.offset_mode {
-            match offset {
-                OffsetMode::OffsetExpr(expr) => {
-                    named_args.push(NamedArg {
-                        name: Cow::Borrowed("offset"),
-                        value: Value::Expression(expr),
-                    });
-                }
-                #[allow(deprecated)]
-                OffsetMode::Offset(val) => {
-                    named_args.push(NamedArg {
-                        name: Cow::Borrowed("offset"),
-                        value: Value::Integer(*val),
-                    });
-                }
-            }
         }
 
         let emit = get_emit(rel.common.as_ref());
@@ -980,6 +969,32 @@ impl<'a> Relation<'a> {
     }
 }
 
+/// A limit or offset given as a number, which the text form has only for
+/// non-negative ones.
+fn fetch_integer<'a>(field: &'static str, value: i64) -> Value<'a> {
+    if value < 0 {
+        Value::Missing(PlanError::invalid(
+            "FetchRel",
+            Some(field),
+            format!("{field} must be non-negative, got {value}"),
+        ))
+    } else {
+        Value::Integer(value)
+    }
+}
+
+/// A limit or offset given as an expression; a plain integer literal is written
+/// like a number.
+fn fetch_expression<'a>(field: &'static str, expr: &'a Expression) -> Value<'a> {
+    match &expr.rex_type {
+        Some(RexType::Literal(Literal {
+            literal_type: Some(LiteralType::I64(value)),
+            ..
+        })) if *value < 0 => fetch_integer(field, *value),
+        _ => Value::Expression(expr),
+    }
+}
+
 /// The number of columns a join outputs before any emit.
 pub(crate) fn join_output_width(
     join_type: join_rel::JoinType,
-- 
2.43.0


From 6d0badfa1087195332938e90368aa86c7b7d747a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:37 +0000
Subject: [PATCH 45/49] fix: report a named table without a name

---
 src/textify/rels.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/textify/rels.rs b/src/textify/rels.rs
index 474ae3f..60178dd 100644
--- a/src/textify/rels.rs
+++ b/src/textify/rels.rs
@@ -392,7 +392,15 @@ impl<'a> Relation<'a> {
 
         match &rel.read_type {
             Some(ReadType::NamedTable(table)) => {
-                let table_name = Value::TableName(table.names.iter().map(|n| Name(n)).collect());
+                let table_name = if table.names.is_empty() {
+                    Value::Missing(PlanError::invalid(
+                        "NamedTable",
+                        Some("names"),
+                        "Table name is required",
+                    ))
+                } else {
+                    Value::TableName(table.names.iter().map(|n| Name(n)).collect())
+                };
                 // XXX: For `ReadRel`s, we use `=>` unless there is a remap to
                 // show, in which case we use `+> … |>`. `Direct` and an absent
                 // `common` render the same. However, we ignore the
-- 
2.43.0


From 371ab28dcf000936bb235782553eeca382a50aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:21 +0000
Subject: [PATCH 46/49] fix: report grouping expressions that no grouping uses

---
 src/textify/rels.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/textify/rels.rs b/src/textify/rels.rs
index 60178dd..3129b4e 100644
--- a/src/textify/rels.rs
+++ b/src/textify/rels.rs
@@ -765,11 +765,27 @@ impl<'a> Relation<'a> {
         {
             (expression_list, grouping_sets) = Relation::get_grouping_sets(rel);
         } else {
+            // already a list of the unique expressions. One that no grouping uses
+            // is neither a group key nor a measure, so it cannot be written.
+            let is_grouped = |i: usize| {
+                rel.groupings
+                    .iter()
+                    .any(|g| g.expression_references.contains(&(i as u32)))
+            };
             expression_list = rel
                 .grouping_expressions
                 .iter()
-                .map(Value::Expression)
-                .collect::<Vec<_>>(); // already a list of the unique expressions
+                .enumerate()
+                .map(|(i, expr)| {
+                    Value::expect(is_grouped(i).then_some(Value::Expression(expr)), || {
+                        PlanError::invalid(
+                            "AggregateRel",
+                            Some("grouping_expressions"),
+                            format!("grouping expression {i} is not part of any grouping"),
+                        )
+                    })
+                })
+                .collect::<Vec<_>>();
             for group in &rel.groupings {
                 let mut grouping_set: Vec<Value> = vec![];
                 for i in &group.expression_references {
-- 
2.43.0


From ae1ac2ca590c85a0ea100d4ef2fa542ef59ad50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:54 +0000
Subject: [PATCH 47/49] fix: reject a continuation line under a relation that
 takes none

---
 src/parser/expression_grammar.pest | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression_grammar.pest b/src/parser/expression_grammar.pest
index 1c62d77..155f3f4 100644
--- a/src/parser/expression_grammar.pest
+++ b/src/parser/expression_grammar.pest
@@ -242,6 +242,7 @@ direct_output   = { "+>" ~ sp ~ named_column_list ~ emit_suffix }
 emit_suffix     = { (sp ~ "|>" ~ sp ~ reference_list)? }
 
 planNode = {
+    (
     // Specialized read relations must precede read_relation: all start with
     // "Read", and PEG tries alternatives in order — the longer prefixes
     // must be attempted first.
@@ -258,6 +259,7 @@ planNode = {
   | cross_relation
   | extension_relation
   | addendum
+    ) ~ no_continuation
 }
 
 // At the top level, we can have a RelRoot, or a regular relation; both are valid.
@@ -266,7 +268,7 @@ top_level_relation = {
   | planNode
 }
 
-root_relation  = { "Root" ~ "[" ~ root_name_list ~ "]" }
+root_relation  = { "Root" ~ "[" ~ root_name_list ~ "]" ~ no_continuation }
 root_name_list = { (name ~ (sp ~ "," ~ sp ~ name)*)? }
 
 read_relation = { "Read" ~ "[" ~ table_name ~ sp ~ output ~ "]" }
@@ -288,6 +290,10 @@ relation_open      = _{ "[" ~ relation_line_cont? }
 relation_comma     = _{ sp ~ "," ~ (relation_line_cont | sp) }
 relation_arrow     = _{ (relation_line_cont | sp) ~ "=>" ~ sp }
 
+// What is left of a relation's text must be on its own line: a continuation
+// line the relation has no place for is an error rather than silently dropped.
+no_continuation    = _{ !((!NEWLINE ~ ANY)* ~ NEWLINE) }
+
 // VirtualTable read: Read:Virtual[rows => columns] or Read:Virtual[_, filter=... => columns]
 // Rows are parenthesized tuples; _ means empty (no rows). May also be written
 // across multiple lines using the relation layout rules above:
-- 
2.43.0


From 6fda610e9717519b3e7997996b7e53e1217e796c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:22 +0000
Subject: [PATCH 48/49] fix: report aggregate parts that read back as something
 else

---
 src/textify/expressions.rs | 12 +++++++
 src/textify/rels.rs        | 68 +++++++++++++++++++++++++++-----------
 2 files changed, 61 insertions(+), 19 deletions(-)

diff --git a/src/textify/expressions.rs b/src/textify/expressions.rs
index 52ba901..0de6202 100644
--- a/src/textify/expressions.rs
+++ b/src/textify/expressions.rs
@@ -703,6 +703,18 @@ pub struct FunctionInvocation<'a> {
     pub options: &'a [FunctionOption],
 }
 
+impl FunctionInvocation<'_> {
+    /// The arguments as written, in either form.
+    pub fn argument_types(&self) -> Vec<Option<ArgType>> {
+        if self.arguments.is_empty() {
+            let value = |e: &Expression| Some(ArgType::Value(e.clone()));
+            self.args.iter().map(value).collect()
+        } else {
+            self.arguments.iter().map(|a| a.arg_type.clone()).collect()
+        }
+    }
+}
+
 impl<'a> From<&'a ScalarFunction> for FunctionInvocation<'a> {
     fn from(f: &'a ScalarFunction) -> Self {
         FunctionInvocation {
diff --git a/src/textify/rels.rs b/src/textify/rels.rs
index 3129b4e..52da9e4 100644
--- a/src/textify/rels.rs
+++ b/src/textify/rels.rs
@@ -12,12 +12,13 @@ use substrait::proto::read_rel::ReadType;
 use substrait::proto::rel::RelType;
 use substrait::proto::rel_common::EmitKind;
 use substrait::proto::{
-    AggregateRel, CrossRel, Expression, ExtensionLeafRel, ExtensionMultiRel, ExtensionSingleRel,
-    FetchRel, FilterRel, JoinRel, NamedStruct, PlanRel, ProjectRel, ReadRel, Rel, RelCommon,
-    RelRoot, SetRel, SortRel, join_rel, set_rel,
+    AggregateFunction, AggregateRel, CrossRel, Expression, ExtensionLeafRel, ExtensionMultiRel,
+    ExtensionSingleRel, FetchRel, FilterRel, JoinRel, NamedStruct, PlanRel, ProjectRel, ReadRel,
+    Rel, RelCommon, RelRoot, SetRel, SortRel, join_rel, set_rel,
 };
 
 use super::addenda::AddendumLines;
+use super::expressions::FunctionInvocation;
 use super::types::Name;
 use super::values::{Arguments, NamedArg, Value, ValueEnum, decode_enum_field};
 use super::{PlanError, Scope, Textify};
@@ -766,7 +767,8 @@ impl<'a> Relation<'a> {
             (expression_list, grouping_sets) = Relation::get_grouping_sets(rel);
         } else {
             // already a list of the unique expressions. One that no grouping uses
-            // is neither a group key nor a measure, so it cannot be written.
+            // is neither a group key nor a measure, so it cannot be written, and
+            // one that repeats another cannot be told from it.
             let is_grouped = |i: usize| {
                 rel.groupings
                     .iter()
@@ -777,13 +779,18 @@ impl<'a> Relation<'a> {
                 .iter()
                 .enumerate()
                 .map(|(i, expr)| {
-                    Value::expect(is_grouped(i).then_some(Value::Expression(expr)), || {
-                        PlanError::invalid(
-                            "AggregateRel",
-                            Some("grouping_expressions"),
-                            format!("grouping expression {i} is not part of any grouping"),
-                        )
-                    })
+                    let problem = if !is_grouped(i) {
+                        "is not part of any grouping"
+                    } else if rel.grouping_expressions[..i].contains(expr) {
+                        "repeats an earlier one"
+                    } else {
+                        return Value::Expression(expr);
+                    };
+                    Value::Missing(PlanError::invalid(
+                        "AggregateRel",
+                        Some("grouping_expressions"),
+                        format!("grouping expression {i} {problem}"),
+                    ))
                 })
                 .collect::<Vec<_>>();
             for group in &rel.groupings {
@@ -826,18 +833,41 @@ impl<'a> Relation<'a> {
         // adding the grouping_sets as a list of Arguments to Aggregate Rel
         let arguments = Some(RelationArgs::inline(positional, vec![]));
 
-        // The columns are the direct outputs of this relation (before emit)
-        let mut all_outputs: Vec<Value> = expression_list;
+        // A function call among the outputs reads back as a grouping expression
+        // if there is one like it, so a measure must not look like one.
+        let is_grouping_call = |measure: &AggregateFunction| {
+            expression_list.iter().any(|value| match value {
+                Value::Expression(Expression {
+                    rex_type: Some(RexType::ScalarFunction(call)),
+                }) => {
+                    call.function_reference == measure.function_reference
+                        && call.output_type == measure.output_type
+                        && FunctionInvocation::from(call).argument_types()
+                            == FunctionInvocation::from(measure).argument_types()
+                }
+                _ => false,
+            })
+        };
 
-        // Then, add all measures (aggregate functions)
-        // These are indexed after the group-by fields
+        // Measures (aggregate functions) are indexed after the group-by fields
+        let mut measures: Vec<Value> = vec![];
         for m in &rel.measures {
             // A missing measure keeps its place: emit indices count it.
-            let measure = m.measure.as_ref().map(Value::AggregateFunction);
-            all_outputs.push(Value::expect(measure, || {
-                PlanError::invalid("Measure", Some("measure"), "Measure function is None")
-            }));
+            measures.push(match &m.measure {
+                Some(measure) if is_grouping_call(measure) => Value::Missing(PlanError::invalid(
+                    "Measure",
+                    Some("measure"),
+                    "a measure that is the same call as a grouping expression cannot be told from it",
+                )),
+                measure => Value::expect(measure.as_ref().map(Value::AggregateFunction), || {
+                    PlanError::invalid("Measure", Some("measure"), "Measure function is None")
+                }),
+            });
         }
+
+        // The columns are the direct outputs of this relation (before emit)
+        let mut all_outputs: Vec<Value> = expression_list;
+        all_outputs.extend(measures);
         let emit = get_emit(rel.common.as_ref());
         let (children, _) = Relation::convert_children(vec![rel.input.as_deref()], ctx);
 
-- 
2.43.0


From 7d26db8d8500a7199d54d4612fe919c804ce2dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:30 +0000
Subject: [PATCH 49/49] fix: do not open the output before the input is
 understood

---
 src/cli.rs | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/cli.rs b/src/cli.rs
index c825700..7ef9ebe 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -82,14 +82,16 @@ impl Cli {
             } => {
                 let reader = get_reader(input)
                     .with_context(|| format!("Failed to open input file: {input}"))?;
-                let writer = get_writer(output)
-                    .with_context(|| format!("Failed to create output file: {output}"))?;
+                let open_writer = || {
+                    get_writer(output)
+                        .with_context(|| format!("Failed to create output file: {output}"))
+                };
                 let options = self.create_output_options(*show_literal_types);
                 let from_format = self.resolve_input_format(from, input)?;
                 let to_format = self.resolve_output_format(to, output)?;
                 self.run_convert_with_io(
                     reader,
-                    writer,
+                    open_writer,
                     &from_format,
                     &to_format,
                     &options,
@@ -105,9 +107,11 @@ impl Cli {
             } => {
                 let reader = get_reader(input)
                     .with_context(|| format!("Failed to open input file: {input}"))?;
-                let writer = get_writer(output)
-                    .with_context(|| format!("Failed to create output file: {output}"))?;
-                self.run_validate_with_io(reader, writer, *verbose, registry)
+                let open_writer = || {
+                    get_writer(output)
+                        .with_context(|| format!("Failed to create output file: {output}"))
+                };
+                self.run_validate_with_io(reader, open_writer, *verbose, registry)
             }
         }
     }
@@ -134,7 +138,7 @@ impl Cli {
                 let to_format = self.resolve_output_format(to, output)?;
                 self.run_convert_with_io(
                     reader,
-                    writer,
+                    || Ok(writer),
                     &from_format,
                     &to_format,
                     &options,
@@ -144,7 +148,7 @@ impl Cli {
             }
 
             Commands::Validate { verbose, .. } => {
-                self.run_validate_with_io(reader, writer, *verbose, registry)
+                self.run_validate_with_io(reader, || Ok(writer), *verbose, registry)
             }
         }
     }
@@ -189,10 +193,12 @@ impl Cli {
     // something useful here. We could perhaps add a type containing (registry,
     // formats, options) or something
     #[allow(clippy::too_many_arguments)]
+    /// The output is only opened once the input has been read and understood:
+    /// it may be the same file, or hold something worth keeping.
     fn run_convert_with_io<R: Read, W: Write>(
         &self,
         reader: R,
-        writer: W,
+        open_writer: impl FnOnce() -> Result<W>,
         from: &Format,
         to: &Format,
         options: &OutputOptions,
@@ -209,7 +215,7 @@ impl Cli {
 
         // Write output based on format
         let outcome = to
-            .write_plan(writer, &plan, options, registry)
+            .write_plan(open_writer()?, &plan, options, registry)
             .with_context(|| {
                 format!(
                     "Failed to write output as {} format",
@@ -227,7 +233,7 @@ impl Cli {
     fn run_validate_with_io<R: Read, W: Write>(
         &self,
         reader: R,
-        writer: W,
+        open_writer: impl FnOnce() -> Result<W>,
         verbose: bool,
         registry: &ExtensionRegistry,
     ) -> Result<Outcome> {
@@ -236,7 +242,7 @@ impl Cli {
             .with_context(|| "Failed to parse input as Substrait text format")?;
 
         let outcome = Format::Text
-            .write_plan(writer, &plan, &OutputOptions::default(), registry)
+            .write_plan(open_writer()?, &plan, &OutputOptions::default(), registry)
             .with_context(|| "Failed to format plan as Substrait text format")?;
 
         if verbose && matches!(outcome, Outcome::Success) {
-- 
2.43.0

