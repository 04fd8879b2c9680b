From 37e5310a5371b09889d02da3717fbf86b4f4c515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:11 +0000
Subject: [PATCH 01/23] fix: compare the orientations of both bundles' fields
 in type equivalence

---
 src/types/type.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/type.rs b/src/types/type.rs
index 5c0b687..44cac56 100644
--- a/src/types/type.rs
+++ b/src/types/type.rs
@@ -92,7 +92,7 @@ impl TypeExt for Type {
                     .zip(v2.iter())
                     .all(|(f1, f2)| f1.name() == f2.name() &&
                         TypeExt::eq(f1.r#type(), f2.r#type()) &&
-                        f1.orientation() == f1.orientation())
+                        f1.orientation() == f2.orientation())
             } else {
                 false
             },
-- 
2.43.0


From be33a63345b6e39e93e08815a607d62b2d117313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:15 +0000
Subject: [PATCH 02/23] fix: make reset types equivalent to themselves

---
 src/types/ground.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/types/ground.rs b/src/types/ground.rs
index 64e4098..44106e2 100644
--- a/src/types/ground.rs
+++ b/src/types/ground.rs
@@ -68,6 +68,7 @@ impl super::TypeExt for GroundType {
             (Self::SInt(_),     Self::SInt(_))     => true,
             (Self::Fixed(_, _), Self::Fixed(_, _)) => true,
             (Self::Clock,       Self::Clock)       => true,
+            (Self::Reset(l),    Self::Reset(r))    => l == r,
             (Self::Analog(_),   Self::Analog(_))   => true,
             _ => false
         }
-- 
2.43.0


From 5be67aa8633edd9e41b84e66d3b1a7187461b302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:19 +0000
Subject: [PATCH 03/23] fix: allow combining reset types of the same kind

---
 src/types/ground.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/types/ground.rs b/src/types/ground.rs
index 44106e2..892e200 100644
--- a/src/types/ground.rs
+++ b/src/types/ground.rs
@@ -89,8 +89,10 @@ impl super::TypeExt for GroundType {
 ///
 /// This [Combinator] combines [GroundType::UInt]s, [GroundType::SInt]s and
 /// [GroundType::Analog] based on [BitWidth] combination. [GroundType::Clock]s
-/// are combined to [GroundType::Clock]. Combination of different
-/// [GroundType] variants or [GroundType::Fixed] will result in an `Err`.
+/// are combined to [GroundType::Clock] and [GroundType::Reset]s of the same
+/// kind are combined to a [GroundType::Reset] of that kind. Combination of
+/// different [GroundType] variants or [GroundType::Fixed] will result in an
+/// `Err`.
 impl<C: Combinator<BitWidth>> Combinator<GroundType> for C {
     fn combine<'a>(
         &self,
@@ -102,6 +104,7 @@ impl<C: Combinator<BitWidth>> Combinator<GroundType> for C {
             (GroundType::UInt(l),   GroundType::UInt(r))   => combine(l, r).map(GroundType::UInt),
             (GroundType::SInt(l),   GroundType::SInt(r))   => combine(l, r).map(GroundType::SInt),
             (GroundType::Clock,     GroundType::Clock)     => Ok(GroundType::Clock),
+            (GroundType::Reset(l),  GroundType::Reset(r)) if l == r => Ok(GroundType::Reset(*l)),
             (GroundType::Analog(l), GroundType::Analog(r)) => combine(l, r).map(GroundType::Analog),
             _ => Err((lhs, rhs))
         }
-- 
2.43.0


From 4d932cc9332d2291fdee8bfb6fbdcd4ca52f4790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:23 +0000
Subject: [PATCH 04/23] fix: compute the width of cat as the sum of the
 operands' widths

---
 src/expr/primitive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr/primitive.rs b/src/expr/primitive.rs
index 1ec6fcf..55ce7e7 100644
--- a/src/expr/primitive.rs
+++ b/src/expr/primitive.rs
@@ -226,7 +226,7 @@ impl<R> types::Typed for Operation<R>
             Self::OrReduce(..)              => Ok(GT::UInt(Some(1))),
             Self::XorReduce(..)             => Ok(GT::UInt(Some(1))),
             Self::Cat(lhs, rhs)             => Ok(
-                GT::UInt(max_width(ground(lhs)?.width(), ground(rhs)?.width())
+                GT::UInt(sum_width(ground(lhs)?.width(), ground(rhs)?.width())
             )),
             Self::Bits(sub, low, high)      => ground(sub).map(|t| GT::UInt(high
                 .or(t.width())
-- 
2.43.0


From 7400c9f42efd8342941f541e0b2422c3191fe094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:28 +0000
Subject: [PATCH 05/23] fix: compute the widths of tail and full-range bits
 correctly

---
 src/expr/primitive.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/expr/primitive.rs b/src/expr/primitive.rs
index 55ce7e7..0c1c483 100644
--- a/src/expr/primitive.rs
+++ b/src/expr/primitive.rs
@@ -228,11 +228,12 @@ impl<R> types::Typed for Operation<R>
             Self::Cat(lhs, rhs)             => Ok(
                 GT::UInt(sum_width(ground(lhs)?.width(), ground(rhs)?.width())
             )),
-            Self::Bits(sub, low, high)      => ground(sub).map(|t| GT::UInt(high
-                .or(t.width())
-                .and_then(|w| w.checked_sub(low.unwrap_or(1)))
-                .map(|w| w + 1)
-            )),
+            Self::Bits(sub, low, high)      => ground(sub).map(|t| GT::UInt(match (low, high) {
+                (Some(low), Some(high)) => high.checked_sub(*low).and_then(|w| w.checked_add(1)),
+                (None, Some(high))      => Some(*high),
+                (Some(low), None)       => t.width().and_then(|w| w.checked_sub(*low)),
+                (None, None)            => t.width(),
+            })),
             Self::IncPrecision(sub, bits)   => fixed(sub).map(|(w, p)| GT::Fixed(
                 w.and_then(|w| w.checked_add(*bits)),
                 p.and_then(|p| p.checked_add(*bits as SBits))
-- 
2.43.0


From 43109816d3b9a6b5bd817354e7a77f9881a89e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:54 +0000
Subject: [PATCH 06/23] fix: parse and print the operands of bits in FIRRTL's
 order (high, then low)

---
 src/expr/parsers.rs   | 2 +-
 src/expr/primitive.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/expr/parsers.rs b/src/expr/parsers.rs
index 29981e1..a21f5b3 100644
--- a/src/expr/parsers.rs
+++ b/src/expr/parsers.rs
@@ -130,7 +130,7 @@ pub fn primitive_op<'i, R: super::Reference + Clone>(
         "cat"           => map(tuple((&sub, comma, &sub)), |(l, _, r)| PO::Cat(l, r))(input)?,
         "bits"          => map(
             tuple((&sub, comma, spaced(decimal), comma, spaced(decimal))),
-            |(e, _, l, _, h)| PO::Bits(e, Some(l), Some(h))
+            |(e, _, h, _, l)| PO::Bits(e, Some(l), Some(h))
         )(input)?,
         "head"          => map(
             tuple((&sub, comma, spaced(decimal))),
diff --git a/src/expr/primitive.rs b/src/expr/primitive.rs
index 0c1c483..de7414f 100644
--- a/src/expr/primitive.rs
+++ b/src/expr/primitive.rs
@@ -289,7 +289,7 @@ impl<R: Reference> fmt::Display for Operation<R> {
             Self::OrReduce(sub)                     => write!(f, "orr({})", sub),
             Self::XorReduce(sub)                    => write!(f, "xorr({})", sub),
             Self::Cat(lhs, rhs)                     => write!(f, "cat({}, {})", lhs, rhs),
-            Self::Bits(sub, Some(l), Some(h))       => write!(f, "bits({}, {}, {})", sub, l, h),
+            Self::Bits(sub, Some(l), Some(h))       => write!(f, "bits({}, {}, {})", sub, h, l),
             Self::Bits(sub, None, Some(high))       => write!(f, "head({}, {})", sub, high),
             Self::Bits(sub, Some(low), None)        => write!(f, "tail({}, {})", sub, low),
             Self::Bits(..)                          => Err(Default::default()),
-- 
2.43.0


From 48e18c2d8c90e3b9ac096384dbda45547c18068b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:00 +0000
Subject: [PATCH 07/23] fix: leave the width unknown when padding an operand of
 unknown width

---
 src/expr/primitive.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/expr/primitive.rs b/src/expr/primitive.rs
index de7414f..ec7f78a 100644
--- a/src/expr/primitive.rs
+++ b/src/expr/primitive.rs
@@ -188,7 +188,8 @@ impl<R> types::Typed for Operation<R>
             Self::GEq(..)                   => Ok(GT::UInt(Some(1))),
             Self::Eq(..)                    => Ok(GT::UInt(Some(1))),
             Self::NEq(..)                   => Ok(GT::UInt(Some(1))),
-            Self::Pad(sub, bits)            => ground(sub).map(|t| t.with_width(max(t.width(), Some(*bits)))),
+            Self::Pad(sub, bits)            => ground(sub)
+                .map(|t| t.with_width(t.width().map(|w| max(w, *bits)))),
             Self::Cast(sub, target)         => ground(sub).map(|t| target.with_width(t.width())),
             Self::Shl(sub, bits)            => ground(sub)
                 .map(|t| t.with_width(t.width().and_then(|w| w.checked_add(*bits)))),
-- 
2.43.0


From eea9a81c43b8a5f9f8082686dc8ee5419877865b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:05 +0000
Subject: [PATCH 08/23] fix: compute widths and points of incp, decp and setp
 without wrapping, with setp's new point

---
 src/expr/primitive.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/expr/primitive.rs b/src/expr/primitive.rs
index ec7f78a..1854517 100644
--- a/src/expr/primitive.rs
+++ b/src/expr/primitive.rs
@@ -237,17 +237,15 @@ impl<R> types::Typed for Operation<R>
             })),
             Self::IncPrecision(sub, bits)   => fixed(sub).map(|(w, p)| GT::Fixed(
                 w.and_then(|w| w.checked_add(*bits)),
-                p.and_then(|p| p.checked_add(*bits as SBits))
+                p.and_then(|p| (i32::from(p) + i32::from(*bits)).try_into().ok())
             )),
             Self::DecPrecision(sub, bits)   => fixed(sub).map(|(w, p)| GT::Fixed(
                 w.and_then(|w| w.checked_sub(*bits)),
-                p.and_then(|p| p.checked_sub(*bits as SBits))
+                p.and_then(|p| (i32::from(p) - i32::from(*bits)).try_into().ok())
             )),
             Self::SetPrecision(sub, bits)   => fixed(sub).map(|(w, p)| GT::Fixed(
-                w.and_then(|w| p.and_then(|p| (w as SBits).checked_sub(p)))
-                    .and_then(|w| w.checked_add(*bits))
-                    .and_then(|w| w.try_into().ok()),
-                p
+                w.and_then(|w| p.and_then(|p| (i32::from(w) - i32::from(p) + i32::from(*bits)).try_into().ok())),
+                Some(*bits)
             )),
         }
     }
-- 
2.43.0


From a91d6c1e28be939eb7503f245df108c03669f27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:09 +0000
Subject: [PATCH 09/23] fix: saturate the width of a fixed-point value shifted
 right by more than its width

---
 src/expr/primitive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr/primitive.rs b/src/expr/primitive.rs
index 1854517..6273fbd 100644
--- a/src/expr/primitive.rs
+++ b/src/expr/primitive.rs
@@ -197,7 +197,7 @@ impl<R> types::Typed for Operation<R>
                 GT::UInt(w)                 => Ok(GT::UInt(w.map(|w| max(w.saturating_sub(*bits), 1)))),
                 GT::SInt(w)                 => Ok(GT::SInt(w.map(|w| max(w.saturating_sub(*bits), 1)))),
                 GT::Fixed(Some(w), Some(p)) => Ok(
-                    GT::Fixed(w.checked_sub(*bits).map(|w| max(w, max(p, 1) as UBits)), Some(p))
+                    GT::Fixed(Some(max(w.saturating_sub(*bits), max(p, 1) as UBits)), Some(p))
                 ),
                 GT::Fixed(..)               => Ok(GT::Fixed(None, None)),
                 _ => Err(self.clone().into()),
-- 
2.43.0


From 0cb4382901eda100d2b305292a6517f168d165df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:35 +0000
Subject: [PATCH 10/23] fix: report literals too wide for any width as errors
 rather than panicking

---
 src/expr/parsers.rs | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/expr/parsers.rs b/src/expr/parsers.rs
index a21f5b3..8938293 100644
--- a/src/expr/parsers.rs
+++ b/src/expr/parsers.rs
@@ -26,23 +26,17 @@ pub fn expr<'i, R: super::Reference + Clone>(
     let sub = |i| map(spaced(|i| expr(reference, i)), Arc::new)(i);
 
     let (input, res) = alt((
-        map(
+        map_opt(
             tuple((kw("UInt"), spaced(bitwidth), lp, spaced(num_lit), rp)),
-            |(_, width, _, value, _): (_, _, _, num_bigint::BigUint, _)| {
-                let width = width
-                    .or_else(|| value.bits().try_into().ok())
-                    .expect("Could not determine appropriate width");
-                E::UIntLiteral{value, width}
-            }
+            |(_, width, _, value, _): (_, _, _, num_bigint::BigUint, _)| width
+                .or_else(|| value.bits().try_into().ok())
+                .map(|width| E::UIntLiteral{value, width})
         ),
-        map(
+        map_opt(
             tuple((kw("SInt"), spaced(bitwidth), lp, spaced(num_lit), rp)),
-            |(_, width, _, value, _): (_, _, _, num_bigint::BigInt, _)| {
-                let width = width
-                    .or_else(|| value.bits().checked_add(1).and_then(|b| b.try_into().ok()))
-                    .expect("Could not determine appropriate width");
-                E::SIntLiteral{value, width}
-            }
+            |(_, width, _, value, _): (_, _, _, num_bigint::BigInt, _)| width
+                .or_else(|| value.bits().checked_add(1).and_then(|b| b.try_into().ok()))
+                .map(|width| E::SIntLiteral{value, width})
         ),
         map(
             tuple((kw("mux"), lp, &sub, comma, &sub, comma, &sub, rp)),
-- 
2.43.0


From 1e77f7b0fb5ff9c2a96a216a05f0690fa926457d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:45 +0000
Subject: [PATCH 11/23] fix: infer the minimum width for SInt literals of
 negative powers of two

---
 src/expr/parsers.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/expr/parsers.rs b/src/expr/parsers.rs
index 8938293..8315521 100644
--- a/src/expr/parsers.rs
+++ b/src/expr/parsers.rs
@@ -35,7 +35,7 @@ pub fn expr<'i, R: super::Reference + Clone>(
         map_opt(
             tuple((kw("SInt"), spaced(bitwidth), lp, spaced(num_lit), rp)),
             |(_, width, _, value, _): (_, _, _, num_bigint::BigInt, _)| width
-                .or_else(|| value.bits().checked_add(1).and_then(|b| b.try_into().ok()))
+                .or_else(|| signed_bits(&value).try_into().ok())
                 .map(|width| E::SIntLiteral{value, width})
         ),
         map(
@@ -155,6 +155,18 @@ pub fn primitive_op<'i, R: super::Reference + Clone>(
 }
 
 
+/// Compute the minimum width of a signed (two's complement) representation
+fn signed_bits(value: &num_bigint::BigInt) -> u64 {
+    use num_traits::Signed;
+
+    if value.is_negative() {
+        (value + 1u8).bits() + 1
+    } else {
+        value.bits() + 1
+    }
+}
+
+
 /// Parse FIRRTL's weird stringified number literal format
 ///
 /// This parser yields the value and radix.
-- 
2.43.0


From 9f59b4222d9fa829e9015eaeedfb6c59df9256bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:02 +0000
Subject: [PATCH 12/23] fix: reject empty names and accept a bundle field named
 flip

---
 src/parsers.rs       |  4 ++--
 src/types/parsers.rs | 15 ++++++++++-----
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/parsers.rs b/src/parsers.rs
index 8320f33..4461d63 100644
--- a/src/parsers.rs
+++ b/src/parsers.rs
@@ -7,7 +7,7 @@ mod tests;
 
 
 use nom::Parser;
-use nom::bytes::complete::{tag, take_while};
+use nom::bytes::complete::{tag, take_while, take_while1};
 use nom::character::complete::{char as chr, satisfy, space0};
 use nom::combinator::{not, peek, value};
 use nom::error::context;
@@ -29,7 +29,7 @@ pub type Error<'i> = nom::error::VerboseError<&'i str>;
 pub fn identifier(input: &str) -> IResult<&str> {
     context(
         "expected identifier",
-        preceded(peek(not(satisfy(char::is_numeric))), take_while(is_identifier_char))
+        preceded(peek(not(satisfy(char::is_numeric))), take_while1(is_identifier_char))
     )(input)
 }
 
diff --git a/src/types/parsers.rs b/src/types/parsers.rs
index 4921ae1..31f2db9 100644
--- a/src/types/parsers.rs
+++ b/src/types/parsers.rs
@@ -5,11 +5,11 @@
 use std::sync::Arc;
 
 use nom::branch::alt;
-use nom::bytes::complete::take_while;
-use nom::combinator::{map, opt, value};
+use nom::bytes::complete::take_while1;
+use nom::combinator::{map, opt, peek, value};
 use nom::error::context;
 use nom::multi::{fold_many0, separated_list0};
-use nom::sequence::{preceded, tuple};
+use nom::sequence::{preceded, terminated, tuple};
 
 use crate::parsers::{IResult, decimal, is_identifier_char, kw, op, spaced};
 
@@ -45,7 +45,12 @@ pub fn r#type(input: &str) -> IResult<super::Type> {
     use super::Type as T;
 
     let field = map(
-        tuple((opt(kw("flip")), spaced(field_name), spaced(op(":")), spaced(r#type))),
+        tuple((
+            opt(terminated(kw("flip"), peek(spaced(field_name)))),
+            spaced(field_name),
+            spaced(op(":")),
+            spaced(r#type),
+        )),
         |(o, n, _, t)| super::BundleField::new(n, t)
             .with_orientation(o.map(|_| super::Orientation::Flipped).unwrap_or_default())
     );
@@ -70,6 +75,6 @@ pub fn r#type(input: &str) -> IResult<super::Type> {
 ///
 /// The rules for field names are somehow more relaxed than for identifiers.
 pub fn field_name(input: &str) -> IResult<&str> {
-    context("expected field name", take_while(is_identifier_char))(input)
+    context("expected field name", take_while1(is_identifier_char))(input)
 }
 
-- 
2.43.0


From d65505cf6e26e14eb9456d9c155195200f15c157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:40 +0000
Subject: [PATCH 13/23] fix: print the info attribute of is-invalid statements

---
 src/stmt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stmt.rs b/src/stmt.rs
index ab78209..497681d 100644
--- a/src/stmt.rs
+++ b/src/stmt.rs
@@ -154,7 +154,7 @@ impl DisplayIndented for Statement {
             Kind::Empty                             => writeln!(f, "{}skip{}", indent.lock(), info),
             Kind::Declaration(entity)               => display::EntityDecl(entity, info).fmt(indent, f),
             Kind::SimpleMemDecl(mem)                => writeln!(f, "{}{}{}", indent.lock(), mem, info),
-            Kind::Invalidate(expr)                  => writeln!(f, "{}{} is invalid", indent.lock(), expr),
+            Kind::Invalidate(expr)                  => writeln!(f, "{}{} is invalid{}", indent.lock(), expr, info),
             Kind::Attach(exprs)                     =>
                 writeln!(f, "{}attach({}){}", indent.lock(), CommaSeparated::from(exprs), info),
             Kind::Conditional{cond, when, r#else}   => {
-- 
2.43.0


From f251e7992c2cff7f2b5c9f8bf3df58b8ede9dbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:46 +0000
Subject: [PATCH 14/23] fix: accept empty format strings

---
 src/stmt/parsers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stmt/parsers.rs b/src/stmt/parsers.rs
index 8be2785..231874b 100644
--- a/src/stmt/parsers.rs
+++ b/src/stmt/parsers.rs
@@ -9,7 +9,7 @@ use nom::branch::alt;
 use nom::bytes::complete::tag;
 use nom::character::complete::{anychar, char as chr};
 use nom::combinator::{iterator, map, opt, value, verify};
-use nom::multi::{many1, separated_list1};
+use nom::multi::{many0, many1, separated_list1};
 use nom::sequence::{preceded, tuple};
 
 use crate::expr::parsers::expr;
@@ -116,7 +116,7 @@ pub fn stmt<'i>(
                 comma,
                 spaced(|i| {
                     let (i, fmt_str) = map(
-                        tuple((chr('"'), many1(fmt_string_part), chr('"'))),
+                        tuple((chr('"'), many0(fmt_string_part), chr('"'))),
                         |(_, p, ..)| p
                     )(i)?;
                     let mut exprs = iterator(i, preceded(spaced(comma), spaced(&expr)));
-- 
2.43.0


From 9c99411842763d2a3985976b342b94fe07800d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:51 +0000
Subject: [PATCH 15/23] fix: reject printf statements with fewer arguments than
 format specifiers

---
 src/stmt/parsers.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/stmt/parsers.rs b/src/stmt/parsers.rs
index 231874b..8ba669b 100644
--- a/src/stmt/parsers.rs
+++ b/src/stmt/parsers.rs
@@ -9,6 +9,7 @@ use nom::branch::alt;
 use nom::bytes::complete::tag;
 use nom::character::complete::{anychar, char as chr};
 use nom::combinator::{iterator, map, opt, value, verify};
+use nom::error::{ErrorKind, ParseError};
 use nom::multi::{many0, many1, separated_list1};
 use nom::sequence::{preceded, tuple};
 
@@ -17,7 +18,7 @@ use crate::indentation::Indentation;
 use crate::info::{WithInfo, parse as info};
 use crate::memory::parsers::{memory, register, simple_mem, simple_mem_port};
 use crate::module::parsers::instance;
-use crate::parsers::{IResult, comma, decimal, identifier, kw, le, lp, op, rp, spaced};
+use crate::parsers::{Error, IResult, comma, decimal, identifier, kw, le, lp, op, rp, spaced};
 use crate::types::parsers::r#type;
 
 use super::{context::Context, print};
@@ -120,11 +121,15 @@ pub fn stmt<'i>(
                         |(_, p, ..)| p
                     )(i)?;
                     let mut exprs = iterator(i, preceded(spaced(comma), spaced(&expr)));
-                    let ps: Vec<_> = fmt_str.into_iter().filter_map(|e| match e {
+                    let ps: Option<Vec<_>> = fmt_str.into_iter().map(|e| match e {
                         FmtStrPart::Literal(s) => Some(P::Literal(s)),
                         FmtStrPart::FormatSpec(f) => (&mut exprs).next().map(|e| P::Value(e, f)),
                     }).collect();
-                    exprs.finish().map(|(i, _)| (i, ps))
+                    let (i, _) = exprs.finish()?;
+                    match ps {
+                        Some(ps) => Ok((i, ps)),
+                        None => Err(nom::Err::Error(Error::from_error_kind(i, ErrorKind::Verify))),
+                    }
                 }),
                 rp,
                 optional_name,
-- 
2.43.0


From ede2304bdb772c647e7f1478f0b812250a2e5aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:50 +0000
Subject: [PATCH 16/23] fix: print a fractional part for integral floating
 point parameters

---
 src/module.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/module.rs b/src/module.rs
index b221804..767429c 100644
--- a/src/module.rs
+++ b/src/module.rs
@@ -308,6 +308,8 @@ impl fmt::Display for ParamValue {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
             Self::Int(v)    => fmt::Display::fmt(v, f),
+            // The fractional part distinguishes a floating point from an integer
+            Self::Double(v) if v.fract() == 0.0 => write!(f, "{:.1}", v),
             Self::Double(v) => fmt::Display::fmt(v, f),
             Self::String(v) => {
                 fmt::Display::fmt(&'"', f)?;
-- 
2.43.0


From b90dae0d0679f3477d219efe76e4eb5f72a48224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:56 +0000
Subject: [PATCH 17/23] fix: print newlines and tabs in infos and string
 parameters as escape sequences

---
 src/info.rs   | 4 ++--
 src/module.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/info.rs b/src/info.rs
index 58afcf1..a41cf13 100644
--- a/src/info.rs
+++ b/src/info.rs
@@ -64,8 +64,8 @@ impl fmt::Display for Info<'_> {
         if let Some(s) = self.0 {
             write!(f, " @[")?;
             s.chars().try_for_each(|c| match c {
-                '\n' => write!(f, "\\\n"),
-                '\t' => write!(f, "\\\t"),
+                '\n' => write!(f, "\\n"),
+                '\t' => write!(f, "\\t"),
                 ']'  => write!(f, "\\]"),
                 '\\' => write!(f, "\\\\"),
                 c    => fmt::Display::fmt(&c, f),
diff --git a/src/module.rs b/src/module.rs
index 767429c..9e0874b 100644
--- a/src/module.rs
+++ b/src/module.rs
@@ -314,8 +314,8 @@ impl fmt::Display for ParamValue {
             Self::String(v) => {
                 fmt::Display::fmt(&'"', f)?;
                 v.chars().try_for_each(|c| match c {
-                    '\n' => write!(f, "\\\n"),
-                    '\t' => write!(f, "\\\t"),
+                    '\n' => write!(f, "\\n"),
+                    '\t' => write!(f, "\\t"),
                     '"'  => write!(f, "\\\""),
                     '\'' => write!(f, "\\'"),
                     '\\' => write!(f, "\\\\"),
-- 
2.43.0


From 4f091b6920c8b23c39f986b5dafecb9f908fce49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:01 +0000
Subject: [PATCH 18/23] fix: do not require whitespace after the arrow of a mem
 entry

---
 src/memory/parsers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memory/parsers.rs b/src/memory/parsers.rs
index b051fb7..c02606b 100644
--- a/src/memory/parsers.rs
+++ b/src/memory/parsers.rs
@@ -186,7 +186,7 @@ fn entry<'i>(input: &'i str) -> IResult<'i, Entry> {
 fn arrow<'i>(input: &'i str) -> IResult<'i, ()> {
     use nom::Parser;
 
-    spaced(kw("=>")).parse(input)
+    spaced(op("=>")).parse(input)
 }
 
 fn ruw<'i>(input: &'i str) -> IResult<'i, super::ReadUnderWrite> {
-- 
2.43.0


From b16a604b668b4a52375fc9d1453cba050d028c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 19/23] fix: accept a last line which is not terminated by a
 line ending

---
 src/circuit/parsers.rs |  5 ++---
 src/parsers.rs         | 18 +++++++++++-------
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/circuit/parsers.rs b/src/circuit/parsers.rs
index 432f430..beb5328 100644
--- a/src/circuit/parsers.rs
+++ b/src/circuit/parsers.rs
@@ -2,8 +2,7 @@
 // SPDX-License-Identifier: Apache-2.0
 //! Parsers for Circuits
 
-use nom::combinator::map;
-use nom::multi::fold_many0;
+use nom::combinator::{map, opt};
 use nom::sequence::tuple;
 
 use crate::error::{ParseError, convert_error};
@@ -28,7 +27,7 @@ pub fn circuit(input: &str) -> Result<Circuit, ParseError> {
 pub fn consumer(input: &str) -> Result<ModuleConsumer<Modules, ParseError>, ParseError> {
     let (mod_input, (top_name, info)) = map(
         tuple((
-            fold_many0(le, Default::default, |_, _| ()),
+            opt(le),
             kw("circuit"),
             spaced(identifier),
             spaced(op(":")),
diff --git a/src/parsers.rs b/src/parsers.rs
index 4461d63..3d1e5a1 100644
--- a/src/parsers.rs
+++ b/src/parsers.rs
@@ -144,16 +144,20 @@ pub fn op<'i>(operator: &'static str) -> impl nom::Parser<&'i str, (), Error<'i>
 /// Parse line endings, skipping preceding whitespace
 ///
 /// This parser consumes line endings, optionally preceded by whitespace and/or
-/// a comment. If no line ending is recognized, this parser will yield an error.
+/// a comment. The end of the input is recognized as the end of the last line.
+/// If no line ending is recognized, this parser will yield an error.
 pub fn le<'i>(input: &'i str) -> IResult<'i, ()> {
     use nom::character::complete::{line_ending, not_line_ending};
-    use nom::combinator::opt;
+    use nom::combinator::{eof, opt};
 
-    nom::multi::fold_many1(
-        spaced(preceded(opt(tuple((chr(';'), not_line_ending))), line_ending)),
-        Default::default,
-        |_, _| ()
-    )(input)
+    let comment = |i| opt(tuple((chr(';'), not_line_ending)))(i);
+
+    let (input, lines) = nom::multi::many0_count(spaced(preceded(comment, line_ending)))(input)?;
+    match spaced(preceded(comment, eof)).parse(input) {
+        Ok((input, _))      => Ok((input, ())),
+        Err(_) if lines > 0 => Ok((input, ())),
+        Err(e)              => Err(e),
+    }
 }
 
 
-- 
2.43.0


From 629f187cd5d753ba86671264964d3f931af37604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:13 +0000
Subject: [PATCH 20/23] fix: report errors following the top module rather than
 silently dropping the input

---
 src/circuit.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/circuit.rs b/src/circuit.rs
index 6d979c4..aa1ab7d 100644
--- a/src/circuit.rs
+++ b/src/circuit.rs
@@ -157,16 +157,12 @@ where I: Iterator<Item = Result<Arc<Module>, E>>,
     }
 
     /// Try to create the requested circuit, consuming the iterator
+    ///
+    /// This function drives the inner iterator to its end. It yields the first
+    /// error encountered, even if the top module was collected already.
     pub fn into_circuit(mut self) -> Result<Circuit, ParseError> {
-        let info = self.info;
-        match self.top_module {
-            TopState::Name(n)   => self
-                .modules
-                .find(|m| m.as_ref().ok().map(|m| m.name_ref() == n).unwrap_or(true))
-                .map(|r| r.map_err(Into::into))
-                .unwrap_or_else(|| Err("top module not found".to_owned().into())),
-            TopState::Module(m) => Ok(m),
-        }.map(|m| Circuit::new(m).with_info(info))
+        self.try_for_each(|r| r.map(|_| ())).map_err(Into::into)?;
+        self.circuit().ok_or_else(|| "top module not found".to_owned().into())
     }
 }
 
-- 
2.43.0


From ff13889058fc0dd863385904df2c85cce690f889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:59 +0000
Subject: [PATCH 21/23] fix: reject floating point parameters exceeding the
 range of representable values

---
 src/module/parsers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/module/parsers.rs b/src/module/parsers.rs
index 4f817d1..9b29a00 100644
--- a/src/module/parsers.rs
+++ b/src/module/parsers.rs
@@ -6,7 +6,7 @@ use std::sync::Arc;
 
 use nom::branch::alt;
 use nom::character::complete::char as chr;
-use nom::combinator::{iterator, map, value};
+use nom::combinator::{iterator, map, value, verify};
 use nom::multi::many0;
 use nom::sequence::tuple;
 
@@ -164,7 +164,7 @@ pub fn param_value(input: &str) -> IResult<super::ParamValue> {
     use super::ParamValue as PV;
 
     alt((
-        map(float, PV::Double),
+        map(verify(float, |v: &f64| v.is_finite()), PV::Double),
         map(decimal, PV::Int),
         map(
             tuple((chr('"'), |i| unquoted_string(i, &['\n', '\t', '"']), chr('"'))),
-- 
2.43.0


From 6db85fc68f6030c0d88ef3adba9c6460c3a9baea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:22 +0000
Subject: [PATCH 22/23] fix: do not yield a module whose body could not be
 parsed completely

---
 src/module/parsers.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/module/parsers.rs b/src/module/parsers.rs
index 9b29a00..8c32c4a 100644
--- a/src/module/parsers.rs
+++ b/src/module/parsers.rs
@@ -6,7 +6,7 @@ use std::sync::Arc;
 
 use nom::branch::alt;
 use nom::character::complete::char as chr;
-use nom::combinator::{iterator, map, value, verify};
+use nom::combinator::{iterator, map, not, value, verify};
 use nom::multi::many0;
 use nom::sequence::tuple;
 
@@ -104,7 +104,8 @@ pub fn module<'i>(
         |(_, kind, name, _, info, ..)| (name.into(), kind, info)
     )(input)?;
 
-    let mut indentation = indentation.sub();
+    let mut nested = indentation.sub();
+    let mut indentation = nested.clone();
 
     let (input, ports) = many0(
         map(tuple((indentation.parser(), port, le)), |(_, p, ..)| Arc::new(p))
@@ -146,6 +147,10 @@ pub fn module<'i>(
         },
     };
 
+    // Any nested line left at this point could not be parsed. The module must not
+    // be considered complete.
+    let (input, _) = not(nested.parser())(input)?;
+
     Ok((input, super::Module::new(name, ports, kind).with_info(info)))
 }
 
-- 
2.43.0


From ebcca36f0ea459a5a4937f4261ac84b489274d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:03 +0000
Subject: [PATCH 23/23] fix: don't panic on syntax errors far into a long line

---
 src/error.rs | 50 +++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 47 insertions(+), 3 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 2dcfdde..d6d886f 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -55,11 +55,55 @@ impl fmt::Display for ParseError {
 
 /// Convert a `nom::Err` into a `ParseError`
 pub(crate) fn convert_error(input: &str, err: nom::Err<parsers::Error>) -> ParseError {
-    use nom::error::convert_error;
-
     match err {
         nom::Err::Incomplete(_) => io::ErrorKind::UnexpectedEof.into(),
-        nom::Err::Error(e) | nom::Err::Failure(e) => convert_error(input, e).into(),
+        nom::Err::Error(e) | nom::Err::Failure(e) => render_error(input, e).into(),
     }
 }
 
+
+/// Render an error trace
+///
+/// The output matches the one of `nom::error::convert_error`, which we can't
+/// use: it positions the caret via a formatting width, which is limited to 16
+/// bit. It would panic for errors far into a long line.
+fn render_error(input: &str, err: parsers::Error) -> String {
+    use nom::Offset;
+    use nom::error::VerboseErrorKind as EK;
+
+    let mut res = String::new();
+
+    for (i, (rest, kind)) in err.errors.into_iter().enumerate() {
+        if input.is_empty() {
+            res += &match kind {
+                EK::Char(c)     => format!("{}: expected '{}', got empty input\n\n", i, c),
+                EK::Context(s)  => format!("{}: in {}, got empty input\n\n", i, s),
+                EK::Nom(e)      => format!("{}: in {:?}, got empty input\n\n", i, e),
+            };
+            continue
+        }
+
+        let prefix = &input[..input.offset(rest)];
+        let line_number = prefix.matches('\n').count() + 1;
+        let line_begin = prefix.rfind('\n').map(|p| p + 1).unwrap_or(0);
+        let line = input[line_begin..].lines().next().unwrap_or("").trim_end();
+        let caret = " ".repeat(prefix.len() - line_begin) + "^";
+
+        res += &match kind {
+            EK::Char(c)     => match rest.chars().next() {
+                Some(actual) => format!(
+                    "{}: at line {}:\n{}\n{}\nexpected '{}', found {}\n\n",
+                    i, line_number, line, caret, c, actual
+                ),
+                None => format!(
+                    "{}: at line {}:\n{}\n{}\nexpected '{}', got end of input\n\n",
+                    i, line_number, line, caret, c
+                ),
+            },
+            EK::Context(s)  => format!("{}: at line {}, in {}:\n{}\n{}\n\n", i, line_number, s, line, caret),
+            EK::Nom(e)      => format!("{}: at line {}, in {:?}:\n{}\n{}\n\n", i, line_number, e, line, caret),
+        };
+    }
+
+    res
+}
-- 
2.43.0

