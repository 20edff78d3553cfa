From ac0851a1197c26cd800fc7fdd9ea98dca8fc8bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:33 +0000
Subject: [PATCH 01/51] fix: match keywords by ASCII case folding only

nom's tag_no_case folds with Unicode rules and slices by the pattern's
byte length, so U+212A or U+0130 in a keyword was accepted or panicked;
the streaming variant in arithmetic.rs returned Incomplete.
---
 src/aggregate.rs       |  3 +--
 src/arithmetic.rs      |  2 +-
 src/call.rs            |  3 +--
 src/clauses.rs         |  4 ++--
 src/data.rs            |  4 ++--
 src/expression/iri.rs  |  2 +-
 src/expression/mod.rs  |  4 ++--
 src/graph.rs           |  4 ++--
 src/group.rs           |  4 ++--
 src/literal.rs         |  4 ++--
 src/operations.rs      |  4 ++--
 src/order.rs           |  2 +-
 src/path.rs            |  2 +-
 src/quads.rs           |  4 ++--
 src/query/ask.rs       |  2 +-
 src/query/construct.rs |  3 +--
 src/query/describe.rs  |  3 +--
 src/query/select.rs    |  4 ++--
 src/terminals.rs       | 11 ++++++++++-
 src/triple.rs          |  2 +-
 src/var.rs             |  4 ++--
 21 files changed, 40 insertions(+), 35 deletions(-)

diff --git a/src/aggregate.rs b/src/aggregate.rs
index 840ebd4..e71fb46 100644
--- a/src/aggregate.rs
+++ b/src/aggregate.rs
@@ -1,11 +1,10 @@
 use crate::{
     expression::{distinct_expression, expression, ArgList, DistinctExpression, Expression, Iri},
     literal::distinct,
-    terminals::{bracketted, preceded_bracketted, preceded_tag, sp, sp1, sp_enc, string_literal},
+    terminals::{bracketted, preceded_bracketted, preceded_tag, sp, sp1, sp_enc, string_literal, tag_no_case},
 };
 use nom::{
     branch::alt,
-    bytes::complete::tag_no_case,
     character::complete::char,
     combinator::{map, opt},
     sequence::{pair, preceded, terminated, tuple},
diff --git a/src/arithmetic.rs b/src/arithmetic.rs
index e3d4afc..1f5cb90 100644
--- a/src/arithmetic.rs
+++ b/src/arithmetic.rs
@@ -5,7 +5,7 @@ use crate::literal::{numeric_literal, NumericLiteral};
 use crate::terminals::{preceded_tag, sp, sp_enc, sp_enc1};
 use nom::branch::alt;
 use nom::bytes::complete::tag;
-use nom::bytes::streaming::tag_no_case;
+use crate::terminals::tag_no_case;
 use nom::combinator::{map, opt};
 use nom::multi::{separated_list, separated_nonempty_list};
 use nom::sequence::{pair, preceded, terminated};
diff --git a/src/call.rs b/src/call.rs
index c9e0c5f..4af9ba5 100644
--- a/src/call.rs
+++ b/src/call.rs
@@ -1,6 +1,5 @@
 use nom::{
     branch::alt,
-    bytes::complete::tag_no_case,
     character::complete::char,
     combinator::{map, opt},
     multi::separated_nonempty_list,
@@ -20,7 +19,7 @@ use crate::{
     },
     graph::{group_graph_pattern, GroupGraphPattern},
     literal::distinct,
-    terminals::{iri, nil, preceded_bracketted, preceded_tag1, sp, sp1, sp_enc, sp_enc1},
+    terminals::{iri, nil, preceded_bracketted, preceded_tag1, sp, sp1, sp_enc, sp_enc1, tag_no_case},
     var::{var, Var},
 };
 
diff --git a/src/clauses.rs b/src/clauses.rs
index b33faad..1cbe9a5 100644
--- a/src/clauses.rs
+++ b/src/clauses.rs
@@ -1,6 +1,6 @@
 use nom::{
     branch::alt,
-    bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
     character::is_digit,
     combinator::map_res,
     combinator::{map, opt},
@@ -19,7 +19,7 @@ use crate::{
     group::{group_clause, GroupClause},
     order::{order_condition, OrderCondition},
     quads::{quads_pattern, Quads},
-    terminals::{default_or_named_iri, preceded_tag1, sp, sp1},
+    terminals::{default_or_named_iri, preceded_tag1, sp, sp1, tag_no_case},
 };
 
 #[derive(Debug, Clone, Eq, PartialEq)]
diff --git a/src/data.rs b/src/data.rs
index 24fc86f..9279e48 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -1,6 +1,6 @@
 use nom::{
     branch::alt,
-    bytes::complete::{tag, tag_no_case},
+    bytes::complete::tag,
     character::complete::char,
     combinator::map,
     multi::{many0, many1, separated_list, separated_nonempty_list},
@@ -12,7 +12,7 @@ use crate::{
     expression::{DefaultOrNamedIri, Iri},
     literal::{boolean, numeric_literal, NumericLiteral},
     node::RdfLiteral,
-    terminals::{bracketted, default_or_named_iri, iri, preceded_tag1, rdf_literal, sp, sp_enc},
+    terminals::{bracketted, default_or_named_iri, iri, preceded_tag1, rdf_literal, sp, sp_enc, tag_no_case},
     var::{var, Var},
 };
 
diff --git a/src/expression/iri.rs b/src/expression/iri.rs
index 62c949e..5f1e65f 100644
--- a/src/expression/iri.rs
+++ b/src/expression/iri.rs
@@ -1,7 +1,7 @@
 use crate::expression::Iri;
 use crate::terminals::iri;
 use nom::branch::alt;
-use nom::bytes::complete::tag_no_case;
+use crate::terminals::tag_no_case;
 use nom::character::complete::char;
 use nom::combinator::map;
 use nom::sequence::preceded;
diff --git a/src/expression/mod.rs b/src/expression/mod.rs
index 867e59d..4db1c3c 100644
--- a/src/expression/mod.rs
+++ b/src/expression/mod.rs
@@ -1,6 +1,6 @@
 use nom::{
     branch::alt,
-    bytes::complete::{tag, tag_no_case},
+    bytes::complete::tag,
     character::complete::char,
     combinator::{map, opt},
     multi::separated_nonempty_list,
@@ -13,7 +13,7 @@ use crate::{
     call::{built_in_call, function_call, BuiltInCall, FunctionCall},
     literal::{boolean, distinct, numeric_literal, NumericLiteral},
     node::RdfLiteral,
-    terminals::{bracketted, iri_or_fun, nil, preceded_tag1, rdf_literal, sp1, sp_enc, sp_enc1},
+    terminals::{bracketted, iri_or_fun, nil, preceded_tag1, rdf_literal, sp1, sp_enc, sp_enc1, tag_no_case},
 };
 
 use crate::var::{var, Var};
diff --git a/src/graph.rs b/src/graph.rs
index 1c3bd80..3ba8e08 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -1,6 +1,6 @@
 use nom::{
     branch::alt,
-    bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
     character::is_digit,
     combinator::map_res,
     combinator::{map, opt},
@@ -23,7 +23,7 @@ use crate::{
     terminals::sp_sep1,
     terminals::{
         anon, default_or_named_iri, iri, nil, pn_chars_tail, pn_chars_u_one, pn_local,
-        preceded_tag1, rdf_literal, sp, sp1, sp_enc, sp_enc1, sp_sep,
+        preceded_tag1, rdf_literal, sp, sp1, sp_enc, sp_enc1, sp_sep, tag_no_case
     },
     triple::{property_list, property_list_not_empty, triples_block, triples_node, TriplesBlock},
     var::{var_or_iri, var_or_term, Var, VarOrIri, VarOrTerm, Verb},
diff --git a/src/group.rs b/src/group.rs
index f759ccc..6265b46 100644
--- a/src/group.rs
+++ b/src/group.rs
@@ -3,7 +3,7 @@ use nom::multi::separated_nonempty_list;
 use nom::sequence::delimited;
 use nom::{
     branch::alt,
-    bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
     character::is_digit,
     combinator::map_res,
     sequence::{preceded, terminated},
@@ -16,7 +16,7 @@ use crate::expression::{
     expression_as_var_opt, DefaultOrNamedIri, ExpressionAsVar, ExpressionAsVarOpt, Iri,
 };
 
-use crate::terminals::{sp, sp1};
+use crate::terminals::{sp, sp1, tag_no_case};
 use crate::var::{var, Var};
 
 #[derive(Debug, Clone, Eq, PartialEq)]
diff --git a/src/literal.rs b/src/literal.rs
index 418fb9c..01eedb9 100644
--- a/src/literal.rs
+++ b/src/literal.rs
@@ -3,7 +3,7 @@ use nom::error::{make_error, ErrorKind};
 use nom::sequence::{pair, tuple};
 use nom::{
     branch::alt,
-    bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
     character::{
         complete::{char, digit1},
         is_digit,
@@ -15,7 +15,7 @@ use nom::{
 };
 
 use crate::arithmetic::Sign;
-use crate::terminals::{language_tag, rdf_literal, string_literal};
+use crate::terminals::{language_tag, rdf_literal, string_literal, tag_no_case};
 
 #[derive(Debug, Clone, Eq, PartialEq)]
 pub enum StringLiteral {
diff --git a/src/operations.rs b/src/operations.rs
index 4d2aff3..30dfd37 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -1,6 +1,6 @@
 use nom::{
     branch::alt,
-    bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
     character::is_digit,
     combinator::map_res,
     combinator::{map, opt},
@@ -19,7 +19,7 @@ use crate::{
     },
     literal::silent,
     quads::{quad_data, Quads},
-    terminals::{iri, preceded_tag1, sp, sp1, sp_enc, sp_enc1},
+    terminals::{iri, preceded_tag1, sp, sp1, sp_enc, sp_enc1, tag_no_case},
 };
 
 #[derive(Debug, Clone, Eq, PartialEq, new)]
diff --git a/src/order.rs b/src/order.rs
index bed59ae..20fba34 100644
--- a/src/order.rs
+++ b/src/order.rs
@@ -1,5 +1,5 @@
 use nom::branch::alt;
-use nom::bytes::complete::tag_no_case;
+use crate::terminals::tag_no_case;
 use nom::combinator::map;
 use nom::sequence::separated_pair;
 use nom::IResult;
diff --git a/src/path.rs b/src/path.rs
index 437a410..f739e82 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -8,7 +8,7 @@ use nom::sequence::{delimited, pair, separated_pair, tuple};
 use nom::Err;
 use nom::{
     branch::alt,
-    bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
     character::is_digit,
     combinator::map_res,
     sequence::{preceded, terminated},
diff --git a/src/quads.rs b/src/quads.rs
index cf30fff..ad96970 100644
--- a/src/quads.rs
+++ b/src/quads.rs
@@ -1,6 +1,6 @@
 use nom::{
     branch::alt,
-    bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
     character::complete::char,
     character::is_digit,
     combinator::map_res,
@@ -16,7 +16,7 @@ use crate::{
     graph::graph_node,
     node::{Collection, ObjectList, PropertyList, TriplesNode},
     path::{triples_same_subject_path, TriplesSameSubjectPath},
-    terminals::{bracketted, sp, sp_enc, sp_sep, sp_sep1},
+    terminals::{bracketted, sp, sp_enc, sp_sep, sp_sep1, tag_no_case},
     triple::{triples_template, TriplesTemplate},
     var::{var_or_iri, var_or_term, VarOrIri, VarOrTerm, VerbList},
 };
diff --git a/src/query/ask.rs b/src/query/ask.rs
index 2802af4..11c4141 100644
--- a/src/query/ask.rs
+++ b/src/query/ask.rs
@@ -2,7 +2,7 @@ use crate::clauses::{solution_modifier, where_clause, SolutionModifier};
 use crate::data::{data_set_clause, DataSetClause};
 use crate::graph::GroupGraphPattern;
 use crate::terminals::{sp, sp1};
-use nom::bytes::complete::tag_no_case;
+use crate::terminals::tag_no_case;
 use nom::combinator::map;
 use nom::multi::separated_list;
 use nom::sequence::{terminated, tuple};
diff --git a/src/query/construct.rs b/src/query/construct.rs
index 1d60b30..e48da14 100644
--- a/src/query/construct.rs
+++ b/src/query/construct.rs
@@ -2,14 +2,13 @@ use crate::{
     clauses::{solution_modifier, where_clause, SolutionModifier},
     data::{data_set_clause, DataSetClause},
     graph::GroupGraphPattern,
-    terminals::{preceded_tag1, sp, sp1, sp_enc, sp_enc1},
+    terminals::{preceded_tag1, sp, sp1, sp_enc, sp_enc1, tag_no_case},
     triple::TriplesSameSubject,
     triple::{triples_same_subject, triples_template, TriplesTemplate},
     var::{var_or_iri, VarOrIri},
 };
 use nom::{
     branch::alt,
-    bytes::complete::tag_no_case,
     character::complete::char,
     combinator::{map, opt},
     multi::many1,
diff --git a/src/query/describe.rs b/src/query/describe.rs
index 88bf066..be2ed94 100644
--- a/src/query/describe.rs
+++ b/src/query/describe.rs
@@ -1,11 +1,10 @@
 use crate::clauses::{solution_modifier, where_clause, SolutionModifier};
 use crate::data::{data_set_clause, DataSetClause};
 use crate::graph::GroupGraphPattern;
-use crate::terminals::{sp, sp_enc1};
+use crate::terminals::{sp, sp_enc1, tag_no_case};
 use crate::var::{var_or_iri, var_or_iris_or_all, VarOrIri, VarOrIrisOrAll};
 use nom::{
     branch::alt,
-    bytes::complete::tag_no_case,
     character::complete::char,
     combinator::{map, opt},
     multi::{separated_list, separated_nonempty_list},
diff --git a/src/query/select.rs b/src/query/select.rs
index f9e1014..575f50d 100644
--- a/src/query/select.rs
+++ b/src/query/select.rs
@@ -1,5 +1,5 @@
 use nom::branch::alt;
-use nom::bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n};
+use nom::bytes::complete::{escaped, tag, take_while1, take_while_m_n};
 use nom::character::complete::{anychar, char, digit1, none_of, one_of};
 use nom::combinator::{complete, cond, cut, map, map_res, not, opt, peek};
 use nom::multi::{many1, separated_list};
@@ -13,7 +13,7 @@ use crate::expression::{
 };
 use crate::graph::GroupGraphPattern;
 
-use crate::terminals::{sp, sp1, sp_enc};
+use crate::terminals::{sp, sp1, sp_enc, tag_no_case};
 use crate::var::{var, var_or_expression_as_var, VarOrExpressionAsVar};
 
 #[derive(Debug, Clone, Eq, PartialEq)]
diff --git a/src/terminals.rs b/src/terminals.rs
index 43bcfc0..8e0f466 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -1,7 +1,7 @@
 use nom::{
     branch::alt,
     bytes::complete::take_while,
-    bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
     character::complete::{anychar, char, digit1, none_of, one_of},
     character::{
         complete::{alpha1, alphanumeric1},
@@ -29,6 +29,15 @@ use crate::{
     var::{Var, VarOrIri, VarOrTerm, VerbList},
 };
 
+/// Recognizes `tag` ignoring the case of ASCII letters only.
+#[inline]
+pub(crate) fn tag_no_case<'a>(tag: &'a str) -> impl Fn(&'a str) -> IResult<&'a str, &'a str> {
+    move |i: &'a str| match i.get(..tag.len()) {
+        Some(s) if s.eq_ignore_ascii_case(tag) => Ok((&i[tag.len()..], s)),
+        _ => Err(Err::Error((i, ErrorKind::Tag))),
+    }
+}
+
 #[inline]
 pub(crate) fn preceded_bracketted<'a, O1, F>(
     tag: &'a str,
diff --git a/src/triple.rs b/src/triple.rs
index 7ce8f5e..9cbbca6 100644
--- a/src/triple.rs
+++ b/src/triple.rs
@@ -1,6 +1,6 @@
 use nom::{
     branch::alt,
-    bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
     character::complete::char,
     character::is_digit,
     combinator::map_res,
diff --git a/src/var.rs b/src/var.rs
index 432c2c5..e77dd5f 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -1,10 +1,10 @@
 use crate::expression::{expression_as_var, ExpressionAsVar, Iri};
 use crate::graph::{graph_term, GraphTerm};
 use crate::node::ObjectList;
-use crate::terminals::{iri, is_pn_chars_u, sp};
+use crate::terminals::{iri, is_pn_chars_u, sp, tag_no_case};
 use nom::branch::alt;
 use nom::bytes::complete::take_while;
-use nom::bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n};
+use nom::bytes::complete::{escaped, tag, take_while1, take_while_m_n};
 use nom::character::complete::{anychar, char, digit1, none_of, one_of};
 use nom::combinator::recognize;
 use nom::combinator::{complete, cond, cut, map, map_res, not, opt, peek};
-- 
2.43.0


From 5548b6f6ad5a0cf34bb64108fe8233a12f0dc987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:56 +0000
Subject: [PATCH 02/51] fix: do not truncate characters to a byte when
 classifying them

U+0141 passed as 'A' and U+0130 as '0' in names, labels and LIMIT/OFFSET
(where the number then failed to parse).
---
 src/clauses.rs   | 4 ++--
 src/graph.rs     | 4 ++--
 src/terminals.rs | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/clauses.rs b/src/clauses.rs
index 1cbe9a5..12b694e 100644
--- a/src/clauses.rs
+++ b/src/clauses.rs
@@ -7,7 +7,7 @@ use nom::{
     multi::separated_nonempty_list,
     sequence::{delimited, separated_pair, tuple},
     sequence::{preceded, terminated},
-    IResult,
+    AsChar, IResult,
 };
 
 use crate::expression::functions::{constraint, Constraint};
@@ -120,7 +120,7 @@ where
     F: Fn(&'a str) -> IResult<&'a str, &'a str>,
 {
     map_res(
-        preceded(terminated(pat, sp), take_while1(|c| is_digit(c as u8))),
+        preceded(terminated(pat, sp), take_while1(|c: char| c.is_dec_digit())),
         |s| s.parse::<u64>(),
     )
 }
diff --git a/src/graph.rs b/src/graph.rs
index 3ba8e08..7043333 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -6,7 +6,7 @@ use nom::{
     combinator::{map, opt},
     sequence::separated_pair,
     sequence::{delimited, pair, preceded, terminated},
-    IResult,
+    AsChar, IResult,
 };
 
 use crate::expression::functions::{filter, Constraint};
@@ -265,7 +265,7 @@ pub(crate) fn blank_node(i: &str) -> IResult<&str, BlankNode> {
             sp_sep(
                 tag("_:"),
                 recognize(pair(
-                    alt((pn_chars_u_one, take_while_m_n(1, 1, |c| is_digit(c as u8)))),
+                    alt((pn_chars_u_one, take_while_m_n(1, 1, |c: char| c.is_dec_digit()))),
                     pn_chars_tail,
                 )),
             ),
diff --git a/src/terminals.rs b/src/terminals.rs
index 8e0f466..e6b6da6 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -304,7 +304,7 @@ pub(crate) fn pn_local(i: &str) -> IResult<&str, &str> {
         alt((
             pn_chars_u_one,
             tag(":"),
-            take_while_m_n(1, 1, |c| is_digit(c as u8)),
+            take_while_m_n(1, 1, |c: char| c.is_dec_digit()),
             plx,
         )),
         recognize(pair(
@@ -370,7 +370,7 @@ pub(crate) fn is_illegal_char_lit_2(c: char) -> bool {
 
 #[inline]
 pub(crate) fn is_pn_chars_base(i: char) -> bool {
-    is_alphabetic(i as u8) || is_unicode(i)
+    i.is_ascii_alphabetic() || is_unicode(i)
 }
 
 #[inline]
-- 
2.43.0


From f8b7668a9a62944822467ff3cf6545a52df8c974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:57 +0000
Subject: [PATCH 03/51] fix: accept every non-control character in an IRI
 reference

The test looked at the low byte only and refused e.g. U+4E00 or U+0100.
---
 src/terminals.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/terminals.rs b/src/terminals.rs
index e6b6da6..6d99a5f 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -234,7 +234,7 @@ pub(crate) fn iri_ref(i: &str) -> IResult<&str, &str> {
             if chrs.contains(c) {
                 false
             } else {
-                c as u8 > 0x20
+                c > '\u{20}'
             }
         }),
         tag(">"),
-- 
2.43.0


From b9cdd27d66213d75855132cce56eba21cc61b2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:58 +0000
Subject: [PATCH 04/51] fix: complete the character classes of names

U+10000..EFFFF (PN_CHARS_BASE) and the extenders U+B7, U+300..36F and
U+203F..2040 (PN_CHARS, VARNAME) were missing.
---
 src/terminals.rs | 12 +++++++++++-
 src/var.rs       |  5 ++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/terminals.rs b/src/terminals.rs
index 6d99a5f..0756cf5 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -347,6 +347,7 @@ pub(crate) fn is_unicode(c: char) -> bool {
         '\u{3001}'..='\u{D7FF}' => true,
         '\u{F900}'..='\u{FDCF}' => true,
         '\u{FDF0}'..='\u{FFFD}' => true,
+        '\u{10000}'..='\u{EFFFF}' => true,
         _ => false,
     }
 }
@@ -400,7 +401,16 @@ pub(crate) fn pn_chars_u1(i: &str) -> IResult<&str, &str> {
 
 #[inline]
 pub(crate) fn is_pn_char(i: char) -> bool {
-    is_pn_chars_u(i) || i == '-' || i.is_dec_digit()
+    is_pn_chars_u(i) || i == '-' || i.is_dec_digit() || is_name_extender(i)
+}
+
+/// the characters that SPARQL allows in names but not as their first character
+#[inline]
+pub(crate) fn is_name_extender(i: char) -> bool {
+    match i {
+        '\u{00B7}' | '\u{0300}'..='\u{036F}' | '\u{203F}'..='\u{2040}' => true,
+        _ => false,
+    }
 }
 
 #[inline]
diff --git a/src/var.rs b/src/var.rs
index e77dd5f..2b4fff6 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -1,7 +1,7 @@
 use crate::expression::{expression_as_var, ExpressionAsVar, Iri};
 use crate::graph::{graph_term, GraphTerm};
 use crate::node::ObjectList;
-use crate::terminals::{iri, is_pn_chars_u, sp, tag_no_case};
+use crate::terminals::{iri, is_name_extender, is_pn_chars_u, sp, tag_no_case};
 use nom::branch::alt;
 use nom::bytes::complete::take_while;
 use nom::bytes::complete::{escaped, tag, take_while1, take_while_m_n};
@@ -100,11 +100,10 @@ pub(crate) fn var_or_expression_as_var(i: &str) -> IResult<&str, VarOrExpression
     ))(i)
 }
 
-// TODO consider unicode cases in second
 pub(crate) fn var_name(i: &str) -> IResult<&str, &str> {
     recognize(pair(
         take_while_m_n(1, 1, |c| is_pn_chars_u(c) || c.is_dec_digit()),
-        take_while(|c| is_pn_chars_u(c) || c.is_dec_digit()),
+        take_while(|c| is_pn_chars_u(c) || c.is_dec_digit() || is_name_extender(c)),
     ))(i)
 }
 
-- 
2.43.0


From 06b86fb9da3905f97de15a9081e7fcb478eac51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:14 +0000
Subject: [PATCH 05/51] fix: a trailing dot is not part of a name

One-character local names were refused, and a dot that ends a statement
was swallowed by a one-character prefix or label.
---
 src/terminals.rs | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/terminals.rs b/src/terminals.rs
index 0756cf5..20794c7 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -275,10 +275,7 @@ pub(crate) fn iri_or_fun(i: &str) -> IResult<&str, IriOrFunction> {
 #[inline]
 pub(crate) fn pn_chars_tail(i: &str) -> IResult<&str, &str> {
     // ((PN_CHARS|'.')* PN_CHARS)?
-    recognize(pair(
-        opt(take_while1(|c| c == '.')),
-        separated_list(take_while1(|c| c == '.'), pn_chars1),
-    ))(i)
+    recognize(many0(preceded(take_while(|c| c == '.'), pn_chars1)))(i)
 }
 
 fn from_hex(input: &str) -> Result<u8, std::num::ParseIntError> {
@@ -307,13 +304,10 @@ pub(crate) fn pn_local(i: &str) -> IResult<&str, &str> {
             take_while_m_n(1, 1, |c: char| c.is_dec_digit()),
             plx,
         )),
-        recognize(pair(
-            opt(take_while1(|c| c == '.')),
-            separated_list(
-                take_while1(|c| c == '.'),
-                many0(alt((take_while1(|c| is_pn_char(c) || c == ':'), plx))),
-            ),
-        )),
+        recognize(many0(preceded(
+            take_while(|c| c == '.'),
+            many1(alt((take_while1(|c| is_pn_char(c) || c == ':'), plx))),
+        ))),
     ))(i)
 }
 
-- 
2.43.0


From d4bdecf663036b606b980228d57eb6773ed54cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:15 +0000
Subject: [PATCH 06/51] fix: no whitespace inside prefixed names

---
 src/terminals.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/terminals.rs b/src/terminals.rs
index 20794c7..8bb363a 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -316,11 +316,11 @@ pub(crate) fn pn_prefix(i: &str) -> IResult<&str, &str> {
 }
 
 pub(crate) fn pname_ns(i: &str) -> IResult<&str, Option<String>> {
-    terminated(opt(map(pn_prefix, String::from)), preceded(sp, char(':')))(i)
+    terminated(opt(map(pn_prefix, String::from)), char(':'))(i)
 }
 
 pub(crate) fn pname_ln(i: &str) -> IResult<&str, (Option<String>, String)> {
-    pair(pname_ns, preceded(sp, map(pn_local, String::from)))(i)
+    pair(pname_ns, map(pn_local, String::from))(i)
 }
 
 #[inline]
-- 
2.43.0


From 55084981abe3241c88fd1825e7fe8fbc9dd7f775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:33 +0000
Subject: [PATCH 07/51] fix: no whitespace inside variables and blank node
 labels

---
 src/graph.rs | 2 +-
 src/var.rs   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/graph.rs b/src/graph.rs
index 7043333..ffb2109 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -262,7 +262,7 @@ pub(crate) fn graph_term(i: &str) -> IResult<&str, GraphTerm> {
 pub(crate) fn blank_node(i: &str) -> IResult<&str, BlankNode> {
     alt((
         map(
-            sp_sep(
+            pair(
                 tag("_:"),
                 recognize(pair(
                     alt((pn_chars_u_one, take_while_m_n(1, 1, |c: char| c.is_dec_digit()))),
diff --git a/src/var.rs b/src/var.rs
index 2b4fff6..c4ba839 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -73,11 +73,11 @@ pub(crate) fn var_or_term(i: &str) -> IResult<&str, VarOrTerm> {
 pub(crate) fn var(i: &str) -> IResult<&str, Var> {
     alt((
         map(
-            preceded(char('?'), preceded(sp, map(var_name, String::from))),
+            preceded(char('?'), map(var_name, String::from)),
             Var::QMark,
         ),
         map(
-            preceded(char('$'), preceded(sp, map(var_name, String::from))),
+            preceded(char('$'), map(var_name, String::from)),
             Var::Dollar,
         ),
     ))(i)
-- 
2.43.0


From 8b203a21c684c244db0443c8f376c57d4b57ba36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:34 +0000
Subject: [PATCH 08/51] fix: an opening parenthesis need not be NIL

The cut made every non-empty argument list, expression list and
collection after an opening parenthesis an unrecoverable failure.
---
 src/terminals.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/terminals.rs b/src/terminals.rs
index 8bb363a..6954df7 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -422,7 +422,7 @@ pub(crate) fn anon(i: &str) -> IResult<&str, &str> {
 }
 
 pub(crate) fn nil(i: &str) -> IResult<&str, &str> {
-    preceded(char('('), cut(terminated(sp, char(')'))))(i)
+    preceded(char('('), terminated(sp, char(')')))(i)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 6e73caab7d50c464d75ebe12b6ff42cabbe72a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:35 +0000
Subject: [PATCH 09/51] fix: an opening bracket need not be ANON

blank_node failed for good on `[ :p :o ]`, so blank node property lists
were never tried as objects or path subjects.
---
 src/graph.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/graph.rs b/src/graph.rs
index ffb2109..cbf0525 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -3,7 +3,7 @@ use nom::{
     bytes::complete::{escaped, tag, take_while1, take_while_m_n},
     character::is_digit,
     combinator::map_res,
-    combinator::{map, opt},
+    combinator::{map, opt, peek},
     sequence::separated_pair,
     sequence::{delimited, pair, preceded, terminated},
     AsChar, IResult,
@@ -271,7 +271,11 @@ pub(crate) fn blank_node(i: &str) -> IResult<&str, BlankNode> {
             ),
             |(_, label)| BlankNode::Label(label.to_string()),
         ),
-        map(anon, |_| BlankNode::Anon),
+        // `[` may also open a property list, which the caller tries next
+        preceded(
+            peek(preceded(char('['), preceded(sp, char(']')))),
+            map(anon, |_| BlankNode::Anon),
+        ),
     ))(i)
 }
 
-- 
2.43.0


From 287f921803892e7b78a18c3a26b6c3390559e08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:37 +0000
Subject: [PATCH 10/51] fix: a comment may end with the text instead of a line
 end

---
 src/terminals.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/terminals.rs b/src/terminals.rs
index 6954df7..ececdc0 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -81,19 +81,23 @@ where
 
 #[inline]
 pub(crate) fn sp(i: &str) -> IResult<&str, &str> {
-    recognize(many0(alt((recognize(one_of(" \t")), new_line))))(i)
+    recognize(pair(
+        many0(alt((recognize(one_of(" \t")), new_line))),
+        opt(comment),
+    ))(i)
 }
 
 #[inline]
 pub(crate) fn sp1(i: &str) -> IResult<&str, &str> {
-    recognize(many1(alt((recognize(one_of(" \t")), new_line))))(i)
+    recognize(pair(alt((recognize(one_of(" \t")), new_line, comment)), sp))(i)
 }
 
 pub(crate) fn new_line(i: &str) -> IResult<&str, &str> {
-    recognize(pair(
-        opt(preceded(char('#'), many0(none_of("\n\r")))),
-        one_of("\r\n"),
-    ))(i)
+    recognize(pair(opt(comment), one_of("\r\n")))(i)
+}
+
+fn comment(i: &str) -> IResult<&str, &str> {
+    recognize(preceded(char('#'), many0(none_of("\n\r"))))(i)
 }
 
 #[inline]
-- 
2.43.0


From 471c061e374695c9b41d5de9449649ee8dd72d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:06 +0000
Subject: [PATCH 11/51] fix: a string literal may be empty

---
 src/terminals.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/terminals.rs b/src/terminals.rs
index ececdc0..453cab6 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -149,12 +149,12 @@ pub(crate) fn string_literal(i: &str) -> IResult<&str, &str> {
     alt((
         delimited(
             tag("'"),
-            escaped(none_of("'\\"), '\\', one_of(r#""tbnrf\'"#)),
+            recognize(opt(escaped(none_of("'\\"), '\\', one_of(r#""tbnrf\'"#)))),
             tag("'"),
         ),
         delimited(
             tag("\""),
-            escaped(none_of("\"\\"), '\\', one_of(r#""tbnrf\'"#)),
+            recognize(opt(escaped(none_of("\"\\"), '\\', one_of(r#""tbnrf\'"#)))),
             tag("\""),
         ),
     ))(i)
-- 
2.43.0


From a87a7be7b698f8e9ebee92c92491f24764ea516d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:07 +0000
Subject: [PATCH 12/51] fix: support string literals in tripled quotes

---
 src/terminals.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/terminals.rs b/src/terminals.rs
index 453cab6..98e45be 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -144,9 +144,31 @@ pub(crate) fn string_content(i: &str) -> IResult<&str, &str> {
     escaped(none_of("'\"\\"), '\\', one_of(r#""tbnrf\'"#))(i)
 }
 
+/// a string between tripled quotes, which may contain up to two quotes in a row
+fn long_string<'a>(
+    quote: &'static str,
+    two: &'static str,
+    three: &'static str,
+    special: &'static str,
+) -> impl Fn(&'a str) -> IResult<&'a str, &'a str> {
+    delimited(
+        tag(three),
+        recognize(many0(preceded(
+            opt(alt((tag(two), tag(quote)))),
+            alt((
+                recognize(none_of(special)),
+                recognize(pair(char('\\'), one_of(r#""tbnrf\'"#))),
+            )),
+        ))),
+        tag(three),
+    )
+}
+
 /// https://www.w3.org/TR/rdf-sparql-query/#QSynLiterals
 pub(crate) fn string_literal(i: &str) -> IResult<&str, &str> {
     alt((
+        long_string("'", "''", "'''", "'\\"),
+        long_string("\"", "\"\"", "\"\"\"", "\"\\"),
         delimited(
             tag("'"),
             recognize(opt(escaped(none_of("'\\"), '\\', one_of(r#""tbnrf\'"#)))),
-- 
2.43.0


From b1d58df80856c11ff99410d8c9f7534d19f48d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:08 +0000
Subject: [PATCH 13/51] fix: allow layout before and after the descriptor of a
 literal

---
 src/terminals.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/terminals.rs b/src/terminals.rs
index 98e45be..751bb1e 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -186,13 +186,19 @@ pub(crate) fn rdf_literal(i: &str) -> IResult<&str, RdfLiteral> {
     map(
         pair(
             map(string_literal, String::from),
-            opt(alt((
-                map(
-                    map(language_tag, String::from),
-                    RdfLiteralDescriptor::LangTag,
-                ),
-                map(preceded(tag("^^"), iri), RdfLiteralDescriptor::IriRef),
-            ))),
+            opt(preceded(
+                sp,
+                alt((
+                    map(
+                        map(language_tag, String::from),
+                        RdfLiteralDescriptor::LangTag,
+                    ),
+                    map(
+                        preceded(terminated(tag("^^"), sp), iri),
+                        RdfLiteralDescriptor::IriRef,
+                    ),
+                )),
+            )),
         ),
         |(literal, descriptor)| RdfLiteral {
             literal,
-- 
2.43.0


From 7f7fe37866452eda01d8f8af40256ef96a871e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:09 +0000
Subject: [PATCH 14/51] fix: allow layout just inside parentheses

---
 src/terminals.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/terminals.rs b/src/terminals.rs
index 751bb1e..4f1d2a6 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -54,7 +54,7 @@ pub(crate) fn bracketted<'a, O1, F>(pat: F) -> impl Fn(&'a str) -> IResult<&'a s
 where
     F: Fn(&'a str) -> IResult<&'a str, O1>,
 {
-    delimited(char('('), pat, char(')'))
+    delimited(pair(char('('), sp), pat, pair(sp, char(')')))
 }
 
 #[inline]
-- 
2.43.0


From 5595721f70174d37c4b0e08029c5c575073d2d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:42 +0000
Subject: [PATCH 15/51] fix: recognize keywords only as whole words

Names that start with a keyword (ask:x, named:g, silent:g, true:x) were
split after the keyword.
---
 src/terminals.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/terminals.rs b/src/terminals.rs
index 4f1d2a6..a7fb71c 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -30,14 +30,26 @@ use crate::{
 };
 
 /// Recognizes `tag` ignoring the case of ASCII letters only.
+/// A word is recognized only as a whole, not as the beginning of a longer word or name.
 #[inline]
 pub(crate) fn tag_no_case<'a>(tag: &'a str) -> impl Fn(&'a str) -> IResult<&'a str, &'a str> {
     move |i: &'a str| match i.get(..tag.len()) {
-        Some(s) if s.eq_ignore_ascii_case(tag) => Ok((&i[tag.len()..], s)),
+        Some(s) if s.eq_ignore_ascii_case(tag) && !(is_word(tag) && is_name_part(i, tag)) => {
+            Ok((&i[tag.len()..], s))
+        }
         _ => Err(Err::Error((i, ErrorKind::Tag))),
     }
 }
 
+fn is_word(tag: &str) -> bool {
+    tag.ends_with(|c: char| c.is_ascii_alphanumeric())
+}
+
+/// whether the word that `i` starts with goes on after `tag`, or is the prefix of a name
+fn is_name_part(i: &str, tag: &str) -> bool {
+    i[tag.len()..].starts_with(is_pn_char) || pname_ns(i).is_ok()
+}
+
 #[inline]
 pub(crate) fn preceded_bracketted<'a, O1, F>(
     tag: &'a str,
-- 
2.43.0


From 676588079056dc13d62115c4b8ca6c81e027e86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:43 +0000
Subject: [PATCH 16/51] fix: the predicate keyword a is lower case and a whole
 word

---
 src/expression/iri.rs | 5 ++---
 src/path.rs           | 4 ++--
 src/terminals.rs      | 5 +++++
 src/var.rs            | 4 ++--
 4 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/expression/iri.rs b/src/expression/iri.rs
index 5f1e65f..e8bf262 100644
--- a/src/expression/iri.rs
+++ b/src/expression/iri.rs
@@ -1,7 +1,6 @@
 use crate::expression::Iri;
-use crate::terminals::iri;
+use crate::terminals::{iri, keyword_a};
 use nom::branch::alt;
-use crate::terminals::tag_no_case;
 use nom::character::complete::char;
 use nom::combinator::map;
 use nom::sequence::preceded;
@@ -20,7 +19,7 @@ pub enum IriOrA {
 }
 
 pub(crate) fn iri_or_a(i: &str) -> IResult<&str, IriOrA> {
-    alt((map(iri, IriOrA::Iri), map(tag_no_case("a"), |_| IriOrA::A)))(i)
+    alt((map(iri, IriOrA::Iri), map(keyword_a, |_| IriOrA::A)))(i)
 }
 
 pub(crate) fn iri_or_a_or_caret(i: &str) -> IResult<&str, IriOrAOrCaret> {
diff --git a/src/path.rs b/src/path.rs
index f739e82..ce6f25a 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -18,7 +18,7 @@ use nom::{
 use crate::expression::iri::{iri_or_a_or_caret, IriOrAOrCaret};
 use crate::expression::Iri;
 use crate::node::ObjectList;
-use crate::terminals::{anon, iri, nil, pn_local, rdf_literal, sp, sp1, sp_enc, sp_sep, sp_sep1};
+use crate::terminals::{anon, iri, keyword_a, nil, pn_local, rdf_literal, sp, sp1, sp_enc, sp_sep, sp_sep1};
 use crate::triple::object_list;
 use crate::var::{var, var_or_term, Var, VarOrTerm};
 
@@ -229,7 +229,7 @@ pub(crate) fn path_sequence(i: &str) -> IResult<&str, PathSequence> {
 pub(crate) fn path_primary(i: &str) -> IResult<&str, PathPrimary> {
     alt((
         map(iri, PathPrimary::Iri),
-        map(tag("a"), |_| PathPrimary::A),
+        map(keyword_a, |_| PathPrimary::A),
         map(
             preceded(tag("!"), path_negated_property_set),
             PathPrimary::PathNegatedPropertySet,
diff --git a/src/terminals.rs b/src/terminals.rs
index a7fb71c..9f65d0a 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -461,6 +461,11 @@ pub(crate) fn pn_chars1(i: &str) -> IResult<&str, &str> {
     take_while1(is_pn_char)(i)
 }
 
+/// the predicate keyword `a`, the only keyword that is case sensitive
+pub(crate) fn keyword_a(i: &str) -> IResult<&str, &str> {
+    preceded(peek(tag("a")), tag_no_case("a"))(i)
+}
+
 pub(crate) fn anon(i: &str) -> IResult<&str, &str> {
     preceded(char('['), cut(terminated(sp, char(']'))))(i)
 }
diff --git a/src/var.rs b/src/var.rs
index c4ba839..ef93405 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -1,7 +1,7 @@
 use crate::expression::{expression_as_var, ExpressionAsVar, Iri};
 use crate::graph::{graph_term, GraphTerm};
 use crate::node::ObjectList;
-use crate::terminals::{iri, is_name_extender, is_pn_chars_u, sp, tag_no_case};
+use crate::terminals::{iri, is_name_extender, is_pn_chars_u, keyword_a, sp};
 use nom::branch::alt;
 use nom::bytes::complete::take_while;
 use nom::bytes::complete::{escaped, tag, take_while1, take_while_m_n};
@@ -62,7 +62,7 @@ pub(crate) fn var_or_iri(i: &str) -> IResult<&str, VarOrIri> {
 pub(crate) fn verb(i: &str) -> IResult<&str, Verb> {
     alt((
         map(var_or_iri, Verb::VarOrIri),
-        map(tag_no_case("a"), |_| Verb::A),
+        map(keyword_a, |_| Verb::A),
     ))(i)
 }
 
-- 
2.43.0


From 18470fe202cee2f89486d0bf94e0b98a03b12814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:45 +0000
Subject: [PATCH 17/51] fix: no layout is needed between a keyword and
 punctuation

FILTER(...), BIND(...), VALUES(...), OPTIONAL{...}, FROM<...> and the like
were refused; that the keyword ends there is checked by tag_no_case.
---
 src/terminals.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/terminals.rs b/src/terminals.rs
index 9f65d0a..8566d30 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -77,7 +77,7 @@ pub(crate) fn preceded_tag1<'a, O1, F>(
 where
     F: Fn(&'a str) -> IResult<&'a str, O1>,
 {
-    preceded(terminated(tag_no_case(tag), sp1), pat)
+    preceded(terminated(tag_no_case(tag), sp), pat)
 }
 
 #[inline]
-- 
2.43.0


From 035bcc168c6bf39b23a5a363c5cf98e8d4d6223d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:00 +0000
Subject: [PATCH 18/51] fix: no layout is needed around the IRI of a
 declaration

Leading layout before the first declaration is accepted too.
---
 src/terminals.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/terminals.rs b/src/terminals.rs
index 8566d30..7921013 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -243,7 +243,7 @@ pub(crate) fn prefixed_name(i: &str) -> IResult<&str, PrefixedName> {
 }
 
 pub(crate) fn base_decl(i: &str) -> IResult<&str, &str> {
-    preceded(terminated(tag_no_case("base"), sp1), iri_ref)(i)
+    preceded(terminated(tag_no_case("base"), sp), iri_ref)(i)
 }
 
 pub(crate) fn prefix_decl(i: &str) -> IResult<&str, PrefixDecl> {
@@ -259,13 +259,13 @@ pub(crate) fn prefix_decl(i: &str) -> IResult<&str, PrefixDecl> {
 
 pub(crate) fn prologue(i: &str) -> IResult<&str, Prologue> {
     map(
-        separated_list(
-            sp1,
+        many0(preceded(
+            sp,
             alt((
                 map(base_decl, |s| BaseOrPrefixDecl::Base(s.to_string())),
                 map(prefix_decl, BaseOrPrefixDecl::Prefix),
             )),
-        ),
+        )),
         Prologue,
     )(i)
 }
-- 
2.43.0


From b4d5d33af25999d0daa427898316910609d1897a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:02 +0000
Subject: [PATCH 19/51] fix: a function IRI may be followed directly by its
 arguments

---
 src/terminals.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/terminals.rs b/src/terminals.rs
index 7921013..4c193ff 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -311,7 +311,7 @@ pub(crate) fn iri(i: &str) -> IResult<&str, Iri> {
 
 pub(crate) fn iri_or_fun(i: &str) -> IResult<&str, IriOrFunction> {
     map(
-        pair(iri, opt(preceded(sp1, arg_list))),
+        pair(iri, opt(preceded(sp, arg_list))),
         |(iri, arg_list)| IriOrFunction { iri, arg_list },
     )(i)
 }
-- 
2.43.0


From e4716d779f0966bd8e852bd45b4834922ea0070d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:37 +0000
Subject: [PATCH 20/51] fix: operators after the first operand are parsed

separated_list(sp, ..) fails as soon as its separator matches the empty
string, so no additive or multiplicative expression with two operands and
not even the list of operators after an operand was parsed. The lists'
closing parentheses now allow layout themselves.
---
 src/arithmetic.rs     | 8 ++++----
 src/call.rs           | 2 +-
 src/expression/mod.rs | 6 +++---
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/arithmetic.rs b/src/arithmetic.rs
index 1f5cb90..87b52b4 100644
--- a/src/arithmetic.rs
+++ b/src/arithmetic.rs
@@ -7,7 +7,7 @@ use nom::branch::alt;
 use nom::bytes::complete::tag;
 use crate::terminals::tag_no_case;
 use nom::combinator::{map, opt};
-use nom::multi::{separated_list, separated_nonempty_list};
+use nom::multi::{many0, separated_nonempty_list};
 use nom::sequence::{pair, preceded, terminated};
 use nom::IResult;
 
@@ -120,7 +120,7 @@ pub(crate) fn additive_expression(i: &str) -> IResult<&str, AdditiveExpression>
     map(
         pair(
             multiplicative_expression,
-            preceded(sp, separated_list(sp, add_expression)),
+            many0(preceded(sp, add_expression)),
         ),
         |(lhs, rhs)| AdditiveExpression { lhs, rhs },
     )(i)
@@ -139,7 +139,7 @@ pub(crate) fn add_expression(i: &str) -> IResult<&str, AddExpression> {
         map(
             pair(
                 numeric_literal,
-                preceded(sp, separated_list(sp, mult_expression)),
+                many0(preceded(sp, mult_expression)),
             ),
             |(numeric, expressions)| AddExpression::Numeric {
                 numeric,
@@ -153,7 +153,7 @@ pub(crate) fn multiplicative_expression(i: &str) -> IResult<&str, Multiplicative
     map(
         pair(
             unary_expression,
-            preceded(sp, separated_list(sp, mult_expression)),
+            many0(preceded(sp, mult_expression)),
         ),
         |(lhs, rhs)| MultiplicativeExpression { lhs, rhs },
     )(i)
diff --git a/src/call.rs b/src/call.rs
index 4af9ba5..98410d7 100644
--- a/src/call.rs
+++ b/src/call.rs
@@ -302,7 +302,7 @@ pub(crate) fn arg_list(i: &str) -> IResult<&str, ArgList> {
                     map(opt(terminated(distinct, sp1)), Option::unwrap_or_default),
                     separated_nonempty_list(sp_enc(char(',')), expression),
                 )),
-                char(')'),
+                preceded(sp, char(')')),
             ),
             |(distinct, expressions)| ArgList::Expression {
                 distinct,
diff --git a/src/expression/mod.rs b/src/expression/mod.rs
index 4db1c3c..a0edf47 100644
--- a/src/expression/mod.rs
+++ b/src/expression/mod.rs
@@ -13,7 +13,7 @@ use crate::{
     call::{built_in_call, function_call, BuiltInCall, FunctionCall},
     literal::{boolean, distinct, numeric_literal, NumericLiteral},
     node::RdfLiteral,
-    terminals::{bracketted, iri_or_fun, nil, preceded_tag1, rdf_literal, sp1, sp_enc, sp_enc1, tag_no_case},
+    terminals::{bracketted, iri_or_fun, nil, preceded_tag1, rdf_literal, sp, sp1, sp_enc, sp_enc1, tag_no_case},
 };
 
 use crate::var::{var, Var};
@@ -169,9 +169,9 @@ pub(crate) fn expression_list(i: &str) -> IResult<&str, ExpressionList> {
         map(nil, |_| ExpressionList::Nil),
         map(
             delimited(
-                char('('),
+                terminated(char('('), sp),
                 separated_nonempty_list(sp_enc(char(',')), expression),
-                char(')'),
+                preceded(sp, char(')')),
             ),
             ExpressionList::List,
         ),
-- 
2.43.0


From 6df73b7423a51bfeda86084d2f210c934ba49c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:38 +0000
Subject: [PATCH 21/51] fix: only a signed number is an operand without
 operator

`?x 2` parsed as an addition, and `?x +2` never as the signed number that
the grammar makes of it.
---
 src/arithmetic.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/arithmetic.rs b/src/arithmetic.rs
index 87b52b4..bbb9079 100644
--- a/src/arithmetic.rs
+++ b/src/arithmetic.rs
@@ -1,12 +1,12 @@
 use std::{fmt, str::FromStr};
 
 use crate::expression::{expression_list, primary_expression, ExpressionList, PrimaryExpression};
-use crate::literal::{numeric_literal, NumericLiteral};
+use crate::literal::{numeric_literal, sign, NumericLiteral};
 use crate::terminals::{preceded_tag, sp, sp_enc, sp_enc1};
 use nom::branch::alt;
 use nom::bytes::complete::tag;
 use crate::terminals::tag_no_case;
-use nom::combinator::{map, opt};
+use nom::combinator::{map, opt, peek};
 use nom::multi::{many0, separated_nonempty_list};
 use nom::sequence::{pair, preceded, terminated};
 use nom::IResult;
@@ -128,17 +128,9 @@ pub(crate) fn additive_expression(i: &str) -> IResult<&str, AdditiveExpression>
 
 pub(crate) fn add_expression(i: &str) -> IResult<&str, AddExpression> {
     alt((
-        map(
-            preceded_tag("+", multiplicative_expression),
-            AddExpression::Add,
-        ),
-        map(
-            preceded_tag("-", multiplicative_expression),
-            AddExpression::Sub,
-        ),
         map(
             pair(
-                numeric_literal,
+                preceded(peek(sign), numeric_literal),
                 many0(preceded(sp, mult_expression)),
             ),
             |(numeric, expressions)| AddExpression::Numeric {
@@ -146,6 +138,14 @@ pub(crate) fn add_expression(i: &str) -> IResult<&str, AddExpression> {
                 expressions,
             },
         ),
+        map(
+            preceded_tag("+", multiplicative_expression),
+            AddExpression::Add,
+        ),
+        map(
+            preceded_tag("-", multiplicative_expression),
+            AddExpression::Sub,
+        ),
     ))(i)
 }
 
-- 
2.43.0


From 46689a13f1bae1c2d844046fddb1a125306881e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:40 +0000
Subject: [PATCH 22/51] fix: no layout is needed after NOT IN

---
 src/arithmetic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arithmetic.rs b/src/arithmetic.rs
index bbb9079..4c5533c 100644
--- a/src/arithmetic.rs
+++ b/src/arithmetic.rs
@@ -177,7 +177,7 @@ pub(crate) fn op_expression(i: &str) -> IResult<&str, OpExpression> {
         map(preceded_tag("in", expression_list), OpExpression::IN),
         map(
             preceded(
-                terminated(tag_no_case("not"), sp_enc1(tag_no_case("in"))),
+                terminated(tag_no_case("not"), sp_enc(tag_no_case("in"))),
                 expression_list,
             ),
             OpExpression::NIN,
-- 
2.43.0


From ee6a92d38544b45f7ce25278307b1623a14b4adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:13 +0000
Subject: [PATCH 23/51] fix: ABS, CEIL, FLOOR and ROUND are not URI

---
 src/call.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/call.rs b/src/call.rs
index 98410d7..c7b01ff 100644
--- a/src/call.rs
+++ b/src/call.rs
@@ -119,10 +119,10 @@ fn built_in_call_1(i: &str) -> IResult<&str, BuiltInCall> {
             BuiltInCall::Bnode,
         ),
         map(preceded_bracketted("rand", nil), |_| BuiltInCall::Rand),
-        map(preceded_bracketted("abs", expression), BuiltInCall::Uri),
-        map(preceded_bracketted("ceil", expression), BuiltInCall::Uri),
-        map(preceded_bracketted("floor", expression), BuiltInCall::Uri),
-        map(preceded_bracketted("round", expression), BuiltInCall::Uri),
+        map(preceded_bracketted("abs", expression), BuiltInCall::Abs),
+        map(preceded_bracketted("ceil", expression), BuiltInCall::Ceil),
+        map(preceded_bracketted("floor", expression), BuiltInCall::Floor),
+        map(preceded_bracketted("round", expression), BuiltInCall::Round),
         map(
             preceded_tag1(
                 "concat",
-- 
2.43.0


From 451bcecef1d91a818417a8d9b71926c8e0ced0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:14 +0000
Subject: [PATCH 24/51] fix: CONTAINS is called CONTAINS

---
 src/call.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/call.rs b/src/call.rs
index c7b01ff..55af704 100644
--- a/src/call.rs
+++ b/src/call.rs
@@ -145,7 +145,7 @@ fn built_in_call_1(i: &str) -> IResult<&str, BuiltInCall> {
         ),
         map(
             preceded_bracketted(
-                "strlen",
+                "contains",
                 separated_pair(expression, sp_enc(char(',')), expression),
             ),
             BuiltInCall::Contains,
-- 
2.43.0


From 3a7a0f58bfe54685fca0ed703ae1a91176376680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:16 +0000
Subject: [PATCH 25/51] fix: functions without arguments take one pair of
 parentheses

---
 src/call.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/call.rs b/src/call.rs
index 55af704..9a572db 100644
--- a/src/call.rs
+++ b/src/call.rs
@@ -19,7 +19,7 @@ use crate::{
     },
     graph::{group_graph_pattern, GroupGraphPattern},
     literal::distinct,
-    terminals::{iri, nil, preceded_bracketted, preceded_tag1, sp, sp1, sp_enc, sp_enc1, tag_no_case},
+    terminals::{bracketted, iri, nil, preceded_bracketted, preceded_tag, preceded_tag1, sp, sp1, sp_enc, sp_enc1, tag_no_case},
     var::{var, Var},
 };
 
@@ -112,13 +112,13 @@ fn built_in_call_1(i: &str) -> IResult<&str, BuiltInCall> {
         map(preceded_bracketted("iri", expression), BuiltInCall::Iri),
         map(preceded_bracketted("uri", expression), BuiltInCall::Uri),
         map(
-            preceded_bracketted(
+            preceded_tag(
                 "bnode",
-                alt((map(expression, Option::Some), map(nil, |_| None))),
+                alt((map(nil, |_| None), map(bracketted(expression), Option::Some))),
             ),
             BuiltInCall::Bnode,
         ),
-        map(preceded_bracketted("rand", nil), |_| BuiltInCall::Rand),
+        map(preceded_tag("rand", nil), |_| BuiltInCall::Rand),
         map(preceded_bracketted("abs", expression), BuiltInCall::Abs),
         map(preceded_bracketted("ceil", expression), BuiltInCall::Ceil),
         map(preceded_bracketted("floor", expression), BuiltInCall::Floor),
@@ -200,9 +200,9 @@ fn built_in_call_2(i: &str) -> IResult<&str, BuiltInCall> {
             BuiltInCall::Timezone,
         ),
         map(preceded_bracketted("tz", expression), BuiltInCall::Tz),
-        map(preceded_bracketted("now", nil), |_| BuiltInCall::Now),
-        map(preceded_bracketted("uuid", nil), |_| BuiltInCall::UUID),
-        map(preceded_bracketted("struuid", nil), |_| {
+        map(preceded_tag("now", nil), |_| BuiltInCall::Now),
+        map(preceded_tag("uuid", nil), |_| BuiltInCall::UUID),
+        map(preceded_tag("struuid", nil), |_| {
             BuiltInCall::StrUUID
         }),
     ))(i)
-- 
2.43.0


From 5e8834f9d644c2a02697cada703c4f7bbf94a950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:17 +0000
Subject: [PATCH 26/51] fix: CONCAT, SUBSTR, STRLEN and REPLACE are four
 functions

The grammar's alternatives ran into each other: CONCAT had to be followed
by SUBSTR and STRLEN by the arguments of REPLACE.
---
 src/call.rs                 | 22 +++++++++++-----------
 src/expression/functions.rs | 17 ++++++++++-------
 2 files changed, 21 insertions(+), 18 deletions(-)

diff --git a/src/call.rs b/src/call.rs
index 9a572db..d6cd48a 100644
--- a/src/call.rs
+++ b/src/call.rs
@@ -45,8 +45,10 @@ pub enum BuiltInCall {
     Ceil(Expression),
     Floor(Expression),
     Round(Expression),
-    Concat((ExpressionList, SubstringExpression)),
-    StrLen((Expression, StrReplaceExpression)),
+    Concat(ExpressionList),
+    SubStr(SubstringExpression),
+    StrLen(Expression),
+    Replace(StrReplaceExpression),
     UCase(Expression),
     LCase(Expression),
     EncodeForUri(Expression),
@@ -124,17 +126,11 @@ fn built_in_call_1(i: &str) -> IResult<&str, BuiltInCall> {
         map(preceded_bracketted("floor", expression), BuiltInCall::Floor),
         map(preceded_bracketted("round", expression), BuiltInCall::Round),
         map(
-            preceded_tag1(
-                "concat",
-                separated_pair(expression_list, sp, substring_expression),
-            ),
+            preceded_tag1("concat", expression_list),
             BuiltInCall::Concat,
         ),
         map(
-            preceded_tag1(
-                "strlen",
-                separated_pair(bracketted_expression, sp, str_replace_expression),
-            ),
+            preceded_tag1("strlen", bracketted_expression),
             BuiltInCall::StrLen,
         ),
         map(preceded_bracketted("ucase", expression), BuiltInCall::UCase),
@@ -276,7 +272,11 @@ pub(crate) fn built_in_call(i: &str) -> IResult<&str, BuiltInCall> {
             preceded_bracketted("isnumeric", expression),
             BuiltInCall::IsNumeric,
         ),
-        map(regex_expression, BuiltInCall::Regex),
+        alt((
+            map(regex_expression, BuiltInCall::Regex),
+            map(substring_expression, BuiltInCall::SubStr),
+            map(str_replace_expression, BuiltInCall::Replace),
+        )),
         map(
             preceded_tag1("exists", group_graph_pattern),
             BuiltInCall::ExistsFunc,
diff --git a/src/expression/functions.rs b/src/expression/functions.rs
index e0c1db7..920d73b 100644
--- a/src/expression/functions.rs
+++ b/src/expression/functions.rs
@@ -1,7 +1,7 @@
 use crate::call::{built_in_call, function_call, BuiltInCall, FunctionCall};
 use crate::expression::{bracketted_expr3, bracketted_expression, expression, Expression};
 use crate::literal::StringLiteral;
-use crate::terminals::{bracketted, preceded_tag1, sp_enc};
+use crate::terminals::{bracketted, preceded_bracketted, preceded_tag1, sp_enc};
 use nom::branch::alt;
 use nom::character::complete::char;
 use nom::combinator::{map, opt};
@@ -56,12 +56,15 @@ pub(crate) fn substring_expression(i: &str) -> IResult<&str, SubstringExpression
 
 pub(crate) fn str_replace_expression(i: &str) -> IResult<&str, StrReplaceExpression> {
     map(
-        bracketted(tuple((
-            expression,
-            preceded(sp_enc(char(',')), expression),
-            preceded(sp_enc(char(',')), expression),
-            opt(preceded(sp_enc(char(',')), expression)),
-        ))),
+        preceded_bracketted(
+            "replace",
+            tuple((
+                expression,
+                preceded(sp_enc(char(',')), expression),
+                preceded(sp_enc(char(',')), expression),
+                opt(preceded(sp_enc(char(',')), expression)),
+            )),
+        ),
         |(first, second, third, fourth)| StrReplaceExpression {
             first,
             second,
-- 
2.43.0


From da67ece6633af719f242ad25876631d3664810bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:19 +0000
Subject: [PATCH 27/51] fix: no layout is needed after DISTINCT, AS and NOT
 EXISTS

For AS in GROUP BY even the layout that was written got lost: the
expression had already consumed it.
---
 src/aggregate.rs      | 2 +-
 src/call.rs           | 4 ++--
 src/expression/mod.rs | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/aggregate.rs b/src/aggregate.rs
index e71fb46..36c34a3 100644
--- a/src/aggregate.rs
+++ b/src/aggregate.rs
@@ -93,7 +93,7 @@ pub(crate) fn count(i: &str) -> IResult<&str, Count> {
         preceded_tag(
             "count",
             bracketted(pair(
-                map(opt(terminated(distinct, sp1)), Option::unwrap_or_default),
+                map(opt(terminated(distinct, sp)), Option::unwrap_or_default),
                 count_target,
             )),
         ),
diff --git a/src/call.rs b/src/call.rs
index d6cd48a..eee9349 100644
--- a/src/call.rs
+++ b/src/call.rs
@@ -284,7 +284,7 @@ pub(crate) fn built_in_call(i: &str) -> IResult<&str, BuiltInCall> {
         map(
             tuple((
                 tag_no_case("not"),
-                sp_enc1(tag_no_case("exists")),
+                sp_enc(tag_no_case("exists")),
                 group_graph_pattern,
             )),
             |(_, _, graph)| BuiltInCall::NotExistsFunc(graph),
@@ -299,7 +299,7 @@ pub(crate) fn arg_list(i: &str) -> IResult<&str, ArgList> {
             delimited(
                 terminated(char('('), sp),
                 tuple((
-                    map(opt(terminated(distinct, sp1)), Option::unwrap_or_default),
+                    map(opt(terminated(distinct, sp)), Option::unwrap_or_default),
                     separated_nonempty_list(sp_enc(char(',')), expression),
                 )),
                 preceded(sp, char(')')),
diff --git a/src/expression/mod.rs b/src/expression/mod.rs
index a0edf47..3ec5a60 100644
--- a/src/expression/mod.rs
+++ b/src/expression/mod.rs
@@ -126,7 +126,7 @@ pub(crate) fn expression_as_var_opt(i: &str) -> IResult<&str, ExpressionAsVarOpt
     delimited(
         char('('),
         sp_enc(map(
-            pair(expression, opt(preceded(sp_enc1(tag_no_case("as")), var))),
+            pair(expression, opt(preceded(sp_enc(tag_no_case("as")), var))),
             |(expression, var)| ExpressionAsVarOpt {
                 expression: Box::new(expression),
                 var,
@@ -181,7 +181,7 @@ pub(crate) fn expression_list(i: &str) -> IResult<&str, ExpressionList> {
 pub(crate) fn distinct_expression(i: &str) -> IResult<&str, DistinctExpression> {
     map(
         pair(
-            map(opt(terminated(distinct, sp1)), Option::unwrap_or_default),
+            map(opt(terminated(distinct, sp)), Option::unwrap_or_default),
             expression,
         ),
         |(distinct, expression)| DistinctExpression {
-- 
2.43.0


From 8ca5332769af4e4fab6c5436a56426a3fd5a97e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:04 +0000
Subject: [PATCH 28/51] fix: the steps of a path sequence are separated by /

---
 src/path.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/path.rs b/src/path.rs
index ce6f25a..1a99f64 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -221,7 +221,7 @@ pub(crate) fn path_alternative(i: &str) -> IResult<&str, PathAlternative> {
 
 pub(crate) fn path_sequence(i: &str) -> IResult<&str, PathSequence> {
     map(
-        separated_nonempty_list(delimited(sp, tag("|"), sp), path_elt_or_inverse),
+        separated_nonempty_list(delimited(sp, tag("/"), sp), path_elt_or_inverse),
         PathSequence,
     )(i)
 }
-- 
2.43.0


From 55dc43e0cb112b9e44fba7abb5a675ca84f768d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:05 +0000
Subject: [PATCH 29/51] fix: objects in a pattern are separated by commas

---
 src/path.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/path.rs b/src/path.rs
index 1a99f64..2b82b12 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -177,7 +177,7 @@ pub(crate) fn verb_path_or_simple(i: &str) -> IResult<&str, VerbPathOrSimple> {
 
 pub(crate) fn object_list_path(i: &str) -> IResult<&str, ObjectListPath> {
     map(
-        separated_nonempty_list(sp_enc(tag(";")), graph_node_path),
+        separated_nonempty_list(sp_enc(tag(",")), graph_node_path),
         ObjectListPath,
     )(i)
 }
-- 
2.43.0


From d75d686e979caf09f741c35079ae0d72622129cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:07 +0000
Subject: [PATCH 30/51] fix: a property list in a pattern may end in semicolons

---
 src/path.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/path.rs b/src/path.rs
index 2b82b12..aeeab8e 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -154,7 +154,10 @@ pub(crate) fn property_list_path_not_empty(i: &str) -> IResult<&str, PropertyLis
         tuple((
             terminated(verb_path_or_simple, sp1),
             object_list_path,
-            many0(preceded(many1(sp_enc(char(';'))), property_list_path_entry)),
+            terminated(
+                many0(preceded(many1(sp_enc(char(';'))), property_list_path_entry)),
+                many0(preceded(sp, char(';'))),
+            ),
         )),
         |(verb_path_or_simple, object_list_path, entries)| PropertyListPath {
             verb_path_or_simple,
-- 
2.43.0


From 319ed09be8001a6eb425f5dc74084363c63829ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:08 +0000
Subject: [PATCH 31/51] fix: recognize path modifiers

They had to be preceded by layout, and then the ? of a variable object or
the + of a number was taken for one. The end of the text was reported as
incomplete and a multi-byte character made the slice panic.
---
 src/path.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/path.rs b/src/path.rs
index aeeab8e..6aa825f 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -17,6 +17,7 @@ use nom::{
 
 use crate::expression::iri::{iri_or_a_or_caret, IriOrAOrCaret};
 use crate::expression::Iri;
+use crate::literal::numeric_literal;
 use crate::node::ObjectList;
 use crate::terminals::{anon, iri, keyword_a, nil, pn_local, rdf_literal, sp, sp1, sp_enc, sp_sep, sp_sep1};
 use crate::triple::object_list;
@@ -253,7 +254,7 @@ pub(crate) fn path_elt_or_inverse(i: &str) -> IResult<&str, PathEltOrInverse> {
 
 pub(crate) fn path_elt(i: &str) -> IResult<&str, PathElt> {
     map(
-        pair(path_primary, opt(preceded(sp1, path_mod))),
+        pair(path_primary, opt(preceded(sp, path_mod))),
         |(path_primary, path_mod)| PathElt {
             path_primary,
             path_mod,
@@ -277,12 +278,13 @@ pub(crate) fn path_one_in_property_set(i: &str) -> IResult<&str, PathOneInProper
 }
 
 pub(crate) fn path_mod(i: &str) -> IResult<&str, PathMod> {
-    if i.is_empty() {
-        Err(Err::Incomplete(Needed::Size(1)))
-    } else if let Ok(path) = PathMod::from_str(&i[0..1]) {
-        Ok((&i[1..], path))
-    } else {
-        Err(Err::Error((i, ErrorKind::Char)))
+    // `?x` and `+1` are objects
+    if var(i).is_ok() || numeric_literal(i).is_ok() {
+        return Err(Err::Error((i, ErrorKind::Not)));
+    }
+    match i.get(0..1).map(PathMod::from_str) {
+        Some(Ok(path)) => Ok((&i[1..], path)),
+        _ => Err(Err::Error((i, ErrorKind::Char))),
     }
 }
 
-- 
2.43.0


From 7c07e85ece555fd2093e90daed04cd185c080112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:09 +0000
Subject: [PATCH 32/51] fix: layout in triples and paths is optional everywhere

It was required after subjects and verbs even before punctuation, and
refused inside collections and after !, ^ and parentheses in paths.
---
 src/expression/iri.rs |  9 ++++++---
 src/path.rs           | 19 +++++++++++--------
 src/triple.rs         |  2 +-
 3 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/expression/iri.rs b/src/expression/iri.rs
index e8bf262..f0551f6 100644
--- a/src/expression/iri.rs
+++ b/src/expression/iri.rs
@@ -1,9 +1,9 @@
 use crate::expression::Iri;
-use crate::terminals::{iri, keyword_a};
+use crate::terminals::{iri, keyword_a, sp};
 use nom::branch::alt;
 use nom::character::complete::char;
 use nom::combinator::map;
-use nom::sequence::preceded;
+use nom::sequence::{pair, preceded};
 use nom::IResult;
 
 #[derive(Debug, Clone, Eq, PartialEq)]
@@ -25,6 +25,9 @@ pub(crate) fn iri_or_a(i: &str) -> IResult<&str, IriOrA> {
 pub(crate) fn iri_or_a_or_caret(i: &str) -> IResult<&str, IriOrAOrCaret> {
     alt((
         map(iri_or_a, IriOrAOrCaret::IriOrA),
-        map(preceded(char('^'), iri_or_a), IriOrAOrCaret::Caret),
+        map(
+            preceded(pair(char('^'), sp), iri_or_a),
+            IriOrAOrCaret::Caret,
+        ),
     ))(i)
 }
diff --git a/src/path.rs b/src/path.rs
index 6aa825f..4efec31 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -19,7 +19,7 @@ use crate::expression::iri::{iri_or_a_or_caret, IriOrAOrCaret};
 use crate::expression::Iri;
 use crate::literal::numeric_literal;
 use crate::node::ObjectList;
-use crate::terminals::{anon, iri, keyword_a, nil, pn_local, rdf_literal, sp, sp1, sp_enc, sp_sep, sp_sep1};
+use crate::terminals::{anon, bracketted, iri, keyword_a, nil, pn_local, rdf_literal, sp, sp1, sp_enc, sp_sep, sp_sep1};
 use crate::triple::object_list;
 use crate::var::{var, var_or_term, Var, VarOrTerm};
 
@@ -126,7 +126,7 @@ pub struct PathOneInPropertySet(pub IriOrAOrCaret);
 pub(crate) fn triples_same_subject_path(i: &str) -> IResult<&str, TriplesSameSubjectPath> {
     alt((
         map(
-            sp_sep1(var_or_term, property_list_path_not_empty),
+            sp_sep(var_or_term, property_list_path_not_empty),
             |(var_or_term, property_list)| TriplesSameSubjectPath::Term {
                 var_or_term,
                 property_list,
@@ -153,7 +153,7 @@ pub(crate) fn blank_node_property_list_path(i: &str) -> IResult<&str, PropertyLi
 pub(crate) fn property_list_path_not_empty(i: &str) -> IResult<&str, PropertyListPath> {
     map(
         tuple((
-            terminated(verb_path_or_simple, sp1),
+            terminated(verb_path_or_simple, sp),
             object_list_path,
             terminated(
                 many0(preceded(many1(sp_enc(char(';'))), property_list_path_entry)),
@@ -188,7 +188,7 @@ pub(crate) fn object_list_path(i: &str) -> IResult<&str, ObjectListPath> {
 
 pub(crate) fn property_list_path_entry(i: &str) -> IResult<&str, PropertyListPathEntry> {
     map(
-        separated_pair(verb_path_or_simple, sp1, object_list),
+        separated_pair(verb_path_or_simple, sp, object_list),
         |(verb_path_or_simple, object_list)| PropertyListPathEntry {
             verb_path_or_simple,
             object_list,
@@ -203,7 +203,7 @@ pub(crate) fn triples_node_path(i: &str) -> IResult<&str, TriplesNodePath> {
             TriplesNodePath::BlankNodePropertyListPath,
         ),
         map(
-            delimited(tag("("), many1(graph_node_path), tag(")")),
+            bracketted(many1(sp_enc(graph_node_path))),
             TriplesNodePath::CollectionPath,
         ),
     ))(i)
@@ -235,11 +235,11 @@ pub(crate) fn path_primary(i: &str) -> IResult<&str, PathPrimary> {
         map(iri, PathPrimary::Iri),
         map(keyword_a, |_| PathPrimary::A),
         map(
-            preceded(tag("!"), path_negated_property_set),
+            preceded(pair(tag("!"), sp), path_negated_property_set),
             PathPrimary::PathNegatedPropertySet,
         ),
         map(
-            delimited(tag("("), path_alternative, tag(")")),
+            bracketted(path_alternative),
             PathPrimary::Path,
         ),
     ))(i)
@@ -248,7 +248,10 @@ pub(crate) fn path_primary(i: &str) -> IResult<&str, PathPrimary> {
 pub(crate) fn path_elt_or_inverse(i: &str) -> IResult<&str, PathEltOrInverse> {
     alt((
         map(path_elt, PathEltOrInverse::PathElt),
-        map(preceded(tag("^"), path_elt), PathEltOrInverse::Inverse),
+        map(
+            preceded(pair(tag("^"), sp), path_elt),
+            PathEltOrInverse::Inverse,
+        ),
     ))(i)
 }
 
diff --git a/src/triple.rs b/src/triple.rs
index 9cbbca6..d5841e6 100644
--- a/src/triple.rs
+++ b/src/triple.rs
@@ -113,7 +113,7 @@ pub(crate) fn triples_same_subject(i: &str) -> IResult<&str, TriplesSameSubject>
             },
         ),
         map(
-            sp_sep1(var_or_term, property_list_not_empty),
+            sp_sep(var_or_term, property_list_not_empty),
             |(var_or_term, property_list)| TriplesSameSubject::Term {
                 var_or_term,
                 property_list,
-- 
2.43.0


From c264655073cfbd704ead8a15a003bfd3e390742f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:11 +0000
Subject: [PATCH 33/51] fix: a negated property set of one step needs no
 parentheses

---
 src/path.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/path.rs b/src/path.rs
index 4efec31..2eac456 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -267,11 +267,14 @@ pub(crate) fn path_elt(i: &str) -> IResult<&str, PathElt> {
 
 pub(crate) fn path_negated_property_set(i: &str) -> IResult<&str, PathNegatedPropertySet> {
     map(
-        delimited(
-            terminated(tag("("), sp),
-            separated_nonempty_list(delimited(sp, char('|'), sp), path_one_in_property_set),
-            preceded(sp, tag(")")),
-        ),
+        alt((
+            map(path_one_in_property_set, |one| vec![one]),
+            delimited(
+                terminated(tag("("), sp),
+                separated_nonempty_list(delimited(sp, char('|'), sp), path_one_in_property_set),
+                preceded(sp, tag(")")),
+            ),
+        )),
         PathNegatedPropertySet,
     )(i)
 }
-- 
2.43.0


From c948e10f5f89f4e3c48faf47bec9e780de1b740e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:48 +0000
Subject: [PATCH 34/51] fix: triples are separated by one dot and may end with
 one

Blocks and CONSTRUCT templates refused the final dot, and all of them
accepted several dots in a row.
---
 src/query/construct.rs | 2 +-
 src/triple.rs          | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/query/construct.rs b/src/query/construct.rs
index e48da14..db44968 100644
--- a/src/query/construct.rs
+++ b/src/query/construct.rs
@@ -89,7 +89,7 @@ pub(crate) fn construct_template(i: &str) -> IResult<&str, ConstructTemplate> {
     map(
         delimited(
             terminated(char('{'), sp),
-            separated_list(many1(sp_enc(char('.'))), triples_same_subject),
+            map(opt(triples_template), Option::unwrap_or_default),
             preceded(sp, char('}')),
         ),
         ConstructTemplate,
diff --git a/src/triple.rs b/src/triple.rs
index d5841e6..f0580c3 100644
--- a/src/triple.rs
+++ b/src/triple.rs
@@ -91,14 +91,17 @@ pub(crate) fn triples_node(i: &str) -> IResult<&str, TriplesNode> {
 
 pub(crate) fn triples_block(i: &str) -> IResult<&str, TriplesBlock> {
     map(
-        separated_nonempty_list(many1(sp_enc(char('.'))), triples_same_subject_path),
+        terminated(
+            separated_nonempty_list(sp_enc(char('.')), triples_same_subject_path),
+            opt(preceded(sp, char('.'))),
+        ),
         TriplesBlock,
     )(i)
 }
 
 pub(crate) fn triples_template(i: &str) -> IResult<&str, TriplesTemplate> {
     terminated(
-        separated_nonempty_list(many1(sp_enc(char('.'))), triples_same_subject),
+        separated_nonempty_list(sp_enc(char('.')), triples_same_subject),
         opt(preceded(sp, char('.'))),
     )(i)
 }
-- 
2.43.0


From a2c438709965027b2c3945746ec7adfdeaad34f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:49 +0000
Subject: [PATCH 35/51] fix: a dot, not a question mark, may follow a graph
 pattern

The question mark of the next subject variable was dropped.
---
 src/graph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph.rs b/src/graph.rs
index cbf0525..342b4ea 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -208,7 +208,7 @@ pub(crate) fn group_graph_pattern_and_triples(i: &str) -> IResult<&str, GraphPat
     map(
         separated_pair(
             graph_pattern_not_triples,
-            opt(preceded(sp, char('?'))),
+            opt(preceded(sp, char('.'))),
             opt(preceded(sp, triples_block)),
         ),
         |(graph_pattern, triples)| GraphPatternAndTriples {
-- 
2.43.0


From 20f76452b8549b0f65f357c3cd7ac2a236462c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:50 +0000
Subject: [PATCH 36/51] fix: graph patterns need no layout between them

separated_list(sp, ..) failed for `{ ?s ?p ?o FILTER(1)}` and the like
because its separator matches the empty string.
---
 src/graph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph.rs b/src/graph.rs
index 342b4ea..e8fb173 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -30,7 +30,7 @@ use crate::{
 };
 use nom::character::complete::char;
 use nom::combinator::recognize;
-use nom::multi::{separated_list, separated_nonempty_list};
+use nom::multi::{many0, separated_nonempty_list};
 use nom::sequence::tuple;
 
 #[derive(Debug, Clone, Eq, PartialEq)]
@@ -195,7 +195,7 @@ pub(crate) fn group_graph_pattern_sub(i: &str) -> IResult<&str, GroupGraphPatter
     map(
         pair(
             opt(terminated(triples_block, sp)),
-            separated_list(sp, group_graph_pattern_and_triples),
+            many0(preceded(sp, group_graph_pattern_and_triples)),
         ),
         |(triples_block, graph_pattern_and_triples)| GroupGraphPatternSub {
             triples_block,
-- 
2.43.0


From cde6e4eb613ef5dcb3b498fa41959bf4a35f6e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:52 +0000
Subject: [PATCH 37/51] fix: no layout is needed around UNION and after GRAPH,
 SERVICE, SILENT

---
 src/graph.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/graph.rs b/src/graph.rs
index e8fb173..14bebef 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -123,14 +123,14 @@ pub struct ServiceGraphPattern {
 }
 
 pub(crate) fn graph_ref(i: &str) -> IResult<&str, Iri> {
-    map(sp_sep1(tag_no_case("graph"), iri), |(_, iri)| iri)(i)
+    map(sp_sep(tag_no_case("graph"), iri), |(_, iri)| iri)(i)
 }
 
 pub(crate) fn graph_or_default(i: &str) -> IResult<&str, GraphOrDefault> {
     alt((
         map(tag_no_case("default"), |_| GraphOrDefault::Default),
         map(
-            pair(opt(pair(tag_no_case("graph"), sp1)), iri),
+            pair(opt(pair(tag_no_case("graph"), sp)), iri),
             |(_, iri)| GraphOrDefault::Graph(iri),
         ),
     ))(i)
@@ -166,7 +166,7 @@ pub(crate) fn graph_pattern_not_triples(i: &str) -> IResult<&str, GraphPatternNo
 
 pub(crate) fn group_or_union_graph_pattern(i: &str) -> IResult<&str, GroupOrUnionGraphPattern> {
     map(
-        separated_nonempty_list(sp_enc1(tag_no_case("union")), group_graph_pattern),
+        separated_nonempty_list(sp_enc(tag_no_case("union")), group_graph_pattern),
         GroupOrUnionGraphPattern,
     )(i)
 }
@@ -180,7 +180,7 @@ pub(crate) fn minus_graph_pattern(i: &str) -> IResult<&str, GroupGraphPattern> {
 pub(crate) fn graph_graph_pattern(i: &str) -> IResult<&str, GraphGraphPattern> {
     map(
         tuple((
-            terminated(tag_no_case("graph"), sp1),
+            terminated(tag_no_case("graph"), sp),
             terminated(var_or_iri, sp),
             group_graph_pattern,
         )),
@@ -221,8 +221,8 @@ pub(crate) fn group_graph_pattern_and_triples(i: &str) -> IResult<&str, GraphPat
 pub(crate) fn service_graph_pattern(i: &str) -> IResult<&str, ServiceGraphPattern> {
     map(
         tuple((
-            terminated(tag_no_case("service"), sp1),
-            map(opt(terminated(silent, sp1)), Option::unwrap_or_default),
+            terminated(tag_no_case("service"), sp),
+            map(opt(terminated(silent, sp)), Option::unwrap_or_default),
             terminated(var_or_iri, sp),
             group_graph_pattern,
         )),
-- 
2.43.0


From 217545de4cfee8655b72203d7a56a1ec7c904aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:29 +0000
Subject: [PATCH 38/51] fix: lists of conditions need no layout between them or
 at their end

separated_nonempty_list(sp, ..) failed, and with it the whole GROUP BY,
HAVING or ORDER BY clause, unless layout that belongs to no next condition
followed the last one.
---
 src/clauses.rs | 10 +++++-----
 src/group.rs   |  6 +++---
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/clauses.rs b/src/clauses.rs
index 12b694e..5d76672 100644
--- a/src/clauses.rs
+++ b/src/clauses.rs
@@ -4,7 +4,7 @@ use nom::{
     character::is_digit,
     combinator::map_res,
     combinator::{map, opt},
-    multi::separated_nonempty_list,
+    multi::many1,
     sequence::{delimited, separated_pair, tuple},
     sequence::{preceded, terminated},
     AsChar, IResult,
@@ -71,8 +71,8 @@ pub(crate) fn solution_modifier(i: &str) -> IResult<&str, SolutionModifier> {
 pub(crate) fn order_clause(i: &str) -> IResult<&str, OrderClause> {
     map(
         preceded(
-            terminated(delimited(tag_no_case("order"), sp1, tag_no_case("by")), sp1),
-            separated_nonempty_list(sp, order_condition),
+            delimited(tag_no_case("order"), sp1, tag_no_case("by")),
+            many1(preceded(sp, order_condition)),
         ),
         OrderClause,
     )(i)
@@ -81,8 +81,8 @@ pub(crate) fn order_clause(i: &str) -> IResult<&str, OrderClause> {
 pub(crate) fn having_clause(i: &str) -> IResult<&str, HavingClause> {
     map(
         preceded(
-            terminated(tag_no_case("having"), sp1),
-            separated_nonempty_list(sp, constraint),
+            tag_no_case("having"),
+            many1(preceded(sp, constraint)),
         ),
         HavingClause,
     )(i)
diff --git a/src/group.rs b/src/group.rs
index 6265b46..200e7d1 100644
--- a/src/group.rs
+++ b/src/group.rs
@@ -1,5 +1,5 @@
 use nom::combinator::map;
-use nom::multi::separated_nonempty_list;
+use nom::multi::many1;
 use nom::sequence::delimited;
 use nom::{
     branch::alt,
@@ -33,8 +33,8 @@ pub enum GroupCondition {
 pub(crate) fn group_clause(i: &str) -> IResult<&str, GroupClause> {
     map(
         preceded(
-            terminated(delimited(tag_no_case("group"), sp1, tag_no_case("by")), sp1),
-            separated_nonempty_list(sp, group_condition),
+            delimited(tag_no_case("group"), sp1, tag_no_case("by")),
+            many1(preceded(sp, group_condition)),
         ),
         GroupClause,
     )(i)
-- 
2.43.0


From c390821f5a216c2e098d5332135eccb76d335ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:30 +0000
Subject: [PATCH 39/51] fix: no layout is needed after ASC, DESC and WHERE

---
 src/clauses.rs | 2 +-
 src/order.rs   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/clauses.rs b/src/clauses.rs
index 5d76672..c68c204 100644
--- a/src/clauses.rs
+++ b/src/clauses.rs
@@ -90,7 +90,7 @@ pub(crate) fn having_clause(i: &str) -> IResult<&str, HavingClause> {
 
 pub(crate) fn where_clause(i: &str) -> IResult<&str, GroupGraphPattern> {
     preceded(
-        opt(terminated(tag_no_case("where"), sp1)),
+        opt(terminated(tag_no_case("where"), sp)),
         group_graph_pattern,
     )(i)
 }
diff --git a/src/order.rs b/src/order.rs
index 20fba34..8293a04 100644
--- a/src/order.rs
+++ b/src/order.rs
@@ -6,7 +6,7 @@ use nom::IResult;
 
 use crate::expression::functions::{constraint, Constraint};
 use crate::expression::{bracketted_expression, Expression};
-use crate::terminals::sp1;
+use crate::terminals::sp;
 use crate::var::{var, Var};
 
 #[derive(Debug, Clone, Eq, PartialEq)]
@@ -37,7 +37,7 @@ pub(crate) fn order(i: &str) -> IResult<&str, Order> {
 
 pub(crate) fn order_expression(i: &str) -> IResult<&str, OrderExpression> {
     map(
-        separated_pair(order, sp1, bracketted_expression),
+        separated_pair(order, sp, bracketted_expression),
         |(order, expression)| OrderExpression { order, expression },
     )(i)
 }
-- 
2.43.0


From 27826d8f6109ce59bcca53014446902b22785d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:32 +0000
Subject: [PATCH 40/51] fix: parse SELECT lists and dataset clauses in any
 layout

Only one projected variable was taken, SELECT* and SELECT(..AS ?x) were
refused, and a dataset clause list failed unless layout that belongs to no
next clause followed it.
---
 src/query/select.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/query/select.rs b/src/query/select.rs
index 575f50d..3ebe12e 100644
--- a/src/query/select.rs
+++ b/src/query/select.rs
@@ -2,7 +2,7 @@ use nom::branch::alt;
 use nom::bytes::complete::{escaped, tag, take_while1, take_while_m_n};
 use nom::character::complete::{anychar, char, digit1, none_of, one_of};
 use nom::combinator::{complete, cond, cut, map, map_res, not, opt, peek};
-use nom::multi::{many1, separated_list};
+use nom::multi::{many0, many1};
 use nom::sequence::{delimited, pair, preceded, separated_pair, terminated, tuple};
 use nom::IResult;
 
@@ -53,8 +53,8 @@ pub enum SelectModifier {
 pub(crate) fn select_query(i: &str) -> IResult<&str, SelectQuery> {
     map(
         tuple((
-            terminated(select_clause, sp1),
-            separated_list(sp, data_set_clause),
+            select_clause,
+            many0(preceded(sp, data_set_clause)),
             sp_enc(where_clause),
             solution_modifier,
         )),
@@ -88,8 +88,8 @@ pub(crate) fn select_clause(i: &str) -> IResult<&str, SelectClause> {
     map(
         tuple((
             tag_no_case("select"),
-            opt(preceded(sp1, select_modifier)),
-            preceded(sp1, select_vars),
+            opt(preceded(sp, select_modifier)),
+            preceded(sp, select_vars),
         )),
         |(_, modifier, vars)| SelectClause { modifier, vars },
     )(i)
@@ -99,7 +99,7 @@ pub(crate) fn select_vars(i: &str) -> IResult<&str, SelectVars> {
     alt((
         map(char('*'), |_| SelectVars::All),
         map(
-            many1(var_or_expression_as_var),
+            many1(terminated(var_or_expression_as_var, sp)),
             SelectVars::VarOrExpressionAsVar,
         ),
     ))(i)
-- 
2.43.0


From 5ae13a659b3aeb2f690bdc00df6ac901cd091a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:33 +0000
Subject: [PATCH 41/51] fix: parse ASK, CONSTRUCT and DESCRIBE heads in any
 layout

Dataset clauses and the resources of DESCRIBE were lost or refused
depending on the layout between and after them.
---
 src/query/ask.rs       |  6 +++---
 src/query/construct.rs | 11 +++++------
 src/query/describe.rs  |  8 ++++----
 src/var.rs             |  4 ++--
 4 files changed, 14 insertions(+), 15 deletions(-)

diff --git a/src/query/ask.rs b/src/query/ask.rs
index 11c4141..4560da2 100644
--- a/src/query/ask.rs
+++ b/src/query/ask.rs
@@ -4,7 +4,7 @@ use crate::graph::GroupGraphPattern;
 use crate::terminals::{sp, sp1};
 use crate::terminals::tag_no_case;
 use nom::combinator::map;
-use nom::multi::separated_list;
+use nom::multi::many0;
 use nom::sequence::{terminated, tuple};
 use nom::IResult;
 
@@ -18,8 +18,8 @@ pub struct AskQuery {
 pub fn ask_query(i: &str) -> IResult<&str, AskQuery> {
     map(
         tuple((
-            terminated(tag_no_case("ask"), sp1),
-            terminated(separated_list(sp, data_set_clause), sp),
+            terminated(tag_no_case("ask"), sp),
+            many0(terminated(data_set_clause, sp)),
             terminated(where_clause, sp),
             solution_modifier,
         )),
diff --git a/src/query/construct.rs b/src/query/construct.rs
index db44968..fc963de 100644
--- a/src/query/construct.rs
+++ b/src/query/construct.rs
@@ -11,8 +11,7 @@ use nom::{
     branch::alt,
     character::complete::char,
     combinator::{map, opt},
-    multi::many1,
-    multi::separated_list,
+    multi::many0,
     sequence::{delimited, preceded},
     sequence::{terminated, tuple},
     IResult,
@@ -45,8 +44,8 @@ pub struct ConstructTemplate(pub Vec<TriplesSameSubject>);
 pub fn sub_triples(i: &str) -> IResult<&str, SubTriples> {
     map(
         tuple((
-            terminated(separated_list(sp, data_set_clause), sp),
-            terminated(tag_no_case("where"), sp1),
+            many0(terminated(data_set_clause, sp)),
+            terminated(tag_no_case("where"), sp),
             delimited(char('{'), sp_enc(opt(triples_template)), char('}')),
             preceded(sp, solution_modifier),
         )),
@@ -61,8 +60,8 @@ pub fn sub_triples(i: &str) -> IResult<&str, SubTriples> {
 pub fn sub_construct(i: &str) -> IResult<&str, SubConstruct> {
     map(
         tuple((
-            terminated(construct_template, sp1),
-            terminated(separated_list(sp, data_set_clause), sp),
+            terminated(construct_template, sp),
+            many0(terminated(data_set_clause, sp)),
             terminated(where_clause, sp),
             solution_modifier,
         )),
diff --git a/src/query/describe.rs b/src/query/describe.rs
index be2ed94..f772081 100644
--- a/src/query/describe.rs
+++ b/src/query/describe.rs
@@ -1,13 +1,13 @@
 use crate::clauses::{solution_modifier, where_clause, SolutionModifier};
 use crate::data::{data_set_clause, DataSetClause};
 use crate::graph::GroupGraphPattern;
-use crate::terminals::{sp, sp_enc1, tag_no_case};
+use crate::terminals::{sp, sp_enc, tag_no_case};
 use crate::var::{var_or_iri, var_or_iris_or_all, VarOrIri, VarOrIrisOrAll};
 use nom::{
     branch::alt,
     character::complete::char,
     combinator::{map, opt},
-    multi::{separated_list, separated_nonempty_list},
+    multi::{many0, separated_nonempty_list},
     sequence::{terminated, tuple},
     IResult,
 };
@@ -24,8 +24,8 @@ pub fn describe_query(i: &str) -> IResult<&str, DescribeQuery> {
     map(
         tuple((
             tag_no_case("describe"),
-            sp_enc1(var_or_iris_or_all),
-            terminated(separated_list(sp, data_set_clause), sp),
+            sp_enc(var_or_iris_or_all),
+            many0(terminated(data_set_clause, sp)),
             opt(terminated(where_clause, sp)),
             solution_modifier,
         )),
diff --git a/src/var.rs b/src/var.rs
index ef93405..4158968 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -8,7 +8,7 @@ use nom::bytes::complete::{escaped, tag, take_while1, take_while_m_n};
 use nom::character::complete::{anychar, char, digit1, none_of, one_of};
 use nom::combinator::recognize;
 use nom::combinator::{complete, cond, cut, map, map_res, not, opt, peek};
-use nom::multi::separated_nonempty_list;
+use nom::multi::many1;
 use nom::sequence::{delimited, pair, preceded, separated_pair, terminated, tuple};
 use nom::{AsChar, IResult};
 
@@ -86,7 +86,7 @@ pub(crate) fn var(i: &str) -> IResult<&str, Var> {
 pub(crate) fn var_or_iris_or_all(i: &str) -> IResult<&str, VarOrIrisOrAll> {
     alt((
         map(
-            separated_nonempty_list(sp, var_or_iri),
+            many1(terminated(var_or_iri, sp)),
             VarOrIrisOrAll::VarIri,
         ),
         map(char('*'), |_| VarOrIrisOrAll::All),
-- 
2.43.0


From 90e04fabe098a10d8708549e22451678fa15baca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:34 +0000
Subject: [PATCH 42/51] fix: parse the VALUES block after a query

The pattern before it has already consumed the layout that was required.
---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 4ad7263..a36352c 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -15,7 +15,7 @@ pub fn sparql_query_stmt(i: &str) -> IResult<&str, SparqlQueryStatement> {
         tuple((
             terminated(prologue, sp),
             sparql_query,
-            opt(preceded(sp1, preceded_tag1("values", datablock))),
+            opt(preceded(sp, preceded_tag1("values", datablock))),
         )),
         |(prologue, query, values)| SparqlQueryStatement {
             prologue,
-- 
2.43.0


From 4954820ae4205c90bbd817effbdb5692c799e267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:08 +0000
Subject: [PATCH 43/51] fix: the DELETE clause starts with DELETE

---
 src/clauses.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/clauses.rs b/src/clauses.rs
index c68c204..c66f943 100644
--- a/src/clauses.rs
+++ b/src/clauses.rs
@@ -106,7 +106,7 @@ pub(crate) fn insert_clause(i: &str) -> IResult<&str, Quads> {
 
 #[inline]
 pub(crate) fn delete_clause(i: &str) -> IResult<&str, Quads> {
-    preceded_tag1("offset", quads_pattern)(i)
+    preceded_tag1("delete", quads_pattern)(i)
 }
 
 #[inline]
-- 
2.43.0


From 4ffe6c1c25936cb1646e61b16829725892c6687f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:08 +0000
Subject: [PATCH 44/51] fix: parse WITH, USING and WHERE of DELETE/INSERT

WITH was spelled WHERE and left no room before its IRI, and WHERE was
never found because the layout it required had already been consumed.
---
 src/operations.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/operations.rs b/src/operations.rs
index 30dfd37..62d4779 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -4,7 +4,7 @@ use nom::{
     character::is_digit,
     combinator::map_res,
     combinator::{map, opt},
-    multi::separated_list,
+    multi::many0,
     sequence::{delimited, pair, tuple},
     sequence::{preceded, terminated},
     IResult,
@@ -95,10 +95,10 @@ pub(crate) fn add_stmt(i: &str) -> IResult<&str, AddStatement> {
 pub(crate) fn modify_stmt(i: &str) -> IResult<&str, ModifyStatement> {
     map(
         tuple((
-            opt(delimited(tag_no_case("where"), iri, sp1)),
-            terminated(delete_insert, sp),
-            separated_list(sp, using_clause),
-            sp_enc1(tag_no_case("where")),
+            opt(delimited(pair(tag_no_case("with"), sp), iri, sp)),
+            delete_insert,
+            many0(preceded(sp, using_clause)),
+            sp_enc(tag_no_case("where")),
             group_graph_pattern,
         )),
         |(iri, delete_insert, using_clauses, _, where_group_graph)| ModifyStatement {
-- 
2.43.0


From f857ffb01dd1265f7140629a6c78eed3324b19c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:09 +0000
Subject: [PATCH 45/51] fix: recognize ADD and MOVE

---
 src/update.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/update.rs b/src/update.rs
index 2f79543..7adea96 100644
--- a/src/update.rs
+++ b/src/update.rs
@@ -8,8 +8,8 @@ use nom::{
 };
 
 use crate::operations::{
-    clear_stmt, copy_stmt, create_stmt, delete_data, delete_where_data, drop_stmt, insert_data,
-    load_stmt, modify_stmt, AddStatement, ClearStatement, CopyStatement, CreateStatement,
+    add_stmt, clear_stmt, copy_stmt, create_stmt, delete_data, delete_where_data, drop_stmt,
+    insert_data, load_stmt, modify_stmt, move_stmt, AddStatement, ClearStatement, CopyStatement, CreateStatement,
     DropStatement, LoadStatement, ModifyStatement, MoveStatement,
 };
 use crate::prologue::Prologue;
@@ -71,6 +71,8 @@ pub(crate) fn update_stmt(i: &str) -> IResult<&str, UpdateStatement> {
         map(clear_stmt, UpdateStatement::Clear),
         map(drop_stmt, UpdateStatement::Drop),
         map(create_stmt, UpdateStatement::Create),
+        map(add_stmt, UpdateStatement::Add),
+        map(move_stmt, UpdateStatement::Move),
         map(copy_stmt, UpdateStatement::Copy),
         map(insert_data, UpdateStatement::InsertData),
         map(delete_data, UpdateStatement::DeleteData),
-- 
2.43.0


From d982b842abe27832982473c34d68757583758b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:10 +0000
Subject: [PATCH 46/51] fix: no layout is needed between an update keyword and
 an IRI

---
 src/operations.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/operations.rs b/src/operations.rs
index 62d4779..c4ed11a 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -87,7 +87,7 @@ pub enum DeleteInsert {
 
 pub(crate) fn add_stmt(i: &str) -> IResult<&str, AddStatement> {
     map(
-        pair(pair(tag_no_case("add"), sp1), silent_from_to),
+        pair(pair(tag_no_case("add"), sp), silent_from_to),
         |(_, (silent, from, to))| AddStatement { silent, from, to },
     )(i)
 }
@@ -112,21 +112,21 @@ pub(crate) fn modify_stmt(i: &str) -> IResult<&str, ModifyStatement> {
 
 pub(crate) fn move_stmt(i: &str) -> IResult<&str, MoveStatement> {
     map(
-        pair(pair(tag_no_case("move"), sp1), silent_from_to),
+        pair(pair(tag_no_case("move"), sp), silent_from_to),
         |(_, (silent, from, to))| MoveStatement { silent, from, to },
     )(i)
 }
 
 pub(crate) fn copy_stmt(i: &str) -> IResult<&str, CopyStatement> {
     map(
-        pair(pair(tag_no_case("copy"), sp1), silent_from_to),
+        pair(pair(tag_no_case("copy"), sp), silent_from_to),
         |(_, (silent, from, to))| CopyStatement { silent, from, to },
     )(i)
 }
 
 pub(crate) fn silent_from_to(i: &str) -> IResult<&str, (bool, GraphOrDefault, GraphOrDefault)> {
     tuple((
-        map(opt(terminated(silent, sp1)), Option::unwrap_or_default),
+        map(opt(terminated(silent, sp)), Option::unwrap_or_default),
         graph_or_default,
         preceded(sp_enc(tag_no_case("to")), graph_or_default),
     ))(i)
@@ -135,8 +135,8 @@ pub(crate) fn silent_from_to(i: &str) -> IResult<&str, (bool, GraphOrDefault, Gr
 pub(crate) fn create_stmt(i: &str) -> IResult<&str, CreateStatement> {
     map(
         tuple((
-            pair(tag_no_case("create"), sp1),
-            map(opt(terminated(silent, sp1)), Option::unwrap_or_default),
+            pair(tag_no_case("create"), sp),
+            map(opt(terminated(silent, sp)), Option::unwrap_or_default),
             graph_ref,
         )),
         |(_, silent, graph_ref)| CreateStatement { silent, graph_ref },
@@ -145,7 +145,7 @@ pub(crate) fn create_stmt(i: &str) -> IResult<&str, CreateStatement> {
 
 pub(crate) fn drop_stmt(i: &str) -> IResult<&str, DropStatement> {
     map(
-        pair(pair(tag_no_case("drop"), sp1), silent_graph_ref_all),
+        pair(pair(tag_no_case("drop"), sp), silent_graph_ref_all),
         |(_, (silent, graph_ref_all))| DropStatement {
             silent,
             graph_ref_all,
@@ -155,7 +155,7 @@ pub(crate) fn drop_stmt(i: &str) -> IResult<&str, DropStatement> {
 
 pub(crate) fn clear_stmt(i: &str) -> IResult<&str, ClearStatement> {
     map(
-        pair(pair(tag_no_case("clear"), sp1), silent_graph_ref_all),
+        pair(pair(tag_no_case("clear"), sp), silent_graph_ref_all),
         |(_, (silent, graph_ref_all))| ClearStatement {
             silent,
             graph_ref_all,
@@ -165,7 +165,7 @@ pub(crate) fn clear_stmt(i: &str) -> IResult<&str, ClearStatement> {
 
 pub(crate) fn silent_graph_ref_all(i: &str) -> IResult<&str, (bool, GraphRefAll)> {
     pair(
-        map(opt(terminated(silent, sp1)), Option::unwrap_or_default),
+        map(opt(terminated(silent, sp)), Option::unwrap_or_default),
         graph_ref_all,
     )(i)
 }
@@ -173,8 +173,8 @@ pub(crate) fn silent_graph_ref_all(i: &str) -> IResult<&str, (bool, GraphRefAll)
 pub(crate) fn load_stmt(i: &str) -> IResult<&str, LoadStatement> {
     map(
         tuple((
-            pair(tag_no_case("load"), sp1),
-            map(opt(terminated(silent, sp1)), Option::unwrap_or_default),
+            pair(tag_no_case("load"), sp),
+            map(opt(terminated(silent, sp)), Option::unwrap_or_default),
             iri,
             opt(preceded(sp_enc(tag_no_case("into")), graph_ref)),
         )),
-- 
2.43.0


From 7e19046657fc5747e48953c88619ef9ecf679c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:11 +0000
Subject: [PATCH 47/51] fix: parse quads with layout between their parts

Triples after a GRAPH block and any further GRAPH block were refused when
layout stood before them.
---
 src/quads.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/quads.rs b/src/quads.rs
index ad96970..8b42f23 100644
--- a/src/quads.rs
+++ b/src/quads.rs
@@ -49,7 +49,10 @@ pub(crate) fn quad_data(i: &str) -> IResult<&str, Quads> {
 
 pub(crate) fn quads(i: &str) -> IResult<&str, Quads> {
     map(
-        pair(opt(terminated(triples_template, sp)), many0(quads_entry)),
+        pair(
+            opt(terminated(triples_template, sp)),
+            many0(terminated(quads_entry, sp)),
+        ),
         |(first_triples, entries)| Quads {
             first_triple: first_triples,
             entries,
@@ -73,7 +76,11 @@ pub(crate) fn quads_not_triples(i: &str) -> IResult<&str, QuadsNotTriples> {
 
 pub(crate) fn quads_entry(i: &str) -> IResult<&str, QuadsEntry> {
     map(
-        separated_pair(quads_not_triples, opt(char('.')), opt(triples_template)),
+        separated_pair(
+            quads_not_triples,
+            opt(preceded(sp, char('.'))),
+            opt(preceded(sp, triples_template)),
+        ),
         |(quads_not_triples, triples_template)| QuadsEntry {
             quads_not_triples,
             triples_template,
-- 
2.43.0


From 39acb842c598987f76983d1e596c3c248c2c520d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:12 +0000
Subject: [PATCH 48/51] fix: a simple literal is compatible with simple and
 xsd:string literals

It was with literals that have a language tag, against the definition that
the method documents.
---
 src/literal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/literal.rs b/src/literal.rs
index 01eedb9..f14a03e 100644
--- a/src/literal.rs
+++ b/src/literal.rs
@@ -38,9 +38,9 @@ impl StringLiteral {
         match self {
             StringLiteral::Simple(_) => {
                 if let StringLiteral::Language(_) = arg2 {
-                    true
-                } else {
                     false
+                } else {
+                    true
                 }
             }
             StringLiteral::Language((_, lang)) => {
-- 
2.43.0


From 772b32c19ebf4b6c2d38430b0ee275f52c2d5bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:14 +0000
Subject: [PATCH 49/51] fix: export the update parser

Update and its parts are public but nothing outside the crate could parse
an update request.
---
 src/update.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/update.rs b/src/update.rs
index 7adea96..cb793fa 100644
--- a/src/update.rs
+++ b/src/update.rs
@@ -38,7 +38,7 @@ pub enum UpdateStatement {
     Modify(Box<ModifyStatement>),
 }
 
-pub(crate) fn update(i: &str) -> IResult<&str, Update> {
+pub fn update(i: &str) -> IResult<&str, Update> {
     map(
         tuple((
             prologue,
-- 
2.43.0


From 342f47f8e9dac3616230471ddee87912316433c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:40 +0000
Subject: [PATCH 50/51] fix: the dot of a decimal does not end a statement

---
 src/graph.rs     |  4 ++--
 src/quads.rs     |  4 ++--
 src/terminals.rs |  5 +++++
 src/triple.rs    | 10 +++++-----
 4 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/graph.rs b/src/graph.rs
index 14bebef..75387fe 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -22,7 +22,7 @@ use crate::{
     query::select::{sub_select, SubSelect},
     terminals::sp_sep1,
     terminals::{
-        anon, default_or_named_iri, iri, nil, pn_chars_tail, pn_chars_u_one, pn_local,
+        anon, default_or_named_iri, dot, iri, nil, pn_chars_tail, pn_chars_u_one, pn_local,
         preceded_tag1, rdf_literal, sp, sp1, sp_enc, sp_enc1, sp_sep, tag_no_case
     },
     triple::{property_list, property_list_not_empty, triples_block, triples_node, TriplesBlock},
@@ -208,7 +208,7 @@ pub(crate) fn group_graph_pattern_and_triples(i: &str) -> IResult<&str, GraphPat
     map(
         separated_pair(
             graph_pattern_not_triples,
-            opt(preceded(sp, char('.'))),
+            opt(preceded(sp, dot)),
             opt(preceded(sp, triples_block)),
         ),
         |(graph_pattern, triples)| GraphPatternAndTriples {
diff --git a/src/quads.rs b/src/quads.rs
index 8b42f23..a1f89fb 100644
--- a/src/quads.rs
+++ b/src/quads.rs
@@ -16,7 +16,7 @@ use crate::{
     graph::graph_node,
     node::{Collection, ObjectList, PropertyList, TriplesNode},
     path::{triples_same_subject_path, TriplesSameSubjectPath},
-    terminals::{bracketted, sp, sp_enc, sp_sep, sp_sep1, tag_no_case},
+    terminals::{bracketted, dot, sp, sp_enc, sp_sep, sp_sep1, tag_no_case},
     triple::{triples_template, TriplesTemplate},
     var::{var_or_iri, var_or_term, VarOrIri, VarOrTerm, VerbList},
 };
@@ -78,7 +78,7 @@ pub(crate) fn quads_entry(i: &str) -> IResult<&str, QuadsEntry> {
     map(
         separated_pair(
             quads_not_triples,
-            opt(preceded(sp, char('.'))),
+            opt(preceded(sp, dot)),
             opt(preceded(sp, triples_template)),
         ),
         |(quads_not_triples, triples_template)| QuadsEntry {
diff --git a/src/terminals.rs b/src/terminals.rs
index 4c193ff..c1cac69 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -104,6 +104,11 @@ pub(crate) fn sp1(i: &str) -> IResult<&str, &str> {
     recognize(pair(alt((recognize(one_of(" \t")), new_line, comment)), sp))(i)
 }
 
+/// the dot behind a statement, which is not the dot of a decimal
+pub(crate) fn dot(i: &str) -> IResult<&str, char> {
+    terminated(char('.'), not(digit1))(i)
+}
+
 pub(crate) fn new_line(i: &str) -> IResult<&str, &str> {
     recognize(pair(opt(comment), one_of("\r\n")))(i)
 }
diff --git a/src/triple.rs b/src/triple.rs
index f0580c3..1ccac7e 100644
--- a/src/triple.rs
+++ b/src/triple.rs
@@ -16,7 +16,7 @@ use crate::{
     graph::graph_node,
     node::{Collection, ObjectList, PropertyList, TriplesNode},
     path::{triples_same_subject_path, TriplesSameSubjectPath},
-    terminals::{bracketted, sp, sp_enc, sp_sep, sp_sep1},
+    terminals::{bracketted, dot, sp, sp_enc, sp_sep, sp_sep1},
     var::{var_or_iri, var_or_term, verb, VarOrIri, VarOrTerm, Verb, VerbList},
 };
 
@@ -92,8 +92,8 @@ pub(crate) fn triples_node(i: &str) -> IResult<&str, TriplesNode> {
 pub(crate) fn triples_block(i: &str) -> IResult<&str, TriplesBlock> {
     map(
         terminated(
-            separated_nonempty_list(sp_enc(char('.')), triples_same_subject_path),
-            opt(preceded(sp, char('.'))),
+            separated_nonempty_list(sp_enc(dot), triples_same_subject_path),
+            opt(preceded(sp, dot)),
         ),
         TriplesBlock,
     )(i)
@@ -101,8 +101,8 @@ pub(crate) fn triples_block(i: &str) -> IResult<&str, TriplesBlock> {
 
 pub(crate) fn triples_template(i: &str) -> IResult<&str, TriplesTemplate> {
     terminated(
-        separated_nonempty_list(sp_enc(char('.')), triples_same_subject),
-        opt(preceded(sp, char('.'))),
+        separated_nonempty_list(sp_enc(dot), triples_same_subject),
+        opt(preceded(sp, dot)),
     )(i)
 }
 
-- 
2.43.0


From 8df1b35bc7cc003dba6b7f9c1baf14a4e6be5cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:47 +0000
Subject: [PATCH 51/51] fix: a long update sequence no longer needs stack for
 every operation

---
 src/update.rs | 51 ++++++++++++++++++++++++++-------------------------
 1 file changed, 26 insertions(+), 25 deletions(-)

diff --git a/src/update.rs b/src/update.rs
index cb793fa..2569abd 100644
--- a/src/update.rs
+++ b/src/update.rs
@@ -2,8 +2,7 @@ use nom::{
     branch::alt,
     character::complete::char,
     combinator::{map, opt},
-    sequence::preceded,
-    sequence::{pair, tuple},
+    sequence::{pair, preceded},
     IResult,
 };
 
@@ -39,30 +38,32 @@ pub enum UpdateStatement {
 }
 
 pub fn update(i: &str) -> IResult<&str, Update> {
-    map(
-        tuple((
-            prologue,
-            opt(pair(
-                preceded(sp, update_stmt),
-                opt(preceded(sp_enc(char(';')), map(update, Box::new))),
-            )),
-        )),
-        |(prologue, opts)| {
-            if let Some((update_stmt, inner_update)) = opts {
-                Update {
-                    prologue,
-                    update_stmt: Some(update_stmt),
-                    inner_update,
-                }
-            } else {
-                Update {
-                    prologue,
-                    update_stmt: None,
-                    inner_update: None,
-                }
+    let operation = pair(prologue, opt(preceded(sp, update_stmt)));
+    // a loop, so that a long sequence needs no more stack than a single operation
+    let (mut i, mut last) = operation(i)?;
+    let mut earlier = Vec::new();
+    while last.1.is_some() {
+        match sp_enc(char(';'))(i) {
+            Ok((rest, _)) => {
+                let (rest, next) = operation(rest)?;
+                earlier.push(std::mem::replace(&mut last, next));
+                i = rest;
             }
-        },
-    )(i)
+            Err(_) => break,
+        }
+    }
+    let nest = |inner_update, (prologue, update_stmt)| Update {
+        prologue,
+        update_stmt,
+        inner_update,
+    };
+    let update = earlier
+        .into_iter()
+        .rev()
+        .fold(nest(None, last), |inner, operation| {
+            nest(Some(Box::new(inner)), operation)
+        });
+    Ok((i, update))
 }
 
 pub(crate) fn update_stmt(i: &str) -> IResult<&str, UpdateStatement> {
-- 
2.43.0

