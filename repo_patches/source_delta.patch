From 179d472a4b7db45a6ffdb76736e471c2f1c310b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:49 +0000
Subject: [PATCH 1/9] fix: keep all digits of integer strings above 2^53

The integer operand of a string without a fraction was taken from its f64
value, so "9007199254740993" had i = 9007199254740992 and selected the
category of a different number.
---
 intl_pluralrules/src/operands.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/intl_pluralrules/src/operands.rs b/intl_pluralrules/src/operands.rs
index 102ae87..729fd59 100644
--- a/intl_pluralrules/src/operands.rs
+++ b/intl_pluralrules/src/operands.rs
@@ -103,7 +103,8 @@ impl<'a> TryFrom<&'a str> for PluralOperands {
                 u64::from_str(dec_str).map_err(|_| "Could not convert string to integer!")?;
             fraction_digits = u64::from_str(backtrace).unwrap_or(0);
         } else {
-            integer_digits = absolute_value as u64;
+            // A float cannot hold every 64-bit integer, so prefer the digits themselves.
+            integer_digits = u64::from_str(&abs_str).unwrap_or(absolute_value as u64);
             num_fraction_digits0 = 0;
             num_fraction_digits = 0;
             fraction_digits0 = 0;
-- 
2.43.0


From a84e59a9cda792cdf2ffdd814f1147a94f8d0905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:49 +0000
Subject: [PATCH 2/9] fix: refuse strings that do not denote a finite decimal
 number

"--5" was accepted with n = -5 and i = 0, "NaN" and "inf" with made-up
integer digits, and "15e-1" with n = 1.5 but no fraction digits.
---
 intl_pluralrules/src/operands.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/intl_pluralrules/src/operands.rs b/intl_pluralrules/src/operands.rs
index 729fd59..c059fb6 100644
--- a/intl_pluralrules/src/operands.rs
+++ b/intl_pluralrules/src/operands.rs
@@ -81,6 +81,10 @@ impl<'a> TryFrom<&'a str> for PluralOperands {
         };
 
         let absolute_value = f64::from_str(&abs_str).map_err(|_| "Incorrect number passed!")?;
+        // NaN, infinity and numbers with a second sign have no plural operands.
+        if !absolute_value.is_finite() || absolute_value.is_sign_negative() {
+            return Err("Incorrect number passed!");
+        }
 
         let integer_digits;
         let num_fraction_digits0;
@@ -103,6 +107,10 @@ impl<'a> TryFrom<&'a str> for PluralOperands {
                 u64::from_str(dec_str).map_err(|_| "Could not convert string to integer!")?;
             fraction_digits = u64::from_str(backtrace).unwrap_or(0);
         } else {
+            // A fraction hidden in an exponent ("15e-1") has no visible fraction digits.
+            if absolute_value.fract() != 0.0 {
+                return Err("Could not convert string to integer!");
+            }
             // A float cannot hold every 64-bit integer, so prefer the digits themselves.
             integer_digits = u64::from_str(&abs_str).unwrap_or(absolute_value as u64);
             num_fraction_digits0 = 0;
-- 
2.43.0


From 2d081ba9a67a2a80ced4b8a36313a282df1cb39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:18 +0000
Subject: [PATCH 3/9] fix: return the samples of rules that have no condition

The text of a rule starting with samples (every "other" rule of CLDR) was
discarded, so its samples were lost and anything after an @ was accepted.
---
 cldr_pluralrules_parser/src/parser.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cldr_pluralrules_parser/src/parser.rs b/cldr_pluralrules_parser/src/parser.rs
index 324708f..4671af2 100644
--- a/cldr_pluralrules_parser/src/parser.rs
+++ b/cldr_pluralrules_parser/src/parser.rs
@@ -148,11 +148,11 @@ fn samples(i: &str) -> IResult<&str, Option<Samples>> {
     map(
         tuple((
             opt(preceded(
-                tuple((space1, tag("@integer"), space1)),
+                tuple((space0, tag("@integer"), space1)),
                 sample_list,
             )),
             opt(preceded(
-                tuple((space1, tag("@decimal"), space1)),
+                tuple((space0, tag("@decimal"), space1)),
                 sample_list,
             )),
         )),
@@ -179,7 +179,7 @@ pub fn parse_condition(i: &str) -> IResult<&str, Condition> {
     }
 
     if i.trim().starts_with("@") {
-        return IResult::Ok(("", Condition(vec![])));
+        return IResult::Ok((i, Condition(vec![])));
     }
     map(
         separated_nonempty_list(tuple((space1, tag("or"), space1)), and_condition),
-- 
2.43.0


From 7cf78fd4d98fadcb3979db2760e1085b36147adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:18 +0000
Subject: [PATCH 4/9] fix: accept optional blanks around all rule tokens

UTS #35 allows blanks between or around any tokens, so "n%10=1", "n = 2 .. 4"
and rules with leading or trailing blanks are well-formed, but were refused.
---
 cldr_pluralrules_parser/src/parser.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/cldr_pluralrules_parser/src/parser.rs b/cldr_pluralrules_parser/src/parser.rs
index 4671af2..ecd0a74 100644
--- a/cldr_pluralrules_parser/src/parser.rs
+++ b/cldr_pluralrules_parser/src/parser.rs
@@ -16,7 +16,7 @@ fn value(i: &str) -> IResult<&str, Value> {
 
 fn range(i: &str) -> IResult<&str, Range> {
     map(
-        separated_pair(value, tag(".."), value),
+        separated_pair(value, tuple((space0, tag(".."), space0)), value),
         |(lower_val, upper_val)| Range {
             lower_val,
             upper_val,
@@ -52,7 +52,7 @@ fn operand(i: &str) -> IResult<&str, Operand> {
 
 fn mod_expression(i: &str) -> IResult<&str, Option<Modulo>> {
     opt(map(
-        preceded(tuple((space0, alt((tag("mod"), tag("%"))), space1)), value),
+        preceded(tuple((space0, alt((tag("mod"), tag("%"))), space0)), value),
         Modulo,
     ))(i)
 }
@@ -167,9 +167,10 @@ fn samples(i: &str) -> IResult<&str, Option<Samples>> {
 }
 
 pub fn parse_rule(i: &str) -> IResult<&str, Rule> {
-    map(tuple((parse_condition, samples)), |(condition, samples)| {
-        Rule { condition, samples }
-    })(i)
+    map(
+        tuple((parse_condition, samples, space0)),
+        |(condition, samples, _)| Rule { condition, samples },
+    )(i)
 }
 
 pub fn parse_condition(i: &str) -> IResult<&str, Condition> {
@@ -182,7 +183,10 @@ pub fn parse_condition(i: &str) -> IResult<&str, Condition> {
         return IResult::Ok((i, Condition(vec![])));
     }
     map(
-        separated_nonempty_list(tuple((space1, tag("or"), space1)), and_condition),
+        preceded(
+            space0,
+            separated_nonempty_list(tuple((space1, tag("or"), space1)), and_condition),
+        ),
         Condition,
     )(i)
 }
-- 
2.43.0


From 3a16aac818afecf5340b6aa6853b3e1956603efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:18 +0000
Subject: [PATCH 5/9] fix: do not silently truncate a condition that fails to
 parse

parse_plural_condition("n = 1 or x = 2") returned just "n = 1".
---
 cldr_pluralrules_parser/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cldr_pluralrules_parser/src/lib.rs b/cldr_pluralrules_parser/src/lib.rs
index c75f236..d87d021 100644
--- a/cldr_pluralrules_parser/src/lib.rs
+++ b/cldr_pluralrules_parser/src/lib.rs
@@ -87,7 +87,9 @@ pub fn parse_plural_rule<S: AsRef<str>>(source: S) -> Result<ast::Rule, String>
 
 pub fn parse_plural_condition<S: AsRef<str>>(source: S) -> Result<ast::Condition, String> {
     match parser::parse_condition(source.as_ref()) {
-        Ok((_, rule)) => Ok(rule),
+        // Only samples may follow the condition.
+        Ok((left, rule)) if left.trim().is_empty() || left.trim().starts_with('@') => Ok(rule),
+        Ok((left, _)) => Err(format!("Left string: {}", left)),
         _ => Err("Parser failed".to_string()),
     }
 }
-- 
2.43.0


From 819bb3965e8568db428ae8f7c62ecd1277863c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:13 +0000
Subject: [PATCH 6/9] fix: evaluate 'x % m within ...' on the operand that is
 written

The modulus of a within relation was always taken of i, so 'f % 10 within
1..2' tested the integer digits.
---
 make_pluralrules/src/parser/gen_pr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/make_pluralrules/src/parser/gen_pr.rs b/make_pluralrules/src/parser/gen_pr.rs
index c31936f..9c36312 100644
--- a/make_pluralrules/src/parser/gen_pr.rs
+++ b/make_pluralrules/src/parser/gen_pr.rs
@@ -101,7 +101,7 @@ fn create_relation(rel: Relation) -> TokenStream {
                 if !mod_check {
                     quote!(po.#l)
                 } else {
-                    quote!(po.i % #m)
+                    quote!(po.#l % #m)
                 },
             )
         };
-- 
2.43.0


From 1e32461481765f15eba30e83cde97b7a1eb2c204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:39 +0000
Subject: [PATCH 7/9] fix: generate every value and range of a within relation

Only the first range of the list was generated, and a list of plain values
made the generator abort with an index out of bounds.
---
 make_pluralrules/src/parser/gen_pr.rs | 50 ++++++++++++++-------------
 1 file changed, 26 insertions(+), 24 deletions(-)

diff --git a/make_pluralrules/src/parser/gen_pr.rs b/make_pluralrules/src/parser/gen_pr.rs
index 9c36312..1151acc 100644
--- a/make_pluralrules/src/parser/gen_pr.rs
+++ b/make_pluralrules/src/parser/gen_pr.rs
@@ -84,30 +84,31 @@ fn create_relation(rel: Relation) -> TokenStream {
 
     // If within type operator, use format x < po && po < y
     if operator == Operator::Within || operator == Operator::NotWithin {
-        let rfront = &(r1.1)[0].0;
-        let rback = &(r1.1)[0].1;
-
-        // Variants handled here
-        let (rfront, rback, whole_symbol) = if left.operand == Operand::N {
-            if !mod_check {
-                (quote!(#rfront.0), quote!(#rback.0), quote!(po.#l))
-            } else {
-                (quote!(#rfront), quote!(#rback), quote!(po.i % #m))
-            }
-        } else {
-            (
-                quote!(#rfront),
-                quote!(#rback),
+        // A single value is a range of one.
+        let values = r1.0.into_iter().map(|v| (v.clone(), v));
+        for (rfront, rback) in values.chain(r1.1) {
+            // Variants handled here
+            let (rfront, rback, whole_symbol) = if left.operand == Operand::N {
                 if !mod_check {
-                    quote!(po.#l)
+                    (quote!(#rfront.0), quote!(#rback.0), quote!(po.#l))
                 } else {
-                    quote!(po.#l % #m)
-                },
-            )
-        };
+                    (quote!(#rfront), quote!(#rback), quote!(po.i % #m))
+                }
+            } else {
+                (
+                    quote!(#rfront),
+                    quote!(#rback),
+                    if !mod_check {
+                        quote!(po.#l)
+                    } else {
+                        quote!(po.#l % #m)
+                    },
+                )
+            };
 
-        let rel_tokens = quote! { #rfront #o #whole_symbol && #whole_symbol #o #rback};
-        relations.push(rel_tokens);
+            let rel_tokens = quote! { #rfront #o #whole_symbol && #whole_symbol #o #rback};
+            relations.push(rel_tokens);
+        }
     // if not within type, use format po < x
     } else {
         // Recurisvely fold all values
@@ -173,15 +174,16 @@ fn create_relation(rel: Relation) -> TokenStream {
 
     // Unfold all expressions from folded expressions
     match operator {
-        Operator::In | Operator::Is | Operator::EQ => {
+        Operator::In | Operator::Is | Operator::EQ | Operator::Within => {
             if relations.len() > 1 {
                 quote! { ( #(#relations)||* ) }
             } else {
                 quote! { #(#relations)||* }
             }
         }
-        Operator::NotIn | Operator::NotEQ | Operator::IsNot => quote! { #(#relations)&&* },
-        Operator::Within | Operator::NotWithin => quote! { #(#relations)||* },
+        Operator::NotIn | Operator::NotEQ | Operator::IsNot | Operator::NotWithin => {
+            quote! { #(#relations)&&* }
+        }
     }
 }
 
-- 
2.43.0


From 3aa25518053ec7273982eb36105b38b4329ba143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:39 +0000
Subject: [PATCH 8/9] fix: fail when rustfmt cannot format the output

The exit status of rustfmt was ignored: the tool reported success and left
unformatted text, which does not compile.
---
 make_pluralrules/src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/make_pluralrules/src/main.rs b/make_pluralrules/src/main.rs
index f8641a1..92f3ed9 100644
--- a/make_pluralrules/src/main.rs
+++ b/make_pluralrules/src/main.rs
@@ -29,10 +29,13 @@ fn main() -> std::io::Result<()> {
     file.write_all(complete_rs_code.as_bytes())?;
 
     if !matches.is_present("ugly") {
-        Command::new("rustfmt")
+        let formatted = Command::new("rustfmt")
             .args(&[output_path])
             .output()
             .expect("Failed to format the output using `rustfmt`");
+        if !formatted.status.success() {
+            panic!("Failed to format the output using `rustfmt`");
+        }
     }
 
     Ok(())
-- 
2.43.0


From 030b2964f7112d701d9cec1baee0e1b72a2dc488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:47 +0000
Subject: [PATCH 9/9] fix: refuse relations without a value

'n =' parsed to a relation with an empty list, which UTS #35 does not allow
and for which the generator writes code that does not compile.
---
 cldr_pluralrules_parser/src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cldr_pluralrules_parser/src/parser.rs b/cldr_pluralrules_parser/src/parser.rs
index ecd0a74..6643b65 100644
--- a/cldr_pluralrules_parser/src/parser.rs
+++ b/cldr_pluralrules_parser/src/parser.rs
@@ -5,7 +5,7 @@ use nom::{
     bytes::complete::tag,
     character::complete::{digit1, one_of, space0, space1},
     combinator::{map, map_res, opt},
-    multi::{separated_list, separated_nonempty_list},
+    multi::separated_nonempty_list,
     sequence::{preceded, separated_pair, tuple},
     IResult,
 };
@@ -33,7 +33,7 @@ fn range_list_item(i: &str) -> IResult<&str, RangeListItem> {
 
 fn range_list(i: &str) -> IResult<&str, RangeList> {
     map(
-        separated_list(tuple((space0, tag(","), space0)), range_list_item),
+        separated_nonempty_list(tuple((space0, tag(","), space0)), range_list_item),
         RangeList,
     )(i)
 }
-- 
2.43.0

