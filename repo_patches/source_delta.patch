From 244b4e488a67d5dbe18f07eb14fbbbf0ccf25e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:10 +0000
Subject: [PATCH 01/13] fix: token_has_any panicked on a token that carries no
 attribute

A custom input token without attributes has no values bucket, and looking
at it with `token_has_any` (as the amount resolver does with the token after
a number) panicked instead of reporting no match.
---
 src/ll_line/x.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/ll_line/x.rs b/src/ll_line/x.rs
index 1bd4048..b4b11b0 100644
--- a/src/ll_line/x.rs
+++ b/src/ll_line/x.rs
@@ -143,9 +143,8 @@ impl<'l> XDirection<'l> for XForwards {
             .attrs
             .values
             .get(&(self.from_idx, self.from_idx))
-            .expect("Huh... match_forwards was at the end")
-            .get::<T>()
-            .iter()
+            .into_iter()
+            .flat_map(|type_bucket| type_bucket.get::<T>())
             .filter_map(|value| {
                 if set.contains(value) {
                     Some((value, ToIdx(self.from_idx)))
-- 
2.43.0


From 4dff3b58b6f7160b2b4f04d7433271ff410d1ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:10 +0000
Subject: [PATCH 02/13] fix: token_has_any matched multi-token spans when going
 backwards

`token_has_any` matches a single token; only its backwards version also
reported attributes of longer spans that end at that token.
---
 src/ll_line/x.rs | 30 ++++++++++--------------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/src/ll_line/x.rs b/src/ll_line/x.rs
index b4b11b0..6de4d4b 100644
--- a/src/ll_line/x.rs
+++ b/src/ll_line/x.rs
@@ -250,26 +250,16 @@ impl<'l> XDirection<'l> for XBackwards {
         //   [...] - Trying to match Attr
         ll_line
             .attrs
-            .ends_at
-            .get(self.from_idx)
-            .expect("Huh... Backwards::next_attr was at the start")
-            .get::<T>()
-            .iter()
-            .flat_map(|range| {
-                ll_line
-                    .attrs
-                    .values
-                    .get(range)
-                    .unwrap()
-                    .get::<T>()
-                    .iter()
-                    .filter_map(move |val| {
-                        if set.contains(val) {
-                            Some((val, ToIdx(range.0)))
-                        } else {
-                            None
-                        }
-                    })
+            .values
+            .get(&(self.from_idx, self.from_idx))
+            .into_iter()
+            .flat_map(|type_bucket| type_bucket.get::<T>())
+            .filter_map(|val| {
+                if set.contains(val) {
+                    Some((val, ToIdx(self.from_idx)))
+                } else {
+                    None
+                }
             })
             .collect()
     }
-- 
2.43.0


From 2c59cce782930d94ccd7f3f7245414bc855e59bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:10 +0000
Subject: [PATCH 03/13] fix: LLSelection::after tested the wrong end of the
 selection

It returned an empty selection past the end of the line for a selection that
reaches the last token, and None for one that starts at the second-to-last
token although tokens may follow it.
---
 src/ll_line/ll_selection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ll_line/ll_selection.rs b/src/ll_line/ll_selection.rs
index 251fb73..628da42 100644
--- a/src/ll_line/ll_selection.rs
+++ b/src/ll_line/ll_selection.rs
@@ -257,7 +257,7 @@ impl LLSelection {
     pub fn after(&self) -> Option<LLSelection> {
         let ll_line_end = self.ll_line.ll_tokens.len() - 1;
 
-        if self.start_idx + 1 == ll_line_end {
+        if self.end_idx == ll_line_end {
             None
         } else {
             Some(LLSelection {
-- 
2.43.0


From 7b90ec347fb116e3640bba978b811682df663b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:10 +0000
Subject: [PATCH 04/13] fix: split_by returned tokens covered by a separator

When a match is nested in an earlier, longer match, the piece after it
started inside the longer one.
---
 src/ll_line/ll_selection.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ll_line/ll_selection.rs b/src/ll_line/ll_selection.rs
index 628da42..1ee20d1 100644
--- a/src/ll_line/ll_selection.rs
+++ b/src/ll_line/ll_selection.rs
@@ -66,7 +66,14 @@ impl LLSelection {
     }
 
     pub fn split_by<'a, M: XMatch<'a>>(&'a self, matcher: &M) -> Vec<LLSelection> {
-        let matches = self.find_by(matcher);
+        let mut matches = self.find_by(matcher);
+
+        // a match can be nested in an earlier longer one, never resume before the furthest end
+        let mut furthest_end_idx = 0;
+        for (selection, _) in &mut matches {
+            furthest_end_idx = furthest_end_idx.max(selection.end_idx);
+            selection.end_idx = furthest_end_idx;
+        }
 
         if matches.is_empty() {
             return vec![self.clone()];
-- 
2.43.0


From af969907a74a5fe56c13f4992b74fb50f6fef37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:10 +0000
Subject: [PATCH 05/13] fix: trim_end kept the first token of the line when
 everything is trimmed

A match reaching back to token 0 left that token in the selection instead
of trimming everything, as trim_start does.
---
 src/ll_line/ll_selection.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/ll_line/ll_selection.rs b/src/ll_line/ll_selection.rs
index 1ee20d1..180164c 100644
--- a/src/ll_line/ll_selection.rs
+++ b/src/ll_line/ll_selection.rs
@@ -346,10 +346,8 @@ impl LLSelection {
                 )
                 .first()
             {
-                new_end = (first_match.1)
-                    .0
-                    .checked_sub(1)
-                    .unwrap_or((first_match.1).0);
+                // nothing is left when the match reaches the first token of the line
+                new_end = (first_match.1).0.checked_sub(1)?;
             }
         }
 
-- 
2.43.0


From ebca978bee076d669db993f388ed03ebaaa7bc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:10 +0000
Subject: [PATCH 06/13] fix: AmountResolver panicked on numbers too large for a
 Decimal

---
 layered-amount/src/amounts.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/layered-amount/src/amounts.rs b/layered-amount/src/amounts.rs
index 49e835b..91ee22c 100644
--- a/layered-amount/src/amounts.rs
+++ b/layered-amount/src/amounts.rs
@@ -109,11 +109,14 @@ impl Resolver for AmountResolver {
                 }
             }
 
-            attrs.push(
-                last_valid_selection
-                    .unwrap_or_else(|| selection.clone())
-                    .finish_with_attr(Amount(number_string.parse::<Decimal>().unwrap())),
-            );
+            // numbers too large for a Decimal are not Amounts
+            if let Ok(decimal) = number_string.parse::<Decimal>() {
+                attrs.push(
+                    last_valid_selection
+                        .unwrap_or_else(|| selection.clone())
+                        .finish_with_attr(Amount(decimal)),
+                );
+            }
 
             if let [_, Some(right_sel)] = search_range_sel.split_with(&selection) {
                 search_range_sel = right_sel;
-- 
2.43.0


From 1a4c4679e1c435f4adcff62e2d2bd63fe10a4f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:10 +0000
Subject: [PATCH 07/13] fix: AmountResolver::french used a period instead of a
 comma as decimal point

---
 layered-amount/src/amounts.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layered-amount/src/amounts.rs b/layered-amount/src/amounts.rs
index 91ee22c..0fbac81 100644
--- a/layered-amount/src/amounts.rs
+++ b/layered-amount/src/amounts.rs
@@ -51,7 +51,7 @@ impl AmountResolver {
     pub fn french() -> Self {
         Self {
             delimiters: vec![' ', '.', '\''],
-            decimal: '.',
+            decimal: ',',
         }
     }
 }
-- 
2.43.0


From 04f00bd023dc004294702ec1303c6c18cf1461af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:10 +0000
Subject: [PATCH 08/13] fix: AmountResolver glued a number to the next one
 without a decimal point

The digits after the decimal point were looked for even when there was no
decimal point, so that adjacent number tokens (from consecutive input
tokens) became one amount, two at a time.
---
 layered-amount/src/amounts.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/layered-amount/src/amounts.rs b/layered-amount/src/amounts.rs
index 0fbac81..fc8e4f4 100644
--- a/layered-amount/src/amounts.rs
+++ b/layered-amount/src/amounts.rs
@@ -98,14 +98,14 @@ impl Resolver for AmountResolver {
                     last_valid_selection = Some(selection);
                     number_string.push('.');
                     selection = with_decimal_sel;
-                }
 
-                if let Some((following_decimal_sel, ((), text))) = selection
-                    .match_first_forwards(&x::all((x::attr_eq(&TextTag::NATN), x::token_text())))
-                {
-                    number_string.push_str(text);
-                    last_valid_selection = None;
-                    selection = following_decimal_sel;
+                    if let Some((following_decimal_sel, ((), text))) = selection
+                        .match_first_forwards(&x::all((x::attr_eq(&TextTag::NATN), x::token_text())))
+                    {
+                        number_string.push_str(text);
+                        last_valid_selection = None;
+                        selection = following_decimal_sel;
+                    }
                 }
             }
 
-- 
2.43.0


From b553ced50dd87f0d16c031cb6356f358217a81b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:10 +0000
Subject: [PATCH 09/13] fix: AmountResolver cut grouped fraction digits off

`1.00,00` is documented to be `1.0000` but was read as `1.00` and `00`.
---
 layered-amount/src/amounts.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/layered-amount/src/amounts.rs b/layered-amount/src/amounts.rs
index fc8e4f4..66ada93 100644
--- a/layered-amount/src/amounts.rs
+++ b/layered-amount/src/amounts.rs
@@ -105,6 +105,17 @@ impl Resolver for AmountResolver {
                         number_string.push_str(text);
                         last_valid_selection = None;
                         selection = following_decimal_sel;
+
+                        // 1.00,00
+                        while let Some((following_group_sel, (_, (_, text)))) = selection
+                            .match_first_forwards(&x::seq((
+                                x::token_has_any(self.delimiters.as_slice()),
+                                x::all((x::attr_eq(&TextTag::NATN), x::token_text())),
+                            )))
+                        {
+                            number_string.push_str(text);
+                            selection = following_group_sel;
+                        }
                     }
                 }
             }
-- 
2.43.0


From ab23c0e78c9e58822c1d5d29d95294ffa0fb1b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:10 +0000
Subject: [PATCH 10/13] fix: creating a line panicked on a digit followed by a
 non-ascii letter or mark
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

"5é", "10µm" or a keycap emoji are single unicode words which start with an
ascii digit. The splitting works on chars, so it needs no ascii assumption.
---
 src/create_tokens.rs | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/create_tokens.rs b/src/create_tokens.rs
index 3bcf5ed..57b924f 100644
--- a/src/create_tokens.rs
+++ b/src/create_tokens.rs
@@ -103,13 +103,6 @@ where
             // http://www.unicode.org/reports/tr29/#Word_Boundaries
             // if \d+[,\.a-zA-Z]\d+ or more repeats (3 is minimum)
             if unicode_word.chars().next().unwrap().is_ascii_digit() {
-                // make assumtions about the length of every char being 1
-                assert!(
-                    unicode_word.is_ascii(),
-                    "Unexpected non-ascii digit word boundary: {}",
-                    unicode_word
-                );
-
                 let mut collected_digits = String::new();
                 let mut collected_letters = String::new();
 
-- 
2.43.0


From 2d1f314589b7bb32a46ab49bae8e694cd729f74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:10 +0000
Subject: [PATCH 11/13] fix: symbols inside a digit word were tagged as
 punctuation

`_` in "1_000" (or a mark in a keycap emoji) is not English punctuation, and
is tagged SYMB anywhere else.
---
 src/create_tokens.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/create_tokens.rs b/src/create_tokens.rs
index 57b924f..5265b54 100644
--- a/src/create_tokens.rs
+++ b/src/create_tokens.rs
@@ -144,7 +144,8 @@ where
                         insert_collected_digits!();
                         let text = String::from(ch);
                         let size = get_text_size(&text);
-                        ltokens.push((LToken::Text(text, TextTag::PUNC), size));
+                        let tag = get_word_tag::get_unicode_word_tag(&text);
+                        ltokens.push((LToken::Text(text, tag), size));
                     }
                 }
 
-- 
2.43.0


From d9831bf7ea32f45b547dceb0c86c43e45787e988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:10 +0000
Subject: [PATCH 12/13] fix: case-insensitive text match dropped entries whose
 keys differ by case

With both "Slack" and "slack" in the lookup only one of the two entries
survived, and which one was random for the HashMap constructor.
---
 src/resolvers/text_match.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/resolvers/text_match.rs b/src/resolvers/text_match.rs
index 2fbc603..c8fc9ca 100644
--- a/src/resolvers/text_match.rs
+++ b/src/resolvers/text_match.rs
@@ -22,23 +22,32 @@ impl<T: Debug + Clone + 'static> TextMatchAssignResolver<T> {
     pub fn new_case_insensitive(lookup: HashMap<String, Vec<T>>) -> Self {
         TextMatchAssignResolver {
             case_sensitive: false,
-            lookup: lookup
-                .into_iter()
-                .map(|(key, val)| (key.to_lowercase(), val))
-                .collect(),
+            lookup: merge_by_lowercase(lookup),
         }
     }
     pub fn new_case_insensitive_str_arr<const N: usize>(lookup: [(&'static str, T); N]) -> Self {
         TextMatchAssignResolver {
             case_sensitive: false,
-            lookup: lookup
-                .iter()
-                .map(|(key, val)| (key.to_lowercase(), vec![val.clone()]))
-                .collect(),
+            lookup: merge_by_lowercase(
+                lookup
+                    .iter()
+                    .map(|(key, val)| (key.to_string(), vec![val.clone()])),
+            ),
         }
     }
 }
 
+/// Keys which only differ by their case are the same entry
+fn merge_by_lowercase<T>(
+    lookup: impl IntoIterator<Item = (String, Vec<T>)>,
+) -> HashMap<String, Vec<T>> {
+    let mut merged: HashMap<String, Vec<T>> = HashMap::new();
+    for (key, values) in lookup {
+        merged.entry(key.to_lowercase()).or_default().extend(values);
+    }
+    merged
+}
+
 impl<T: Debug + Clone + 'static + Send + Sync> Resolver for TextMatchAssignResolver<T> {
     type Attr = T;
 
-- 
2.43.0


From 64e835870a6342f762bbe45b3ffb7c7058d0bfc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:55 +0000
Subject: [PATCH 13/13] fix: order of values of case-insensitive text match
 entries depended on the hash seed

---
 src/resolvers/text_match.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/resolvers/text_match.rs b/src/resolvers/text_match.rs
index c8fc9ca..f2e7f45 100644
--- a/src/resolvers/text_match.rs
+++ b/src/resolvers/text_match.rs
@@ -20,6 +20,10 @@ impl<T: Debug + Clone + 'static> TextMatchAssignResolver<T> {
         }
     }
     pub fn new_case_insensitive(lookup: HashMap<String, Vec<T>>) -> Self {
+        // the order of merged values must not depend on the order of the hash map
+        let mut lookup: Vec<(String, Vec<T>)> = lookup.into_iter().collect();
+        lookup.sort_by(|(a, _), (b, _)| a.cmp(b));
+
         TextMatchAssignResolver {
             case_sensitive: false,
             lookup: merge_by_lowercase(lookup),
-- 
2.43.0

