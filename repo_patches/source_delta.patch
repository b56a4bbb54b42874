From 73d40805b9b3ecd8b6d643a9707fa935eca2d788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:51 +0000
Subject: [PATCH 01/11] fix: LLSelection::after is None exactly when nothing
 follows the selection

---
 src/ll_line/ll_selection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ll_line/ll_selection.rs b/src/ll_line/ll_selection.rs
index 251fb73..628da42 100644
--- a/src/ll_line/ll_selection.rs
+++ b/src/ll_line/ll_selection.rs
@@ -257,7 +257,7 @@ impl LLSelection {
     pub fn after(&self) -> Option<LLSelection> {
         let ll_line_end = self.ll_line.ll_tokens.len() - 1;
 
-        if self.start_idx + 1 == ll_line_end {
+        if self.end_idx == ll_line_end {
             None
         } else {
             Some(LLSelection {
-- 
2.43.0


From 4792b6ab04d2d1fb44c15b946da5a3331a94ff6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:51 +0000
Subject: [PATCH 02/11] fix: trimming a match that reaches the first token
 leaves no selection

---
 src/ll_line/ll_selection.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/ll_line/ll_selection.rs b/src/ll_line/ll_selection.rs
index 628da42..c104455 100644
--- a/src/ll_line/ll_selection.rs
+++ b/src/ll_line/ll_selection.rs
@@ -339,10 +339,8 @@ impl LLSelection {
                 )
                 .first()
             {
-                new_end = (first_match.1)
-                    .0
-                    .checked_sub(1)
-                    .unwrap_or((first_match.1).0);
+                // a match starting on the first token of the line leaves nothing before it
+                new_end = (first_match.1).0.checked_sub(1)?;
             }
         }
 
-- 
2.43.0


From 354645f36185828d9b3e8a1349946c4db4ef73ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:51 +0000
Subject: [PATCH 03/11] fix: split_by never returns tokens covered by an
 overlapping match

---
 src/ll_line/ll_selection.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ll_line/ll_selection.rs b/src/ll_line/ll_selection.rs
index c104455..d7009ae 100644
--- a/src/ll_line/ll_selection.rs
+++ b/src/ll_line/ll_selection.rs
@@ -66,7 +66,13 @@ impl LLSelection {
     }
 
     pub fn split_by<'a, M: XMatch<'a>>(&'a self, matcher: &M) -> Vec<LLSelection> {
-        let matches = self.find_by(matcher);
+        let mut matches = self.find_by(matcher);
+
+        // matches can overlap, make each one reach as far as any match before it
+        for idx in 1..matches.len() {
+            let furthest_end_idx = matches[idx - 1].0.end_idx.max(matches[idx].0.end_idx);
+            matches[idx].0.end_idx = furthest_end_idx;
+        }
 
         if matches.is_empty() {
             return vec![self.clone()];
-- 
2.43.0


From 14b76844dfe78c775b513295fd7be6c452f81ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:51 +0000
Subject: [PATCH 04/11] fix: token_has_any does not panic on a token without
 attributes

---
 src/ll_line/x.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/ll_line/x.rs b/src/ll_line/x.rs
index 1bd4048..b4b11b0 100644
--- a/src/ll_line/x.rs
+++ b/src/ll_line/x.rs
@@ -143,9 +143,8 @@ impl<'l> XDirection<'l> for XForwards {
             .attrs
             .values
             .get(&(self.from_idx, self.from_idx))
-            .expect("Huh... match_forwards was at the end")
-            .get::<T>()
-            .iter()
+            .into_iter()
+            .flat_map(|type_bucket| type_bucket.get::<T>())
             .filter_map(|value| {
                 if set.contains(value) {
                     Some((value, ToIdx(self.from_idx)))
-- 
2.43.0


From 1d959551572d4c3b69805c32a21b8469b9673f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:15 +0000
Subject: [PATCH 05/11] fix: token_has_any matches attributes of a single token
 in both directions

---
 src/ll_line/x.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ll_line/x.rs b/src/ll_line/x.rs
index b4b11b0..0a9f086 100644
--- a/src/ll_line/x.rs
+++ b/src/ll_line/x.rs
@@ -255,6 +255,8 @@ impl<'l> XDirection<'l> for XBackwards {
             .expect("Huh... Backwards::next_attr was at the start")
             .get::<T>()
             .iter()
+            // only attributes of the token itself, same as forwards
+            .filter(|range| range.0 == range.1)
             .flat_map(|range| {
                 ll_line
                     .attrs
-- 
2.43.0


From 1d8309d7650d58c7f0734c87b2f8c72604066162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:16 +0000
Subject: [PATCH 06/11] fix: do not panic on words which start with a digit and
 are not ascii

---
 src/create_tokens.rs | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/create_tokens.rs b/src/create_tokens.rs
index 3bcf5ed..57b924f 100644
--- a/src/create_tokens.rs
+++ b/src/create_tokens.rs
@@ -103,13 +103,6 @@ where
             // http://www.unicode.org/reports/tr29/#Word_Boundaries
             // if \d+[,\.a-zA-Z]\d+ or more repeats (3 is minimum)
             if unicode_word.chars().next().unwrap().is_ascii_digit() {
-                // make assumtions about the length of every char being 1
-                assert!(
-                    unicode_word.is_ascii(),
-                    "Unexpected non-ascii digit word boundary: {}",
-                    unicode_word
-                );
-
                 let mut collected_digits = String::new();
                 let mut collected_letters = String::new();
 
-- 
2.43.0


From a8308e5f544182efb5e694b5a465df646dda5377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:16 +0000
Subject: [PATCH 07/11] fix: only tag documented punctuation as PUNC inside of
 numbers

---
 src/create_tokens.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/create_tokens.rs b/src/create_tokens.rs
index 57b924f..5265b54 100644
--- a/src/create_tokens.rs
+++ b/src/create_tokens.rs
@@ -144,7 +144,8 @@ where
                         insert_collected_digits!();
                         let text = String::from(ch);
                         let size = get_text_size(&text);
-                        ltokens.push((LToken::Text(text, TextTag::PUNC), size));
+                        let tag = get_word_tag::get_unicode_word_tag(&text);
+                        ltokens.push((LToken::Text(text, tag), size));
                     }
                 }
 
-- 
2.43.0


From 33e361927394f8588d66acfa704ccdbf10556515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:16 +0000
Subject: [PATCH 08/11] fix: french amounts use a comma as decimal point

---
 layered-amount/src/amounts.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layered-amount/src/amounts.rs b/layered-amount/src/amounts.rs
index 49e835b..0b23c53 100644
--- a/layered-amount/src/amounts.rs
+++ b/layered-amount/src/amounts.rs
@@ -51,7 +51,7 @@ impl AmountResolver {
     pub fn french() -> Self {
         Self {
             delimiters: vec![' ', '.', '\''],
-            decimal: '.',
+            decimal: ',',
         }
     }
 }
-- 
2.43.0


From 7bf22077d5ffe95691c648ddc29d31d78c489911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:16 +0000
Subject: [PATCH 09/11] fix: digits only continue an amount after a delimiter
 or a decimal point

---
 layered-amount/src/amounts.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/layered-amount/src/amounts.rs b/layered-amount/src/amounts.rs
index 0b23c53..063aecc 100644
--- a/layered-amount/src/amounts.rs
+++ b/layered-amount/src/amounts.rs
@@ -98,14 +98,14 @@ impl Resolver for AmountResolver {
                     last_valid_selection = Some(selection);
                     number_string.push('.');
                     selection = with_decimal_sel;
-                }
 
-                if let Some((following_decimal_sel, ((), text))) = selection
-                    .match_first_forwards(&x::all((x::attr_eq(&TextTag::NATN), x::token_text())))
-                {
-                    number_string.push_str(text);
-                    last_valid_selection = None;
-                    selection = following_decimal_sel;
+                    if let Some((following_decimal_sel, ((), text))) = selection
+                        .match_first_forwards(&x::all((x::attr_eq(&TextTag::NATN), x::token_text())))
+                    {
+                        number_string.push_str(text);
+                        last_valid_selection = None;
+                        selection = following_decimal_sel;
+                    }
                 }
             }
 
-- 
2.43.0


From d39e24435dad5483bf31d2d42541a8a07768ef23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:16 +0000
Subject: [PATCH 10/11] fix: skip numbers which do not fit in a Decimal instead
 of panicking

---
 layered-amount/src/amounts.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/layered-amount/src/amounts.rs b/layered-amount/src/amounts.rs
index 063aecc..803ef86 100644
--- a/layered-amount/src/amounts.rs
+++ b/layered-amount/src/amounts.rs
@@ -109,11 +109,14 @@ impl Resolver for AmountResolver {
                 }
             }
 
-            attrs.push(
-                last_valid_selection
-                    .unwrap_or_else(|| selection.clone())
-                    .finish_with_attr(Amount(number_string.parse::<Decimal>().unwrap())),
-            );
+            // more digits than a Decimal can hold
+            if let Ok(decimal) = number_string.parse::<Decimal>() {
+                attrs.push(
+                    last_valid_selection
+                        .unwrap_or_else(|| selection.clone())
+                        .finish_with_attr(Amount(decimal)),
+                );
+            }
 
             if let [_, Some(right_sel)] = search_range_sel.split_with(&selection) {
                 search_range_sel = right_sel;
-- 
2.43.0


From 4eeaaedfb3061fde8d55319a1101b3651ac9102e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:16 +0000
Subject: [PATCH 11/11] fix: keep the attributes of keys which only differ by
 their case

---
 src/resolvers/text_match.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/resolvers/text_match.rs b/src/resolvers/text_match.rs
index 2fbc603..e00b450 100644
--- a/src/resolvers/text_match.rs
+++ b/src/resolvers/text_match.rs
@@ -24,8 +24,14 @@ impl<T: Debug + Clone + 'static> TextMatchAssignResolver<T> {
             case_sensitive: false,
             lookup: lookup
                 .into_iter()
-                .map(|(key, val)| (key.to_lowercase(), val))
-                .collect(),
+                .fold(HashMap::new(), |mut lookup, (key, val)| {
+                    // keys can differ only by their case
+                    lookup
+                        .entry(key.to_lowercase())
+                        .or_insert_with(Vec::new)
+                        .extend(val);
+                    lookup
+                }),
         }
     }
     pub fn new_case_insensitive_str_arr<const N: usize>(lookup: [(&'static str, T); N]) -> Self {
@@ -33,8 +39,14 @@ impl<T: Debug + Clone + 'static> TextMatchAssignResolver<T> {
             case_sensitive: false,
             lookup: lookup
                 .iter()
-                .map(|(key, val)| (key.to_lowercase(), vec![val.clone()]))
-                .collect(),
+                .fold(HashMap::new(), |mut lookup, (key, val)| {
+                    // keys can be repeated or differ only by their case
+                    lookup
+                        .entry(key.to_lowercase())
+                        .or_insert_with(Vec::new)
+                        .push(val.clone());
+                    lookup
+                }),
         }
     }
 }
-- 
2.43.0

