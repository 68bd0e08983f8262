From 0ceb0889a2e93265e6749b6c3181b5b570e368be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:28 +0000
Subject: [PATCH 01/10] fix: grow the char buffer in
 FzfParser::parse_not_extended

Queries longer than the initial 64 chars panicked with an out of bounds
index because only `parse` resized the buffer.
---
 src/metrics/fzf/parser.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/metrics/fzf/parser.rs b/src/metrics/fzf/parser.rs
index 08647e8..a68408f 100644
--- a/src/metrics/fzf/parser.rs
+++ b/src/metrics/fzf/parser.rs
@@ -170,6 +170,12 @@ impl FzfParser {
     /// ```
     #[inline]
     pub fn parse_not_extended<'a>(&'a mut self, query: &str) -> FzfQuery<'a> {
+        let max_chars = query.len();
+
+        if self.chars.len() < max_chars {
+            self.chars.resize(max_chars, char::default());
+        }
+
         let mut char_len = 0;
 
         for ch in query.chars() {
-- 
2.43.0


From be2ea7c8df921a088f37e79b14fbd91ab9e71ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:30 +0000
Subject: [PATCH 02/10] fix: don't drop the negation of a query made of a
 single !'term

A single inverse fuzzy pattern was turned into a non-extended query, which
ignores `is_inverse`, so `!'foo` matched exactly the candidates it should
have excluded.
---
 src/metrics/fzf/query.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/metrics/fzf/query.rs b/src/metrics/fzf/query.rs
index fdf913b..d0ac322 100644
--- a/src/metrics/fzf/query.rs
+++ b/src/metrics/fzf/query.rs
@@ -49,7 +49,8 @@ impl<'a> FzfQuery<'a> {
     #[inline]
     pub(super) fn new_extended(conditions: &'a [Condition<'a>]) -> Self {
         // If there's only one condition with a single pattern, and that
-        // pattern is fuzzy, then we can use the non-extended search mode.
+        // pattern is fuzzy (and not negated), then we can use the non-extended
+        // search mode.
         if conditions.len() == 1 {
             let mut patterns = conditions[0].iter();
 
@@ -59,6 +60,7 @@ impl<'a> FzfQuery<'a> {
 
             if patterns.next().is_none()
                 && matches!(first_pattern.match_type, MatchType::Fuzzy)
+                && !first_pattern.is_inverse
             {
                 return Self {
                     search_mode: SearchMode::NotExtended(first_pattern),
-- 
2.43.0


From c0d33360e9c7dfdbf9a7f5e2817c96197a3ca787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:58 +0000
Subject: [PATCH 03/10] fix: leave the ranges buffer untouched if a later
 condition fails

`distance_and_ranges` is documented to leave the buffer untouched if the
candidate doesn't match, but the ranges of the AND conditions preceding the
one that failed were left in it.
---
 src/matched_ranges.rs  |  7 +++++++
 src/metrics/fzf/fzf.rs | 11 +++++++++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/matched_ranges.rs b/src/matched_ranges.rs
index 664ad61..82e6524 100644
--- a/src/matched_ranges.rs
+++ b/src/matched_ranges.rs
@@ -59,6 +59,13 @@ impl<'a> MatchedRanges<'a> {
         self.ranges[self.initial_len..].binary_search_by(fun)
     }
 
+    /// Removes all the ranges inserted so far, leaving the ones that were
+    /// already in the buffer untouched.
+    #[inline(always)]
+    pub(crate) fn clear(&mut self) {
+        self.ranges.truncate(self.initial_len);
+    }
+
     /// TODO: docs
     #[inline(always)]
     fn get_mut(&mut self, idx: usize) -> Option<&mut Range<usize>> {
diff --git a/src/metrics/fzf/fzf.rs b/src/metrics/fzf/fzf.rs
index 7eb0339..fe3add6 100644
--- a/src/metrics/fzf/fzf.rs
+++ b/src/metrics/fzf/fzf.rs
@@ -163,9 +163,16 @@ pub(super) trait Fzf {
             SearchMode::Extended(conditions) => {
                 let mut total_score: Score = 0;
                 for condition in conditions {
-                    total_score += condition.iter().find_map(|pattern| {
+                    let Some(score) = condition.iter().find_map(|pattern| {
                         self.score::<RANGES>(pattern, candidate, ranges)
-                    })?;
+                    }) else {
+                        // The candidate doesn't match the query, so we have
+                        // to remove the ranges inserted by the conditions
+                        // that did match.
+                        ranges.clear();
+                        return None;
+                    };
+                    total_score += score;
                 }
                 Some(FzfDistance::from_score(total_score))
             },
-- 
2.43.0


From 52cebf2f653b811765d4e90c280d83aa5da4d9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:00 +0000
Subject: [PATCH 04/10] fix: don't lose coverage when an inserted range spans
 existing ones

`MatchedRanges::insert` dropped the end of the new range (or left ranges
overlapping) when it extended past the end of the range it was merged with,
e.g. `b 'abc` matched in "abc" reported 0..2 instead of 0..3.
---
 src/matched_ranges.rs | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/matched_ranges.rs b/src/matched_ranges.rs
index 82e6524..fb7e735 100644
--- a/src/matched_ranges.rs
+++ b/src/matched_ranges.rs
@@ -93,18 +93,16 @@ impl<'a> MatchedRanges<'a> {
                     return;
                 }
 
+                range.end = new_range.end;
+
                 if let Some(next_range) = next_range {
                     if new_range.end >= next_range.start {
                         // The new range fills the gap between this range and
                         // the next one.
-                        range.end = next_range.end;
-                        self.remove(idx + 1);
-                        return;
+                        self.merge_following(idx);
                     }
                 }
 
-                range.end = new_range.end;
-
                 return;
             },
         };
@@ -118,6 +116,8 @@ impl<'a> MatchedRanges<'a> {
 
             if new_range.end >= first_range.start {
                 first_range.start = new_range.start;
+                first_range.end = first_range.end.max(new_range.end);
+                self.merge_following(0);
             } else {
                 self.insert_at(0, new_range);
             }
@@ -152,8 +152,8 @@ impl<'a> MatchedRanges<'a> {
             // ------   ------    =>    ---------------
             //     xxxxxxx
             (true, true) => {
-                prev_range.end = next_range.end;
-                self.remove(insert_idx);
+                prev_range.end = prev_range.end.max(new_range.end);
+                self.merge_following(insert_idx - 1);
             },
 
             // The new range starts within an existing range but ends before
@@ -173,6 +173,8 @@ impl<'a> MatchedRanges<'a> {
             //         xxxx
             (false, true) => {
                 next_range.start = new_range.start;
+                next_range.end = next_range.end.max(new_range.end);
+                self.merge_following(insert_idx);
             },
 
             // The new range is strictly within an existing gap, so we just
@@ -205,6 +207,25 @@ impl<'a> MatchedRanges<'a> {
         self.ranges.len() - self.initial_len
     }
 
+    /// Merges the range at the given index with all the ranges following it
+    /// that it touches.
+    #[inline]
+    fn merge_following(&mut self, idx: usize) {
+        while idx + 1 < self.len() {
+            let (left, right) = self.split_at_mut(idx + 1);
+
+            let (range, next_range) = (&mut left[idx], &right[0]);
+
+            if next_range.start > range.end {
+                break;
+            }
+
+            range.end = range.end.max(next_range.end);
+
+            self.remove(idx + 1);
+        }
+    }
+
     /// TODO: docs
     #[inline(always)]
     fn push(&mut self, range: Range<usize>) {
-- 
2.43.0


From a0af859e4111f6366b5cc41ffcb03b50c4fa1ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:30 +0000
Subject: [PATCH 05/10] fix: don't let V2's gap penalties bring a score below
 zero

`Score` is signed, so `saturating_sub` no longer stops at zero: a long gap
made all the following scores negative, which could leave a match without
a positive score (and without ranges).
---
 src/metrics/fzf/fzf_v2.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/metrics/fzf/fzf_v2.rs b/src/metrics/fzf/fzf_v2.rs
index 7b4061d..6f95470 100644
--- a/src/metrics/fzf/fzf_v2.rs
+++ b/src/metrics/fzf/fzf_v2.rs
@@ -444,7 +444,7 @@ fn score_first_row(
         penalty = penalty::GAP_START;
 
         for col in column + 1..char_offset {
-            let score = prev_score.saturating_sub(penalty);
+            let score = (prev_score - penalty).max(0);
             scores_first_row[col] = score;
             prev_score = score;
             penalty = penalty::GAP_EXTENSION;
@@ -469,7 +469,7 @@ fn score_first_row(
     }
 
     for col in column + 1..scores_first_row.len() {
-        let score = prev_score.saturating_sub(penalty);
+        let score = (prev_score - penalty).max(0);
         scores_first_row[col] = score;
         prev_score = score;
         penalty = penalty::GAP_EXTENSION;
@@ -514,14 +514,14 @@ fn score_remaining_rows(
 
             for col in column + 1..char_offset {
                 let score_left = scores_row[col - 1];
-                let score = score_left.saturating_sub(penalty);
+                let score = (score_left - penalty).max(0);
                 scores_row[col] = score;
                 penalty = penalty::GAP_EXTENSION;
             }
 
             column = char_offset;
 
-            let score_left = scores_row[column - 1].saturating_sub(penalty);
+            let score_left = (scores_row[column - 1] - penalty).max(0);
 
             let mut score_up_left = prev_scores_row[column - 1] + bonus::MATCH;
 
@@ -560,7 +560,7 @@ fn score_remaining_rows(
 
         for col in column + 1..matrix_width {
             let score_left = scores_row[col - 1];
-            let score = score_left.saturating_sub(penalty);
+            let score = (score_left - penalty).max(0);
             scores_row[col] = score;
             penalty = penalty::GAP_EXTENSION;
         }
-- 
2.43.0


From ae40920d563ee7abba7a465a45f82ac4f9ab0f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:32 +0000
Subject: [PATCH 06/10] fix: only consider V2's last row when looking for the
 best score

A cell in any other row scores a match of a proper prefix of the pattern.
If that was the best score in the matrix the reported ranges didn't include
the last characters of the query, e.g. `ab` matched in "a" followed by 30
'x's and a "b" reported 0..1.
---
 src/metrics/fzf/fzf_v2.rs | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/src/metrics/fzf/fzf_v2.rs b/src/metrics/fzf/fzf_v2.rs
index 6f95470..5194425 100644
--- a/src/metrics/fzf/fzf_v2.rs
+++ b/src/metrics/fzf/fzf_v2.rs
@@ -399,7 +399,7 @@ fn score<'scoring, 'consecutive>(
     let mut consecutive_matrix =
         consecutive_slab.alloc(matrix_width, matrix_height);
 
-    let (max_score, max_score_cell) = score_first_row(
+    score_first_row(
         scoring_matrix.row_mut(0),
         consecutive_matrix.row_mut(0),
         pattern.char(0),
@@ -414,8 +414,6 @@ fn score<'scoring, 'consecutive>(
         candidate,
         scheme,
         matches,
-        max_score,
-        max_score_cell,
     );
 
     (scoring_matrix, consecutive_matrix, max_score, max_score_cell)
@@ -429,13 +427,9 @@ fn score_first_row(
     first_pattern_char: char,
     candidate: &mut CandidateV2,
     scheme: &Scheme,
-) -> (Score, MatrixCell) {
-    let mut max_score: Score = 0;
-
+) {
     let mut prev_score: Score = 0;
 
-    let mut max_score_col: usize = 0;
-
     let mut column = 0;
 
     let mut penalty = penalty::GAP_START;
@@ -460,11 +454,6 @@ fn score_first_row(
 
         scores_first_row[column] = score;
 
-        if score > max_score {
-            max_score = score;
-            max_score_col = column;
-        }
-
         prev_score = score;
     }
 
@@ -474,8 +463,6 @@ fn score_first_row(
         prev_score = score;
         penalty = penalty::GAP_EXTENSION;
     }
-
-    (max_score, MatrixCell(max_score_col))
 }
 
 /// TODO: docs
@@ -487,12 +474,17 @@ fn score_remaining_rows(
     candidate: &mut CandidateV2,
     scheme: &Scheme,
     matches: &[usize],
-    mut max_score: Score,
-    mut max_score_cell: MatrixCell,
 ) -> (Score, MatrixCell) {
     let matrix_width = scores.width();
 
+    let mut max_score: Score = 0;
+
+    let mut max_score_cell = MatrixCell(0);
+
     for row_idx in 1..scores.height() {
+        // Only the cells in the last row score a match of the whole pattern.
+        let is_last_row = row_idx + 1 == scores.height();
+
         let pattern_char = pattern.char(row_idx);
 
         let (prev_scores_row, scores_row) =
@@ -548,7 +540,7 @@ fn score_remaining_rows(
 
             let score = score_left.max(score_up_left);
 
-            if score > max_score {
+            if is_last_row && score > max_score {
                 max_score = score;
                 max_score_cell = MatrixCell(row_idx * matrix_width + column);
             }
-- 
2.43.0


From 228b5485d5d9efef9233df710bace6610f17fe8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:18 +0000
Subject: [PATCH 07/10] fix: charge V2's gap-opening penalty exactly once per
 gap

When the last match in a row was preceded by a gap the penalty was still set
to the gap-extension one, so the gap following that match cost less than it
should have. Conversely, when a character equal to the pattern's was skipped
because extending the current gap scores better than matching it, the gap
was charged the opening penalty again after it.
---
 src/metrics/fzf/fzf_v2.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/metrics/fzf/fzf_v2.rs b/src/metrics/fzf/fzf_v2.rs
index 5194425..5945af6 100644
--- a/src/metrics/fzf/fzf_v2.rs
+++ b/src/metrics/fzf/fzf_v2.rs
@@ -435,8 +435,6 @@ fn score_first_row(
     let mut penalty = penalty::GAP_START;
 
     for char_offset in candidate.matches(first_pattern_char) {
-        penalty = penalty::GAP_START;
-
         for col in column + 1..char_offset {
             let score = (prev_score - penalty).max(0);
             scores_first_row[col] = score;
@@ -455,6 +453,8 @@ fn score_first_row(
         scores_first_row[column] = score;
 
         prev_score = score;
+
+        penalty = penalty::GAP_START;
     }
 
     for col in column + 1..scores_first_row.len() {
@@ -502,8 +502,6 @@ fn score_remaining_rows(
         for char_offset in
             candidate.matches_from(first_match_offset, pattern_char)
         {
-            penalty = penalty::GAP_START;
-
             for col in column + 1..char_offset {
                 let score_left = scores_row[col - 1];
                 let score = (score_left - penalty).max(0);
@@ -548,6 +546,14 @@ fn score_remaining_rows(
             consecutives_row[column] = consecutive;
 
             scores_row[column] = score;
+
+            // If the best score comes from the left this character is itself
+            // part of a gap, so the following ones don't open a new one.
+            penalty = if score_left > score_up_left {
+                penalty::GAP_EXTENSION
+            } else {
+                penalty::GAP_START
+            };
         }
 
         for col in column + 1..matrix_width {
-- 
2.43.0


From 4eb65ace5796a84941b445da47e301de97e96f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:20 +0000
Subject: [PATCH 08/10] fix: use the right previous character in exact matches

After trying an occurrence of an exact pattern the search restarts from the
character following its first one, but the class of the previous character
wasn't reset, so the bonus of the following occurrences could be wrong.
---
 src/metrics/fzf/fzf.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/metrics/fzf/fzf.rs b/src/metrics/fzf/fzf.rs
index fe3add6..2b27949 100644
--- a/src/metrics/fzf/fzf.rs
+++ b/src/metrics/fzf/fzf.rs
@@ -205,11 +205,15 @@ fn exact_match<const RANGES: bool>(
     // TODO: docs
     let mut matched = false;
 
-    let mut prev_class = scheme.initial_char_class;
-
     let mut start_offset = 0;
 
     'outer: loop {
+        let mut prev_class = if start_offset == 0 {
+            scheme.initial_char_class
+        } else {
+            char_class(candidate.char(start_offset - 1), scheme)
+        };
+
         let current_start_offset = start_offset;
         let mut bonus_start = 0;
         let mut current_bonus: Score = 0;
-- 
2.43.0


From 112ce24a23deeae580be43a729230fe2506b250f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:22 +0000
Subject: [PATCH 09/10] fix: score a digit after a boundary as being at a
 boundary

A digit following a whitespace, a delimiter or a non-word character got the
(lower) bonus of a letter-to-digit transition instead of the one of the
boundary, so `1` was a worse match in "a/1" than `b` was in "a/b".
---
 src/metrics/fzf/scoring.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/metrics/fzf/scoring.rs b/src/metrics/fzf/scoring.rs
index cdbee33..c04cbfe 100644
--- a/src/metrics/fzf/scoring.rs
+++ b/src/metrics/fzf/scoring.rs
@@ -89,7 +89,9 @@ pub(super) fn compute_bonus(
 
         Upper if prev_class == Lower => bonus::CAMEL_123,
 
-        Number if prev_class != Number => bonus::CAMEL_123,
+        Number if matches!(prev_class, Lower | Upper | Letter) => {
+            bonus::CAMEL_123
+        },
 
         _ => {
             if prev_class == WhiteSpace {
-- 
2.43.0


From d78dde9ee09bd6458047dc0900025812b3bddcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:39 +0000
Subject: [PATCH 10/10] fix: ignore the case of non-ASCII letters in
 case-insensitive searches
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

A case-insensitive search is documented to ignore the case of letters, but
only the case of ASCII ones was ignored, so e.g. `é` didn't match "É".
---
 src/utils.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 61f16b6..4f4d26c 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -15,12 +15,12 @@ pub fn ascii_letter_flip_case(ascii_letter: u8) -> u8 {
 
 #[inline(always)]
 pub fn case_insensitive_eq(lhs: char, rhs: char) -> bool {
-    lhs.eq_ignore_ascii_case(&rhs)
+    lhs.eq_ignore_ascii_case(&rhs) || non_ascii_case_insensitive_eq(lhs, rhs)
 }
 
 #[inline(always)]
 pub fn case_insensitive_normalized_eq(lhs: char, rhs: char) -> bool {
-    lhs.eq_ignore_ascii_case(&normalize_candidate_char(lhs, rhs))
+    case_insensitive_eq(lhs, normalize_candidate_char(lhs, rhs))
 }
 
 #[inline(always)]
@@ -49,6 +49,15 @@ fn leading_spaces(s: &str) -> usize {
     s.bytes().take_while(|&b| b == b' ').count()
 }
 
+/// Whether the two characters are both outside the ASCII range and only differ
+/// by their case.
+#[inline(always)]
+fn non_ascii_case_insensitive_eq(lhs: char, rhs: char) -> bool {
+    !lhs.is_ascii()
+        && !rhs.is_ascii()
+        && lhs.to_lowercase().eq(rhs.to_lowercase())
+}
+
 /// TODO: docs
 #[inline(always)]
 fn normalize_candidate_char(query_char: char, candidate_char: char) -> char {
-- 
2.43.0

