From 642f0395e48cb5f14c24065924771e202a574b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:58 +0000
Subject: [PATCH 01/79] fix: re-inserting a virtual path that has descendants
 must replace its value

---
 core/src/fs/path_tree.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/fs/path_tree.rs b/core/src/fs/path_tree.rs
index 2164926..1f325c1 100644
--- a/core/src/fs/path_tree.rs
+++ b/core/src/fs/path_tree.rs
@@ -767,8 +767,8 @@ impl Node {
                 }
             },
             Self::Branch { .. } => match ty {
-                PathType::Dir => (),
-                PathType::Unknown | PathType::File => return Err(TryInsertError::PathTypeConflict),
+                PathType::Dir | PathType::Unknown => (),
+                PathType::File => return Err(TryInsertError::PathTypeConflict),
             },
         }
 
-- 
2.43.0


From ce8bf8a0684e6fd9228ddf3970d2684bd3e1790c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:58 +0000
Subject: [PATCH 02/79] fix: path tree iteration must visit empty directories,
 and files() must skip directories

---
 core/src/fs/path_tree.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/src/fs/path_tree.rs b/core/src/fs/path_tree.rs
index 1f325c1..9f1206a 100644
--- a/core/src/fs/path_tree.rs
+++ b/core/src/fs/path_tree.rs
@@ -1023,18 +1023,18 @@ impl<'a> DfsVisitor<'a> {
                     }
                     let suffix = self.strip_prefix(component);
                     let prefix = self.prefix.join(suffix);
-                    if !children.is_empty() {
+                    if !children.is_empty() || data.is_some() {
                         match data {
                             // We have to emit the branch node first, so save the descent
                             // information for the next time `next` is called
-                            Some(data) => {
+                            Some(data) if !self.only_leaves => {
                                 self.queued =
                                     Some((prefix.clone(), relative_depth, children.as_slice()));
                                 break Some(Left((prefix, *data)));
                             }
                             // We don't need to emit the branch node, so return a new visitor
                             // to start descending into the children
-                            None => {
+                            _ => {
                                 break Some(Right(DfsVisitor::new(
                                     prefix,
                                     children.as_slice(),
-- 
2.43.0


From e45b4a176682b32125ecba54d174719b86f6c583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:36 +0000
Subject: [PATCH 03/79] fix: count columns in characters when mapping a line
 and column to an offset

---
 core/src/diagnostics/source_file.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/core/src/diagnostics/source_file.rs b/core/src/diagnostics/source_file.rs
index d82bafa..f5f8082 100644
--- a/core/src/diagnostics/source_file.rs
+++ b/core/src/diagnostics/source_file.rs
@@ -670,12 +670,14 @@ impl SourceContent {
             .content
             .get(line_span.start.to_usize()..line_span.end.to_usize())
             .expect("invalid line boundaries: invalid utf-8");
-        if line_src.len() < column_index {
-            return None;
-        }
-        let (pre, _) = line_src.split_at(column_index);
-        let start = line_span.start;
-        Some(start + ByteOffset::from_str_len(pre))
+        // Columns are counted in characters, as in `location`, so a column at the end of the
+        // line is the one immediately following its last character
+        let offset = line_src
+            .char_indices()
+            .map(|(offset, _)| offset)
+            .chain(core::iter::once(line_src.len()))
+            .nth(column_index)?;
+        Some(line_span.start + offset as u32)
     }
 
     /// Get a [FileLineCol] corresponding to the line/column in this file at which `byte_index`
-- 
2.43.0


From ea000fdd2cb6e4b785a780d7cb6444ef3ad5399b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:36 +0000
Subject: [PATCH 04/79] fix: report invalid ids and spans from the source
 manager instead of panicking

---
 core/src/diagnostics/source_manager.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/core/src/diagnostics/source_manager.rs b/core/src/diagnostics/source_manager.rs
index e205456..36fe42b 100644
--- a/core/src/diagnostics/source_manager.rs
+++ b/core/src/diagnostics/source_manager.rs
@@ -453,7 +453,10 @@ impl DefaultSourceManagerImpl {
     }
 
     fn file_line_col(&self, span: SourceSpan) -> Result<FileLineCol, SourceManagerError> {
-        self.get(span.source_id()).map(|file| file.location(span))
+        let file = self.get(span.source_id())?;
+        file.content()
+            .location(span.start())
+            .ok_or(SourceManagerError::InvalidBounds)
     }
 
     fn location_to_span(&self, loc: Location) -> Option<SourceSpan> {
@@ -464,7 +467,7 @@ impl DefaultSourceManagerImpl {
             .and_then(|id| self.get(id).ok())?;
 
         let max_len = ByteIndex::from(file.as_str().len() as u32);
-        if loc.start >= max_len || loc.end > max_len {
+        if loc.start > loc.end || loc.end > max_len {
             return None;
         }
 
@@ -498,7 +501,10 @@ impl SourceManager for DefaultSourceManager {
         let mut manager = self.0.write();
         match id.group() {
             SourceGroup::File => {
-                let source_file = &mut manager.files[id.to_index()];
+                let source_file = manager
+                    .files
+                    .get_mut(id.to_index())
+                    .ok_or(SourceManagerError::InvalidSourceId)?;
                 let source_file_cloned = Arc::make_mut(source_file);
                 source_file_cloned
                     .content_mut()
@@ -506,7 +512,10 @@ impl SourceManager for DefaultSourceManager {
                     .map_err(SourceManagerError::InvalidContentUpdate)
             }
             SourceGroup::Argument => {
-                let source_file = &mut manager.arguments[id.to_index()];
+                let source_file = manager
+                    .arguments
+                    .get_mut(id.to_index())
+                    .ok_or(SourceManagerError::InvalidSourceId)?;
                 let source_file_cloned = Arc::make_mut(source_file);
                 source_file_cloned
                     .content_mut()
-- 
2.43.0


From 2314dbc38a85a64cd563bd66a985c648f2334dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:36 +0000
Subject: [PATCH 05/79] fix: range popping, shrinking and truncation at their
 boundaries

---
 core/src/range.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/core/src/range.rs b/core/src/range.rs
index 706339c..41654fb 100644
--- a/core/src/range.rs
+++ b/core/src/range.rs
@@ -17,7 +17,7 @@ macro_rules! numeric_bound_impl {
     ($type:ty) => {
         impl NumericRangeBound for $type {
             const ZERO: Self = 0;
-            const ONE: Self = 0;
+            const ONE: Self = 1;
 
             #[inline(always)]
             fn saturating_sub(self, rhs: Self) -> Self {
@@ -100,13 +100,12 @@ impl<T: NumericRangeBound> Range<T> {
     /// Shrink the length of this range by one element from the front, returning the first item in the range.
     #[inline]
     pub fn pop_front(&mut self) -> Option<T> {
-        let item = self.start;
-        let next = item + <T as NumericRangeBound>::ONE;
-        if next <= self.end {
-            self.start = next;
-            Some(item)
-        } else {
+        if self.start == self.end {
             None
+        } else {
+            let item = self.start;
+            self.start += <T as NumericRangeBound>::ONE;
+            Some(item)
         }
     }
 
@@ -127,7 +126,8 @@ impl<T: NumericRangeBound> Range<T> {
     /// NOTE: This function will saturate to `self.end` to ensure the range remains valid.
     #[inline]
     pub fn shrink_front(&mut self, n: T) {
-        self.start = core::cmp::min(self.start + n, self.end);
+        // Clamp first, so that the addition cannot overflow
+        self.start += core::cmp::min(n, self.len());
     }
 
     /// Truncate this range such that it's length is `new_len`, i.e. `start..(start + new_len)`
@@ -137,7 +137,7 @@ impl<T: NumericRangeBound> Range<T> {
     /// NOTE: This function will panic if `new_len` is greater than the current length
     #[inline]
     pub fn truncate(&mut self, new_len: T) {
-        assert!(self.len() > new_len);
+        assert!(self.len() >= new_len);
         self.end = self.start + new_len;
     }
 }
-- 
2.43.0


From a93520ffce7790dbd3eded88228f3f7acffc14e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:36 +0000
Subject: [PATCH 06/79] fix: newline searches must search the whole buffer and
 report absolute offsets

---
 core/src/text/mod.rs | 28 ++++------------------------
 1 file changed, 4 insertions(+), 24 deletions(-)

diff --git a/core/src/text/mod.rs b/core/src/text/mod.rs
index d4538d4..de794f9 100644
--- a/core/src/text/mod.rs
+++ b/core/src/text/mod.rs
@@ -83,7 +83,7 @@ impl Newline {
 
     /// Find the last [Newline] in `buffer`
     pub fn prev(buffer: &[u8]) -> Self {
-        Self::prev_from(buffer, 0)
+        Self::prev_from(buffer, buffer.len())
     }
 
     /// Find the last [Newline] in `buffer`, searching backwards from `offset`.
@@ -101,7 +101,7 @@ impl Newline {
                             offset: prev_line_end,
                         },
                         _ => Self {
-                            ty: LineEnding::Crlf,
+                            ty: LineEnding::Lf,
                             offset: index,
                         },
                     }
@@ -125,17 +125,7 @@ pub fn find_next_lf_or_eof(buffer: &[u8], range: Range<usize>) -> Option<usize>
 }
 
 pub fn find_next_crlf_or_eof(buffer: &[u8], range: Range<usize>) -> Option<usize> {
-    match memchr::memchr(b'\n', &buffer[range]) {
-        Some(0) => None,
-        Some(index) => {
-            let line_end = index - 1;
-            match unsafe { *buffer.get_unchecked(line_end) } {
-                b'\r' => Some(line_end),
-                _ => None,
-            }
-        }
-        None => None,
-    }
+    memchr::memmem::find(&buffer[range], b"\r\n").map(|idx| range.start + idx)
 }
 
 pub fn find_prev_lf_or_eof(buffer: &[u8], range: Range<usize>) -> Option<usize> {
@@ -143,17 +133,7 @@ pub fn find_prev_lf_or_eof(buffer: &[u8], range: Range<usize>) -> Option<usize>
 }
 
 pub fn find_prev_crlf_or_eof(buffer: &[u8], range: Range<usize>) -> Option<usize> {
-    match memchr::memrchr(b'\n', &buffer[range]) {
-        Some(0) => None,
-        Some(index) => {
-            let line_end = index - 1;
-            match unsafe { *buffer.get_unchecked(line_end) } {
-                b'\r' => Some(line_end),
-                _ => None,
-            }
-        }
-        None => None,
-    }
+    memchr::memmem::rfind(&buffer[range], b"\r\n").map(|idx| range.start + idx)
 }
 
 /// Returns true if `offset` in the underlying buffer falls on a valid UTF-8 codepoint boundary.
-- 
2.43.0


From 3ccbff78f186b0e6bbcbf0def43541bb380a854b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:36 +0000
Subject: [PATCH 07/79] fix: searching a directory for inputs must terminate

---
 core/src/input.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/core/src/input.rs b/core/src/input.rs
index df20352..b588634 100644
--- a/core/src/input.rs
+++ b/core/src/input.rs
@@ -69,11 +69,9 @@ impl Input {
         let mut inputs = vec![];
         let walker = WalkDir::new(&self.0).into_iter();
         for entry in walker.filter_entry(|e| is_matching_file_type_or_dir(e, file_types)) {
+            // NOTE: The walker already descends into directories
             let input = Self(entry?.into_path());
-            if input.is_directory() {
-                let mut children = input.get_file_types(file_types)?;
-                inputs.append(&mut children);
-            } else {
+            if !input.is_directory() {
                 inputs.push(input);
             }
         }
@@ -108,11 +106,9 @@ impl Input {
         let mut inputs = vec![];
         let walker = WalkDir::new(&self.0).into_iter();
         for entry in walker.filter_entry(|e| is_dir_or_pattern_match(e, pattern)) {
+            // NOTE: The walker already descends into directories
             let input = Self(entry?.into_path());
-            if input.is_directory() {
-                let mut children = input.glob_pattern(pattern)?;
-                inputs.append(&mut children);
-            } else {
+            if !input.is_directory() {
                 inputs.push(input);
             }
         }
-- 
2.43.0


From aa328cb521193469d2294ba96ab2dbf55e312128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:34 +0000
Subject: [PATCH 08/79] fix: unordered pattern sets with repeated prefixes

Prefixes were indexed by check line rather than by unique prefix, which panicked (or
grouped suffixes under the wrong prefix) once a prefix occurred twice, and identical literal
patterns were collapsed into a single one.
---
 filecheck/src/pattern/matcher/matchers/all.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/filecheck/src/pattern/matcher/matchers/all.rs b/filecheck/src/pattern/matcher/matchers/all.rs
index dbce0e7..2fe6e68 100644
--- a/filecheck/src/pattern/matcher/matchers/all.rs
+++ b/filecheck/src/pattern/matcher/matchers/all.rs
@@ -54,11 +54,11 @@ impl<'a> MatchAll<'a> {
         let mut prefixes = Vec::with_capacity(raw_prefixes.len());
         let mut suffixes = Vec::<Vec<Pattern<'a>>>::with_capacity(raw_prefixes.len());
 
-        for (id, prefix) in raw_prefixes.iter().enumerate() {
+        for (line_id, prefix) in raw_prefixes.iter().enumerate() {
             let span = prefix.span();
             if let Some(canonical_prefix_id) = unique_prefixes.get(prefix).copied() {
                 let pattern =
-                    core::mem::replace(&mut unordered[id].pattern, CheckPattern::Empty(span));
+                    core::mem::replace(&mut unordered[line_id].pattern, CheckPattern::Empty(span));
                 if !pattern.is_empty() {
                     suffixes[canonical_prefix_id].push(Pattern::compile(pattern, config)?);
                 } else {
@@ -66,6 +66,8 @@ impl<'a> MatchAll<'a> {
                 }
                 continue;
             }
+            // Prefixes are identified by their position in the set of unique prefixes
+            let id = prefixes.len();
             let pattern_prefix = match &prefix {
                 Prefix::Literal(prefix) => PatternPrefix::Literal {
                     id,
@@ -94,7 +96,8 @@ impl<'a> MatchAll<'a> {
             };
             unique_prefixes.insert(prefix.clone(), id);
             prefixes.push(pattern_prefix);
-            let pattern = core::mem::replace(&mut unordered[id].pattern, CheckPattern::Empty(span));
+            let pattern =
+                core::mem::replace(&mut unordered[line_id].pattern, CheckPattern::Empty(span));
             if !pattern.is_empty() {
                 suffixes.push(vec![Pattern::compile(pattern, config)?]);
             } else {
@@ -109,14 +112,14 @@ impl<'a> MatchAll<'a> {
         // A single stage match means that each prefix is unique, and that the prefix represents the entire pattern
         let is_single_stage = suffixes
             .iter()
-            .all(|patterns| patterns.iter().all(|p| matches!(p, Pattern::Empty(_))));
+            .all(|patterns| matches!(patterns.as_slice(), [Pattern::Empty(_)]));
 
-        // Literal patterns are always single stage, and can be performed with a simple substring set matcher
+        // Literal patterns can be performed with a simple substring set matcher, unless the same
+        // literal was given more than once, in which case each one must be matched separately
         let is_literal = prefixes
             .iter()
             .all(|prefix| matches!(prefix, PatternPrefix::Literal { .. }));
-        if is_literal {
-            assert!(is_single_stage);
+        if is_literal && is_single_stage {
             // We can use a simple substring searcher in this case
             return SubstringSetMatcher::new(
                 prefixes
-- 
2.43.0


From 601fcd7ec46826c3c32bd016e8d17e1625caf45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:34 +0000
Subject: [PATCH 09/79] fix: CHECK-EMPTY must require an existing, empty next
 line

It failed when the previous match ended before the end of its line, and succeeded any number of
times at the end of the input, where there is no next line.
---
 filecheck/src/rules/empty.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/filecheck/src/rules/empty.rs b/filecheck/src/rules/empty.rs
index ebd4af2..9a3790f 100644
--- a/filecheck/src/rules/empty.rs
+++ b/filecheck/src/rules/empty.rs
@@ -23,14 +23,16 @@ impl Rule for CheckEmpty {
     where
         C: Context<'input, 'context> + ?Sized,
     {
-        // Next line must be empty, meaning the start of the line is the end of the line
+        // Next line must exist and be empty, meaning the start of the line is the end of the line
         let cursor = context.cursor_mut();
         let next_line_start = cursor.start_of_next_line();
         let next_eol = cursor
             .next_newline_from(next_line_start)
             .unwrap_or_else(|| cursor.end_of_file());
         let next_line = next_line_start..next_eol;
-        if cursor.at_end_of_line() && next_line.is_empty() {
+        let has_next_line =
+            next_line_start > cursor.start() && cursor.is_start_of_line(next_line_start);
+        if has_next_line && next_line.is_empty() {
             let span =
                 SourceSpan::from_range_unchecked(cursor.source_id, next_line_start..next_eol);
             // Move to the end of the empty line
@@ -42,8 +44,7 @@ impl Rule for CheckEmpty {
             .into())
         } else {
             // Report the line we required to be empty, so the failure shows what was there
-            // instead. When the cursor is mid-line, that line is included as well, since
-            // that is why we never got to consider the next one.
+            // instead, along with what remains of the current line.
             let searched = core::cmp::min(cursor.start(), next_line_start)..next_eol;
             Ok(MatchResult {
                 ty: MatchType::Failed(
-- 
2.43.0


From 623a8dd84cee0ae223b56bc204914521bcce9140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:34 +0000
Subject: [PATCH 10/79] fix: bounds of unordered groups next to CHECK and
 CHECK-NOT

---
 filecheck/src/check/mod.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/filecheck/src/check/mod.rs b/filecheck/src/check/mod.rs
index 8912203..f6a3a6a 100644
--- a/filecheck/src/check/mod.rs
+++ b/filecheck/src/check/mod.rs
@@ -494,7 +494,7 @@ pub fn check_group<'section, 'input, 'a: 'input>(
                         Ok(mut left_matches) => {
                             if let Some(left_range) = left_matches.range()
                                 && (left_range.start >= right_range.start
-                                    || left_range.end >= right_range.start)
+                                    || left_range.end > right_range.start)
                             {
                                 // At least one matching CHECK-DAG overlaps following CHECK,
                                 // so visit each match result and rewrite overlapping matches
@@ -508,7 +508,7 @@ pub fn check_group<'section, 'input, 'a: 'input>(
                                         } if ty.is_ok() => {
                                             let left_range = info.span;
                                             if left_range.start().to_usize() >= right_range.start
-                                                || left_range.end().to_usize() >= right_range.start
+                                                || left_range.end().to_usize() > right_range.start
                                             {
                                                 let span = info.span;
                                                 let pattern_span = info.pattern_span;
@@ -573,7 +573,7 @@ pub fn check_group<'section, 'input, 'a: 'input>(
                                                 } if (span.start().to_usize()
                                                     >= right_range.start
                                                     || span.end().to_usize()
-                                                        >= right_range.start) =>
+                                                        > right_range.start) =>
                                                 {
                                                     *mr = MatchResult::failed(
                                                         CheckFailedError::MatchFoundButDiscarded {
@@ -735,7 +735,8 @@ fn check_tree<'input, 'a: 'input>(
                                 .min()
                                 .unwrap();
                             // Ensure none of the CHECK-NOT patterns match in the exclusion region
-                            let exclusion = context.search_range(left_end..right_start);
+                            let exclusion =
+                                context.search_range(left_end..right_start.max(left_end));
                             match check_not(root, exclusion, context) {
                                 Ok(Ok(num_passed)) => {
                                     (0..num_passed).for_each(|_| test_result.passed());
@@ -813,7 +814,8 @@ fn check_tree<'input, 'a: 'input>(
                                 .min()
                                 .unwrap();
                             // Ensure none of the CHECK-NOT patterns match in the exclusion region
-                            let exclusion = context.search_range(left_end..right_start);
+                            let exclusion =
+                                context.search_range(left_end..right_start.max(left_end));
                             match check_not(root, exclusion, context) {
                                 Ok(Ok(num_passed)) => {
                                     (0..num_passed).for_each(|_| test_result.passed());
@@ -905,7 +907,7 @@ fn check_tree<'input, 'a: 'input>(
                 Err(mut left_matched) => {
                     // None of the left-hand patterns matched, but we can proceed with the CHECK-NOT anyway
                     let right_start = context.cursor().end();
-                    let exclusion = context.search_range(left_end..right_start);
+                    let exclusion = context.search_range(left_end..right_start.max(left_end));
                     match check_not(root, exclusion, context) {
                         Ok(Ok(num_passed)) => {
                             (0..num_passed).for_each(|_| test_result.passed());
@@ -953,7 +955,7 @@ fn check_tree<'input, 'a: 'input>(
                         .min()
                         .unwrap();
 
-                    let exclusion = context.search_range(left_end..right_start);
+                    let exclusion = context.search_range(left_end..right_start.max(left_end));
                     match check_not(root, exclusion, context) {
                         Ok(Ok(num_passed)) => {
                             (0..num_passed).for_each(|_| test_result.passed());
-- 
2.43.0


From d1e94c950e20747ca1817241ef0c4df1dfffd7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:53 +0000
Subject: [PATCH 11/79] fix: CHECK-NEXT with no line left in its block must
 fail, not panic

---
 filecheck/src/rules/next.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filecheck/src/rules/next.rs b/filecheck/src/rules/next.rs
index c8c4ff0..476e64c 100644
--- a/filecheck/src/rules/next.rs
+++ b/filecheck/src/rules/next.rs
@@ -42,7 +42,7 @@ where
             let at_eof = cursor.end_of_file() == block_end;
             let mut error = CheckFailedError::match_none(
                 self.pattern.span(),
-                &context.search_range(start..block_end),
+                &context.search_range(start.min(block_end)..block_end),
                 context,
             );
             if !at_eof {
-- 
2.43.0


From 19a93a5a3914331f8608f2da97b33041c3a2d051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:29 +0000
Subject: [PATCH 12/79] fix: patterns whose last parts match empty text must
 match at the end of input

---
 .../src/pattern/matcher/matchers/smart/searcher.rs    | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
index d84fb7b..44ca964 100644
--- a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
+++ b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
@@ -133,17 +133,6 @@ impl<'a, 'input> SmartSearcher<'a, 'input> {
         context: &mut ContextGuard<'_, 'input, 'context>,
     ) -> DiagResult<MatchResult<'input>> {
         for part in parts.iter() {
-            if self.cursor.is_empty() {
-                log::trace!(target: "smart:searcher", "no more input to consume: cannot match");
-                // No match possible
-                self.captures.set_pattern(None);
-                return Ok(MatchResult::failed(CheckFailedError::match_none(
-                    self.span,
-                    &self.input,
-                    context,
-                )));
-            }
-
             match part {
                 MatchOp::Constraint {
                     span,
-- 
2.43.0


From 650a65d888195dd82221b7fca9ede098c8c0921f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:29 +0000
Subject: [PATCH 13/79] fix: CHECK-NOT patterns use the variables in effect
 where they appear

---
 filecheck/src/check/mod.rs | 28 ++++++++++++++++++++++++----
 filecheck/src/env.rs       | 10 ++++++++++
 2 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/filecheck/src/check/mod.rs b/filecheck/src/check/mod.rs
index f6a3a6a..f7690e2 100644
--- a/filecheck/src/check/mod.rs
+++ b/filecheck/src/check/mod.rs
@@ -4,7 +4,7 @@ use std::path::Path;
 
 pub use self::program::{CheckGroup, CheckProgram, CheckSection, CheckTree};
 
-use crate::{common::*, pattern::matcher::MatchAny};
+use crate::{common::*, env::Bindings, pattern::matcher::MatchAny};
 
 pub struct Checker<'a> {
     config: &'a Config,
@@ -720,6 +720,8 @@ fn check_tree<'input, 'a: 'input>(
                         .unwrap();
                     // Add the left matches to the pending test results
                     matched.append(&mut left_matched);
+                    // The bindings in effect for the CHECK-NOT patterns, i.e. before `right` rebinds any
+                    let bindings = context.env.bindings().clone();
                     match check_tree(right, test_result, context)
                         .expect("unexpected check-not error")
                     {
@@ -737,7 +739,7 @@ fn check_tree<'input, 'a: 'input>(
                             // Ensure none of the CHECK-NOT patterns match in the exclusion region
                             let exclusion =
                                 context.search_range(left_end..right_start.max(left_end));
-                            match check_not(root, exclusion, context) {
+                            match check_not_with_bindings(root, exclusion, bindings, context) {
                                 Ok(Ok(num_passed)) => {
                                     (0..num_passed).for_each(|_| test_result.passed());
                                 }
@@ -799,6 +801,8 @@ fn check_tree<'input, 'a: 'input>(
                     matched.append(&mut left_matched);
                     // Proceed with the right-hand patterns
                     let left_end = context.cursor().start();
+                    // The bindings in effect for the CHECK-NOT patterns, i.e. before `right` rebinds any
+                    let bindings = context.env.bindings().clone();
                     match check_tree(right, test_result, context)
                         .expect("unexpected check-not error")
                     {
@@ -816,7 +820,7 @@ fn check_tree<'input, 'a: 'input>(
                             // Ensure none of the CHECK-NOT patterns match in the exclusion region
                             let exclusion =
                                 context.search_range(left_end..right_start.max(left_end));
-                            match check_not(root, exclusion, context) {
+                            match check_not_with_bindings(root, exclusion, bindings, context) {
                                 Ok(Ok(num_passed)) => {
                                     (0..num_passed).for_each(|_| test_result.passed());
                                 }
@@ -943,6 +947,8 @@ fn check_tree<'input, 'a: 'input>(
         }
         CheckTree::MatchAfter { root, right } => {
             let left_end = context.cursor().start();
+            // The bindings in effect for the CHECK-NOT patterns, i.e. before `right` rebinds any
+            let bindings = context.env.bindings().clone();
             match check_tree(right, test_result, context).expect("unexpected check-not error") {
                 Ok(mut right_matched) => {
                     assert!(
@@ -956,7 +962,7 @@ fn check_tree<'input, 'a: 'input>(
                         .unwrap();
 
                     let exclusion = context.search_range(left_end..right_start.max(left_end));
-                    match check_not(root, exclusion, context) {
+                    match check_not_with_bindings(root, exclusion, bindings, context) {
                         Ok(Ok(num_passed)) => {
                             (0..num_passed).for_each(|_| test_result.passed());
                         }
@@ -998,6 +1004,20 @@ fn check_tree<'input, 'a: 'input>(
     }
 }
 
+/// Evaluate `patterns` with the given bindings taking precedence over the current ones
+fn check_not_with_bindings<'input, 'a: 'input>(
+    patterns: &MatchAny<'a>,
+    input: Input<'input>,
+    bindings: Bindings<Value<'input>>,
+    context: &mut MatchContext<'input, 'a>,
+) -> DiagResult<Result<usize, MatchInfo<'input>>> {
+    let current = context.env.bindings().clone();
+    context.env.merge(bindings);
+    let result = check_not(patterns, input, context);
+    context.env.restore(current);
+    result
+}
+
 fn check_not<'input, 'a: 'input>(
     patterns: &MatchAny<'a>,
     input: Input<'input>,
diff --git a/filecheck/src/env.rs b/filecheck/src/env.rs
index 412af9a..c9c519e 100644
--- a/filecheck/src/env.rs
+++ b/filecheck/src/env.rs
@@ -304,6 +304,16 @@ impl<'input> Env<'input> {
             _marker: core::marker::PhantomData,
         }
     }
+
+    /// Merge `bindings` into this environment, overriding the current ones
+    pub fn merge(&mut self, bindings: Bindings<Value<'input>>) {
+        self.bindings.merge(bindings);
+    }
+
+    /// Replace the bindings of this environment with those previously obtained from it
+    pub fn restore(&mut self, bindings: Bindings<Value<'input>>) {
+        self.bindings = bindings;
+    }
 }
 impl<'input> LexicalScope for Env<'input> {
     type Value = Value<'input>;
-- 
2.43.0


From 642e12120e51af4470fd7eb608dfec54edf02003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:29 +0000
Subject: [PATCH 14/79] fix: searching a set of patterns that match empty text
 must make progress

---
 filecheck/src/pattern/search/pattern_set.rs | 32 ++++++++++++---------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/filecheck/src/pattern/search/pattern_set.rs b/filecheck/src/pattern/search/pattern_set.rs
index 825d185..b3be991 100644
--- a/filecheck/src/pattern/search/pattern_set.rs
+++ b/filecheck/src/pattern/search/pattern_set.rs
@@ -27,7 +27,7 @@ impl<'a, 'patterns, 'input> PatternSetSearcher<'a, 'patterns, 'input> {
         let num_patterns = patterns.len();
         let excluded_chunks = (num_patterns / 64) + (!num_patterns.is_multiple_of(64) as usize);
         let excluded = smallvec![0; excluded_chunks];
-        let next_starts = vec![0; num_patterns];
+        let next_starts = vec![input.start(); num_patterns];
 
         Ok(Self {
             searched: input.bounds(),
@@ -117,19 +117,21 @@ impl<'a, 'patterns, 'input> PatternSearcher<'input> for PatternSetSearcher<'a, '
             input.set_start(self.next_starts[pattern_id]);
 
             let mut guard = context.protect();
-            match pattern.try_match_mut(self.input, &mut guard)? {
+            match pattern.try_match_mut(input, &mut guard)? {
                 MatchResult {
                     info: Some(mut info),
                     ty,
                 } if ty.is_ok() => {
                     let end = info.span.end().to_usize();
                     next_start = core::cmp::min(end, next_start);
-                    self.next_starts[pattern_id] =
-                        if info.span.is_empty() && Some(end) == self.last_match_end {
-                            end.saturating_add(1)
-                        } else {
-                            end
-                        };
+                    self.next_starts[pattern_id] = if info.span.is_empty() {
+                        end.saturating_add(1)
+                    } else {
+                        end
+                    };
+                    if self.next_starts[pattern_id] > self.input.end() {
+                        self.excluded[excluded_chunk] |= excluded_bit;
+                    }
                     info.pattern_id = pattern_id;
                     self.found.push_back(MatchResult {
                         info: Some(info),
@@ -148,12 +150,14 @@ impl<'a, 'patterns, 'input> PatternSearcher<'input> for PatternSetSearcher<'a, '
                     // This is an error that we are going to return before other valid matches.
                     let end = info.span.end().to_usize();
                     next_start = core::cmp::min(end, next_start);
-                    self.next_starts[pattern_id] =
-                        if info.span.is_empty() && Some(end) == self.last_match_end {
-                            end.saturating_add(1)
-                        } else {
-                            end
-                        };
+                    self.next_starts[pattern_id] = if info.span.is_empty() {
+                        end.saturating_add(1)
+                    } else {
+                        end
+                    };
+                    if self.next_starts[pattern_id] > self.input.end() {
+                        self.excluded[excluded_chunk] |= excluded_bit;
+                    }
                     info.pattern_id = pattern_id;
                     self.found.push_back(MatchResult {
                         info: Some(info),
-- 
2.43.0


From cb0a7d1687378d68a788e29ea9147a84c1cffa9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:19 +0000
Subject: [PATCH 15/79] fix: CHECK-DAG literals must not overlap, even when one
 encloses another

---
 filecheck/src/pattern/visitors/static.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filecheck/src/pattern/visitors/static.rs b/filecheck/src/pattern/visitors/static.rs
index 0767535..133a60d 100644
--- a/filecheck/src/pattern/visitors/static.rs
+++ b/filecheck/src/pattern/visitors/static.rs
@@ -77,7 +77,7 @@ impl<'a, 'input, S: PatternSearcher<'input>> StaticPatternSetVisitor<'a, S> {
                     if matches
                         .iter()
                         .map(|mr| mr.info.as_ref().unwrap().span.into_slice_index())
-                        .any(|span| span.contains(&range.start) || span.contains(&range.end))
+                        .any(|span| range.start < span.end && span.start < range.end)
                     {
                         continue;
                     }
-- 
2.43.0


From 4c7f22f007bcce267a1056ed28704fdcf074dfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:19 +0000
Subject: [PATCH 16/79] fix: match CHECK-DAG patterns that are not literals as
 a whole, in order, without overlap

---
 filecheck/src/check/mod.rs                    |  38 +++-
 filecheck/src/check/program.rs                |   2 +-
 filecheck/src/pattern/matcher/matchers/all.rs |  61 +++++-
 filecheck/src/pattern/matcher/matchers/any.rs |   9 +-
 filecheck/src/pattern/visitors/mod.rs         |   2 +
 filecheck/src/pattern/visitors/ordered.rs     | 186 ++++++++++++++++++
 filecheck/src/rules/dag.rs                    |   3 +
 7 files changed, 283 insertions(+), 18 deletions(-)
 create mode 100644 filecheck/src/pattern/visitors/ordered.rs

diff --git a/filecheck/src/check/mod.rs b/filecheck/src/check/mod.rs
index f7690e2..e314513 100644
--- a/filecheck/src/check/mod.rs
+++ b/filecheck/src/check/mod.rs
@@ -465,10 +465,14 @@ pub fn check_group<'section, 'input, 'a: 'input>(
         }
         CheckGroup::Unordered(check_dag) => match check_dag.apply(context) {
             Ok(matches) => {
-                if matches.range().is_none() {
-                    Ok(Err(vec![matches]))
-                } else {
+                if let Some(range) = matches.range() {
+                    // Whatever follows must match after all of these
+                    if matches.is_ok() && range.end > context.cursor().start() {
+                        context.cursor_mut().set_start(range.end);
+                    }
                     Ok(Ok(vec![matches]))
+                } else {
+                    Ok(Err(vec![matches]))
                 }
             }
             Err(err) => {
@@ -485,6 +489,27 @@ pub fn check_group<'section, 'input, 'a: 'input>(
             right,
         } => {
             let initial_result = check_dag.apply(context);
+            // The bounding check must match after all of the unordered ones
+            if let Ok(left_matches) = &initial_result
+                && left_matches.is_ok()
+                && let Some(left_range) = left_matches.range()
+                && left_range.end > context.cursor().start()
+            {
+                let start = context.cursor().start();
+                let bindings = context.env.bindings().clone();
+                context.cursor_mut().set_start(left_range.end);
+                let mut bounded_result = TestResult::new(context);
+                if let Ok(Ok(mut right_matches)) = check_group(right, &mut bounded_result, context)
+                    && bounded_result.is_ok()
+                {
+                    let mut matched = vec![initial_result.unwrap()];
+                    matched.append(&mut right_matches);
+                    return Ok(Ok(matched));
+                }
+                // It does not, so find out if it matches anything that would explain why
+                context.cursor_mut().set_start(start);
+                context.env.restore(bindings);
+            }
             match check_group(right, test_result, context) {
                 Ok(Ok(mut right_matches)) => {
                     let right_range = right_matches[0]
@@ -493,8 +518,7 @@ pub fn check_group<'section, 'input, 'a: 'input>(
                     match initial_result {
                         Ok(mut left_matches) => {
                             if let Some(left_range) = left_matches.range()
-                                && (left_range.start >= right_range.start
-                                    || left_range.end > right_range.start)
+                                && left_range.end > right_range.start
                             {
                                 // At least one matching CHECK-DAG overlaps following CHECK,
                                 // so visit each match result and rewrite overlapping matches
@@ -507,9 +531,7 @@ pub fn check_group<'section, 'input, 'a: 'input>(
                                             ty,
                                         } if ty.is_ok() => {
                                             let left_range = info.span;
-                                            if left_range.start().to_usize() >= right_range.start
-                                                || left_range.end().to_usize() > right_range.start
-                                            {
+                                            if left_range.end().to_usize() > right_range.start {
                                                 let span = info.span;
                                                 let pattern_span = info.pattern_span;
                                                 *mr = MatchResult::failed(
diff --git a/filecheck/src/check/program.rs b/filecheck/src/check/program.rs
index ccbb644..3b956ee 100644
--- a/filecheck/src/check/program.rs
+++ b/filecheck/src/check/program.rs
@@ -331,7 +331,7 @@ impl<'a> CheckProgram<'a> {
                                 break;
                             }
                         }
-                        let matcher = MatchAny::from(MatchAll::compile(nots, config)?);
+                        let matcher = MatchAny::from(MatchAll::compile_set(nots, config)?);
                         if body.is_empty() {
                             match groups.pop() {
                                 Some(CheckGroup::Tree(left)) => groups.push(CheckGroup::Tree(
diff --git a/filecheck/src/pattern/matcher/matchers/all.rs b/filecheck/src/pattern/matcher/matchers/all.rs
index 2fe6e68..7b84129 100644
--- a/filecheck/src/pattern/matcher/matchers/all.rs
+++ b/filecheck/src/pattern/matcher/matchers/all.rs
@@ -12,6 +12,8 @@ pub enum MatchAll<'a> {
     Literal(SubstringSetMatcher<'a>),
     /// A matcher for a set of regular expressions
     Regex(RegexSetMatcher<'a>),
+    /// Patterns which must each be matched as a whole
+    Patterns(Vec<Pattern<'a>>),
     /// A highly dynamic pattern matcher, but less efficient, as
     /// it is forced to perform some number of redundant searches
     /// of the input in order to check for all patterns. This is
@@ -38,8 +40,42 @@ pub enum MatchAll<'a> {
     },
 }
 
+fn empty_pattern(span: SourceSpan) -> Report {
+    let diag = Diag::new("unexpected empty pattern encountered during pattern compilation")
+        .with_label(Label::new(span, "pattern defined here"))
+        .with_help("empty patterns are only valid in CHECK-NOT directives");
+    Report::from(diag)
+}
+
 impl<'a> MatchAll<'a> {
+    /// Compile a set of patterns, all of which must match in any order
     pub fn compile(mut unordered: Vec<CheckLine<'a>>, config: &Config) -> DiagResult<Self> {
+        use std::collections::BTreeSet;
+
+        let mut unique = BTreeSet::default();
+        let is_literal_set = unordered.iter_mut().all(|line| {
+            line.pattern.compact();
+            match &line.pattern {
+                CheckPattern::Literal(lit) => unique.insert(lit.inner().to_string()),
+                _ => false,
+            }
+        });
+        if is_literal_set {
+            return Self::compile_set(unordered, config);
+        }
+
+        unordered
+            .into_iter()
+            .map(|line| match line.pattern {
+                CheckPattern::Empty(span) => Err(empty_pattern(span)),
+                pattern => Pattern::compile(pattern, config),
+            })
+            .collect::<DiagResult<Vec<_>>>()
+            .map(Self::Patterns)
+    }
+
+    /// Compile a set of patterns for which it only matters whether any of them match
+    pub fn compile_set(mut unordered: Vec<CheckLine<'a>>, config: &Config) -> DiagResult<Self> {
         use std::collections::BTreeMap;
 
         let raw_prefixes = unordered
@@ -85,14 +121,7 @@ impl<'a> MatchAll<'a> {
                     id,
                     prefix: prefix.clone(),
                 },
-                Prefix::Empty(span) => {
-                    let diag = Diag::new(
-                        "unexpected empty pattern encountered during pattern compilation",
-                    )
-                    .with_label(Label::new(*span, "pattern defined here"))
-                    .with_help("empty patterns are only valid in CHECK-NOT directives");
-                    return Err(Report::from(diag));
-                }
+                Prefix::Empty(span) => return Err(empty_pattern(*span)),
             };
             unique_prefixes.insert(prefix.clone(), id);
             prefixes.push(pattern_prefix);
@@ -204,6 +233,7 @@ impl<'a> MatchAll<'a> {
         match self {
             Self::Literal(matcher) => matcher.pattern_len(),
             Self::Regex(matcher) => matcher.patterns_len(),
+            Self::Patterns(patterns) => patterns.len(),
             Self::AnyPrefix { suffixes, .. }
             | Self::RegexPrefix { suffixes, .. }
             | Self::SubstringPrefix { suffixes, .. } => suffixes.iter().map(|ps| ps.len()).sum(),
@@ -214,6 +244,12 @@ impl<'a> MatchAll<'a> {
         match self {
             Self::Literal(matcher) => matcher.first_pattern(),
             Self::Regex(matcher) => matcher.first_pattern(),
+            Self::Patterns(patterns) => patterns
+                .iter()
+                .enumerate()
+                .map(|(i, p)| Span::new(p.span(), i))
+                .min_by_key(|span| span.span().start())
+                .unwrap(),
             Self::AnyPrefix { prefixes, suffixes } => {
                 let (prefix_id, start) = prefixes
                     .iter()
@@ -281,6 +317,15 @@ impl<'a> Spanned for MatchAll<'a> {
         match self {
             Self::Literal(matcher) => matcher.span(),
             Self::Regex(matcher) => matcher.span(),
+            Self::Patterns(patterns) => {
+                let start = patterns.iter().map(|p| p.span()).min_by_key(|s| s.start());
+                let end = patterns.iter().map(|p| p.span()).max_by_key(|s| s.end());
+                let (start, end) = (start.unwrap(), end.unwrap());
+                SourceSpan::from_range_unchecked(
+                    start.source_id(),
+                    start.start().to_usize()..end.end().to_usize(),
+                )
+            }
             Self::AnyPrefix { prefixes, suffixes } => {
                 let start = prefixes
                     .iter()
diff --git a/filecheck/src/pattern/matcher/matchers/any.rs b/filecheck/src/pattern/matcher/matchers/any.rs
index f679b7d..65e5e6d 100644
--- a/filecheck/src/pattern/matcher/matchers/any.rs
+++ b/filecheck/src/pattern/matcher/matchers/any.rs
@@ -1,4 +1,4 @@
-use crate::common::*;
+use crate::{common::*, pattern::matcher::AlwaysMatch};
 
 use super::{MatchAll, RegexSetMatcher, SubstringSetMatcher};
 
@@ -38,6 +38,13 @@ impl<'a> From<MatchAll<'a>> for MatchAny<'a> {
         match match_all {
             MatchAll::Literal(lit) => Self::Literal(lit),
             MatchAll::Regex(re) => Self::Regex(re),
+            MatchAll::Patterns(patterns) => Self::AnyPrefix {
+                suffixes: patterns
+                    .iter()
+                    .map(|p| vec![Pattern::Empty(AlwaysMatch::new(p.span()))])
+                    .collect(),
+                prefixes: patterns,
+            },
             MatchAll::AnyPrefix { prefixes, suffixes } => Self::AnyPrefix { prefixes, suffixes },
             MatchAll::SubstringPrefix { prefixes, suffixes } => {
                 Self::SubstringPrefix { prefixes, suffixes }
diff --git a/filecheck/src/pattern/visitors/mod.rs b/filecheck/src/pattern/visitors/mod.rs
index 9abeb45..1acb8de 100644
--- a/filecheck/src/pattern/visitors/mod.rs
+++ b/filecheck/src/pattern/visitors/mod.rs
@@ -1,5 +1,7 @@
 mod dynamic;
+mod ordered;
 mod r#static;
 
 pub use self::dynamic::DynamicPatternSetVisitor;
+pub use self::ordered::OrderedPatternSetVisitor;
 pub use self::r#static::StaticPatternSetVisitor;
diff --git a/filecheck/src/pattern/visitors/ordered.rs b/filecheck/src/pattern/visitors/ordered.rs
new file mode 100644
index 0000000..e25e442
--- /dev/null
+++ b/filecheck/src/pattern/visitors/ordered.rs
@@ -0,0 +1,186 @@
+use crate::{ast::Capture, common::*};
+
+/// This type is used to visit a set of N unordered patterns, such as those
+/// associated with CHECK-DAG, when at least one of them is not a literal.
+///
+/// Each pattern is matched as a whole, in the order the patterns are given, against the
+/// leftmost part of the input which does not overlap the match of another pattern in the set.
+/// Variables captured by a pattern are visible to the patterns which follow it.
+///
+/// If that leaves some pattern without a match, the patterns are instead matched by position
+/// in the input, preferring the longest match at any given position, so that a permissive
+/// pattern does not take the only text a more specific one can match. As the values of variables
+/// depend on the order of the patterns, this is only done when the set does not bind any.
+pub struct OrderedPatternSetVisitor<'a, 'patterns, 'input> {
+    patterns: &'patterns [Pattern<'a>],
+    input: Input<'input>,
+}
+impl<'a, 'patterns, 'input> OrderedPatternSetVisitor<'a, 'patterns, 'input> {
+    pub fn new(patterns: &'patterns [Pattern<'a>], input: Input<'input>) -> Self {
+        Self { patterns, input }
+    }
+
+    pub fn try_match_all<'guard>(
+        &self,
+        context: &mut ContextGuard<'guard, 'input, '_>,
+    ) -> DiagResult<Matches<'input>> {
+        let mut guard = context.protect();
+        let matches = self.match_in_order(&mut guard)?;
+        if matches.is_ok() {
+            guard.save();
+            return Ok(matches);
+        }
+        drop(guard);
+
+        let mut guard = context.protect();
+        if let Some(matches) = self.match_by_position(&mut guard)? {
+            guard.save();
+            return Ok(matches);
+        }
+        Ok(matches)
+    }
+
+    fn match_in_order(
+        &self,
+        context: &mut ContextGuard<'_, 'input, '_>,
+    ) -> DiagResult<Matches<'input>> {
+        let mut matched = Vec::<MatchInfo<'input>>::with_capacity(self.patterns.len());
+        let mut failed = vec![];
+        for (pattern_id, pattern) in self.patterns.iter().enumerate() {
+            match self.next_match(pattern_id, pattern, &matched, context)? {
+                Ok(info) => {
+                    bind_captures(&info, context)?;
+                    matched.push(info);
+                }
+                Err(error) => failed.push(MatchResult::failed(error)),
+            }
+        }
+        if failed.is_empty() {
+            self.advance(&matched, context);
+        }
+        Ok(matched
+            .into_iter()
+            .map(MatchResult::ok)
+            .chain(failed)
+            .collect())
+    }
+
+    fn match_by_position(
+        &self,
+        context: &mut ContextGuard<'_, 'input, '_>,
+    ) -> DiagResult<Option<Matches<'input>>> {
+        let mut matched = Vec::<MatchInfo<'input>>::with_capacity(self.patterns.len());
+        while matched.len() < self.patterns.len() {
+            let mut next: Option<MatchInfo<'input>> = None;
+            for (pattern_id, pattern) in self.patterns.iter().enumerate() {
+                if matched.iter().any(|info| info.pattern_id == pattern_id) {
+                    continue;
+                }
+                let Ok(info) = self.next_match(pattern_id, pattern, &matched, context)? else {
+                    return Ok(None);
+                };
+                let is_better = next.as_ref().is_none_or(|best| {
+                    (info.span.start(), core::cmp::Reverse(info.span.end()))
+                        < (best.span.start(), core::cmp::Reverse(best.span.end()))
+                });
+                if is_better {
+                    next = Some(info);
+                }
+            }
+            let Some(info) = next else {
+                return Ok(None);
+            };
+            if info.captures.iter().any(|c| bound_variable(c).is_some()) {
+                return Ok(None);
+            }
+            matched.push(info);
+        }
+        self.advance(&matched, context);
+        Ok(Some(matched.into_iter().map(MatchResult::ok).collect()))
+    }
+
+    /// Find the first match for `pattern` which does not overlap any of those in `matched`
+    fn next_match(
+        &self,
+        pattern_id: usize,
+        pattern: &Pattern<'a>,
+        matched: &[MatchInfo<'input>],
+        context: &mut ContextGuard<'_, 'input, '_>,
+    ) -> DiagResult<Result<MatchInfo<'input>, CheckFailedError>> {
+        let mut input = self.input;
+        loop {
+            let mut guard = context.protect();
+            match pattern.try_match_mut(input, &mut guard)? {
+                MatchResult {
+                    ty,
+                    info: Some(mut info),
+                } if ty.is_ok() => {
+                    let range = info.span.into_slice_index();
+                    let overlapped = matched
+                        .iter()
+                        .map(|other| other.span.into_slice_index())
+                        .find(|other| range.start < other.end && other.start < range.end);
+                    if let Some(overlapped) = overlapped {
+                        input.set_start(overlapped.end);
+                        continue;
+                    }
+                    info.pattern_id = pattern_id;
+                    break Ok(Ok(info));
+                }
+                MatchResult {
+                    ty: MatchType::Failed(error),
+                    info: Some(_),
+                } => break Ok(Err(error)),
+                _ => {
+                    break Ok(Err(CheckFailedError::match_none(
+                        pattern.span(),
+                        &self.input,
+                        &guard,
+                    )));
+                }
+            }
+        }
+    }
+
+    /// Once all patterns have matched, the search continues from the end of the furthest match
+    fn advance(&self, matched: &[MatchInfo<'input>], context: &mut ContextGuard<'_, 'input, '_>) {
+        if self.patterns.iter().any(|p| matches!(p, Pattern::Smart(_))) {
+            return;
+        }
+        if let Some(end) = matched.iter().map(|info| info.span.end().to_usize()).max() {
+            context.cursor_mut().set_start(end);
+        }
+    }
+}
+
+/// Bind the variables captured by a match
+fn bind_captures<'input>(
+    info: &MatchInfo<'input>,
+    context: &mut ContextGuard<'_, 'input, '_>,
+) -> DiagResult<()> {
+    for capture_info in info.captures.iter() {
+        match bound_variable(capture_info) {
+            Some(name @ (VariableName::User(_) | VariableName::Global(_))) => {
+                context.env_mut().insert(name, capture_info.value.clone());
+            }
+            Some(VariableName::Pseudo(name)) => {
+                let diag = Diag::new("unsupported variable binding")
+                    .with_label(Label::new(name.span(), "occurs here"))
+                    .with_help("pseudo-variables like LINE cannot be bound");
+                return Err(Report::new(diag));
+            }
+            None => (),
+        }
+    }
+    Ok(())
+}
+
+/// The variable bound by a capture, if any
+fn bound_variable(capture_info: &CaptureInfo<'_>) -> Option<VariableName> {
+    match capture_info.capture {
+        Capture::Ignore(_) | Capture::All(_) => None,
+        Capture::Implicit(tv) | Capture::Explicit(tv) | Capture::Mapped { with: tv, .. } => {
+            Some(tv.name)
+        }
+    }
+}
diff --git a/filecheck/src/rules/dag.rs b/filecheck/src/rules/dag.rs
index 339a0aa..fc41dfc 100644
--- a/filecheck/src/rules/dag.rs
+++ b/filecheck/src/rules/dag.rs
@@ -39,6 +39,9 @@ impl<'check> Rule for CheckDag<'check> {
                 let mut visitor = StaticPatternSetVisitor::new(&mut searcher);
                 visitor.try_match_all(&mut guard)
             }
+            MatchAll::Patterns(ref patterns) => {
+                OrderedPatternSetVisitor::new(patterns, input).try_match_all(&mut guard)
+            }
             MatchAll::Regex(ref matcher) => {
                 let mut searcher = matcher.search(input);
                 let mut visitor = StaticPatternSetVisitor::new(&mut searcher);
-- 
2.43.0


From 7bc8a0eddd6d1a4c45c6cca40ac6a653d05a1aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:18 +0000
Subject: [PATCH 17/79] fix: after a failed attempt, a pattern may match from
 anywhere past the start of the attempt

---
 .../pattern/matcher/matchers/smart/searcher.rs   | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
index 44ca964..925d717 100644
--- a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
+++ b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
@@ -86,6 +86,7 @@ impl<'a, 'input> SmartSearcher<'a, 'input> {
             Err(err) => return ControlFlow::Break(Err(err)),
         };
         if let Some(info) = result.info.as_ref() {
+            let prefix_start = info.span.start().to_usize();
             self.part_matched(info.span.into_slice_index());
             self.cursor.set_anchored(true);
 
@@ -110,11 +111,16 @@ impl<'a, 'input> SmartSearcher<'a, 'input> {
                 self.match_end,
                 result.ty
             );
-            // Reset the searcher, but start the next search where the cursor left off, but ensure
-            // that we advance the cursor at least one byte to avoid looping indefinitely
-            let search_stopped_at = self.match_end;
-            self.reset(core::cmp::max(search_stopped_at, search_started_at + 1));
-            if anchored {
+            // Reset the searcher, and start the next search at the first character following the
+            // start of the prefix, as a full match may start anywhere after it
+            let buffer = self.input.buffer();
+            let mut next_start = prefix_start + 1;
+            while buffer.get(next_start).is_some_and(|b| b & 0xc0 == 0x80) {
+                next_start += 1;
+            }
+            let is_exhausted = next_start > self.input.end();
+            self.reset(next_start);
+            if anchored || is_exhausted {
                 self.captures.set_pattern(None);
                 return ControlFlow::Break(Ok(()));
             }
-- 
2.43.0


From a3d6773260d9c1fb5ed5fd67b77baffa1658f175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:18 +0000
Subject: [PATCH 18/79] fix: CHECK-DAG and CHECK-NOT literals must honour
 --ignore-case

---
 filecheck/src/pattern/matcher/matchers/substring_set.rs | 5 ++++-
 filecheck/src/pattern/search/substring_set.rs           | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/filecheck/src/pattern/matcher/matchers/substring_set.rs b/filecheck/src/pattern/matcher/matchers/substring_set.rs
index bbaab5f..d18d798 100644
--- a/filecheck/src/pattern/matcher/matchers/substring_set.rs
+++ b/filecheck/src/pattern/matcher/matchers/substring_set.rs
@@ -13,6 +13,8 @@ pub struct SubstringSetMatcher<'a> {
     patterns: Vec<Span<Cow<'a, str>>>,
     /// The automaton that will perform the search
     searcher: AhoCorasick,
+    /// Whether matching ignores ASCII case
+    case_insensitive: bool,
 }
 impl<'a> fmt::Debug for SubstringSetMatcher<'a> {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
@@ -47,7 +49,7 @@ impl<'a> SubstringSetMatcher<'a> {
         &'patterns self,
         input: Input<'input>,
     ) -> DiagResult<SubstringSetSearcher<'a, 'patterns, 'input>> {
-        SubstringSetSearcher::new(input, Cow::Borrowed(&self.patterns))
+        SubstringSetSearcher::new(input, Cow::Borrowed(&self.patterns), self.case_insensitive)
     }
 
     pub fn pattern_len(&self) -> usize {
@@ -294,6 +296,7 @@ impl<'a> SubstringSetBuilder<'a> {
         Ok(SubstringSetMatcher {
             patterns: self.patterns,
             searcher,
+            case_insensitive: self.case_insensitive,
         })
     }
 }
diff --git a/filecheck/src/pattern/search/substring_set.rs b/filecheck/src/pattern/search/substring_set.rs
index a85cc28..fe6bc59 100644
--- a/filecheck/src/pattern/search/substring_set.rs
+++ b/filecheck/src/pattern/search/substring_set.rs
@@ -22,13 +22,14 @@ impl<'a, 'patterns, 'input> SubstringSetSearcher<'a, 'patterns, 'input> {
     pub fn new(
         input: Input<'input>,
         patterns: Cow<'patterns, [Span<Cow<'a, str>>]>,
+        case_insensitive: bool,
     ) -> DiagResult<Self> {
         let source_id = input.source_id();
         let buffer = input.buffer();
         let crlf = input.is_crlf();
         let mut builder = AhoCorasickBuilder::new();
         builder
-            .ascii_case_insensitive(false)
+            .ascii_case_insensitive(case_insensitive)
             .match_kind(MatchKind::LeftmostLongest)
             .start_kind(StartKind::Unanchored);
         let pattern = builder
-- 
2.43.0


From 5f063dd83611b56ceddf1fe8886c55cae2e2b0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:06 +0000
Subject: [PATCH 19/79] fix: CHECK-SAME may match empty text at the end of the
 line

---
 filecheck/src/rules/same.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filecheck/src/rules/same.rs b/filecheck/src/rules/same.rs
index b8ef922..8cc2ca2 100644
--- a/filecheck/src/rules/same.rs
+++ b/filecheck/src/rules/same.rs
@@ -40,7 +40,7 @@ where
                 info: Some(info),
             } if ty.is_ok() => {
                 let cursor = context.cursor_mut();
-                assert!(info.span.start().to_usize() < cursor.end_of_line());
+                assert!(info.span.start().to_usize() <= cursor.end_of_line());
                 cursor.set_start(info.span.end().to_usize());
                 Ok(MatchResult::new(ty, Some(info)).into())
             }
-- 
2.43.0


From 18cdb8848af2b8a4f811c9388de90e9e1822f506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:54 +0000
Subject: [PATCH 20/79] fix: + and - in a numeric substitution are left
 associative, and may follow any operand

---
 filecheck/src/expr/mod.rs           | 18 ++++++
 filecheck/src/parse/grammar.lalrpop | 87 ++++++++++++-----------------
 2 files changed, 53 insertions(+), 52 deletions(-)

diff --git a/filecheck/src/expr/mod.rs b/filecheck/src/expr/mod.rs
index b89ac38..b72b4cc 100644
--- a/filecheck/src/expr/mod.rs
+++ b/filecheck/src/expr/mod.rs
@@ -12,6 +12,7 @@ pub use litcheck::variables::VariableName;
 
 use litcheck::{Symbol, variables};
 
+use crate::ast::BinaryOpAndOperand;
 use crate::common::*;
 
 pub type Variable<'a> = variables::Variable<Value<'a>>;
@@ -43,6 +44,23 @@ impl Spanned for Expr {
     }
 }
 impl Expr {
+    /// Apply a sequence of operators, and their right-hand operands, to `lhs`, left to right
+    pub(crate) fn fold(lhs: Expr, rest: Vec<BinaryOpAndOperand>) -> Self {
+        rest.into_iter()
+            .fold(lhs, |lhs, BinaryOpAndOperand { op, operand: rhs }| {
+                let (start, end) = (lhs.span(), rhs.span());
+                Self::Binary {
+                    span: SourceSpan::new(
+                        start.source_id(),
+                        litcheck::range::Range::new(start.start(), end.end()),
+                    ),
+                    op,
+                    lhs: Box::new(lhs),
+                    rhs,
+                }
+            })
+    }
+
     pub fn from_call(
         span: SourceSpan,
         callee: Span<Symbol>,
diff --git a/filecheck/src/parse/grammar.lalrpop b/filecheck/src/parse/grammar.lalrpop
index b4b946a..b33c036 100644
--- a/filecheck/src/parse/grammar.lalrpop
+++ b/filecheck/src/parse/grammar.lalrpop
@@ -3,7 +3,7 @@ use std::borrow::Cow;
 use either::Either;
 use either::Either::*;
 
-use crate::common::{Spanned, Span, Symbol, SourceId, symbols};
+use crate::common::{Span, Symbol, SourceId, symbols};
 use crate::ast::*;
 use crate::expr::*;
 use crate::parse::{LexerError, Token, ParserError, ParseError};
@@ -71,24 +71,18 @@ Comma<T>: Vec<T> = {
 /// MATCH
 
 pub Match: Match<'input> = {
-    <l:@L> "[[" <name:LineVar> <expr:CaptureExprRest> "]]" <r:@R> => {
-        match expr {
-            Some(BinaryOpAndOperand { op, operand: rhs }) => {
-                let span = span!(source_id, l, r);
-                Match::Numeric {
-                    span,
-                    format: None,
-                    capture: None,
-                    constraint: Constraint::Eq,
-                    expr: Some(Expr::Binary {
-                        span,
-                        op,
-                        lhs: Box::new(Expr::Var(name)),
-                        rhs,
-                    }),
-                }
+    <l:@L> "[[" <name:LineVar> <rest:ExprRest> "]]" <r:@R> => {
+        let span = span!(source_id, l, r);
+        if rest.is_empty() {
+            Match::Substitution { span, name, pattern: None }
+        } else {
+            Match::Numeric {
+                span,
+                format: None,
+                capture: None,
+                constraint: Constraint::Eq,
+                expr: Some(Expr::fold(Expr::Var(name), rest)),
             }
-            None => Match::Substitution { span: span!(source_id, l, r), name, pattern: None },
         }
     },
 
@@ -137,17 +131,7 @@ CaptureNumericOrExpr: CaptureNumericOrExpr = {
                 constraint: constraint.constraint,
                 expr: Some(constraint.expr)
             }),
-            Right(None) => CaptureNumericOrExpr::Expr(Expr::Var(var)),
-            Right(Some(BinaryOpAndOperand { op, operand: rhs })) => {
-                let rhs_span = rhs.span();
-                let end = rhs_span.end().to_usize();
-                CaptureNumericOrExpr::Expr(Expr::Binary {
-                    span: span!(source_id, l, end),
-                    op,
-                    lhs: Box::new(Expr::Var(var)),
-                    rhs,
-                })
-            }
+            Right(rest) => CaptureNumericOrExpr::Expr(Expr::fold(Expr::Var(var), rest)),
         }
     },
 
@@ -159,34 +143,33 @@ CaptureNumericOrExpr: CaptureNumericOrExpr = {
         })
     },
 
-    Builtin => CaptureNumericOrExpr::Expr(<>),
-
-    <l:@L> "(" <lhs:Expr> ")" <rhs:CaptureExprRest> <r:@R> => {
-        match rhs {
-            None => CaptureNumericOrExpr::Expr(lhs),
-            Some(BinaryOpAndOperand { op, operand }) => {
-                CaptureNumericOrExpr::Expr(
-                    Expr::Binary {
-                        span: span!(source_id, l, r),
-                        op,
-                        lhs: Box::new(lhs),
-                        rhs: operand,
-                    }
-                )
-            }
-        }
-    }
+    <lhs:Builtin> <rest:ExprRest> => CaptureNumericOrExpr::Expr(Expr::fold(lhs, rest)),
+
+    <lhs:Call> <rest:ExprRest> => CaptureNumericOrExpr::Expr(Expr::fold(lhs, rest)),
+
+    <lhs:Num> <rest:ExprRest> => CaptureNumericOrExpr::Expr(Expr::fold(lhs, rest)),
+
+    "(" <lhs:Expr> ")" <rest:ExprRest> => CaptureNumericOrExpr::Expr(Expr::fold(lhs, rest)),
+}
+
+/// The `+`/`-` operators, and their right-hand operands, which follow the first operand of an
+/// expression
+ExprRest: Vec<BinaryOpAndOperand> = {
+    <mut rest:ExprRest> <op:AdditiveOp> <operand:Subexpr> => {
+        rest.push(BinaryOpAndOperand { op, operand: Box::new(operand) });
+        rest
+    },
+    => Vec::new(),
 }
 
-CaptureExprRest: Option<BinaryOpAndOperand> = {
-    "+" <expr:Expr> => Some(BinaryOpAndOperand { op: BinaryOp::Add, operand: Box::new(expr) }),
-    "-" <expr:Expr> => Some(BinaryOpAndOperand { op: BinaryOp::Sub, operand: Box::new(expr) }),
-    => None,
+AdditiveOp: BinaryOp = {
+    "+" => BinaryOp::Add,
+    "-" => BinaryOp::Sub,
 }
 
-EitherCaptureOrExpr: Either<Option<ConstraintExpr>, Option<BinaryOpAndOperand>> = {
+EitherCaptureOrExpr: Either<Option<ConstraintExpr>, Vec<BinaryOpAndOperand>> = {
     ":" <constraint:Constraint?> => Left(constraint),
-    <CaptureExprRest> => Right(<>),
+    <ExprRest> => Right(<>),
 }
 
 Constraint: ConstraintExpr = {
-- 
2.43.0


From 552e4933733e8119f9dd7862ccca72a952f14e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:54 +0000
Subject: [PATCH 21/79] fix: a numeric constraint which does not hold must fail
 the match

---
 .../src/pattern/matcher/matchers/smart/searcher.rs  | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
index 925d717..7060446 100644
--- a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
+++ b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
@@ -510,7 +510,18 @@ impl<'a, 'input> SmartSearcher<'a, 'input> {
             Left(rhs) => {
                 let lhs = lhs.as_numeric(span, rhs.format, context)?;
                 if lhs.value != rhs.value {
-                    self.captures.set_pattern(None);
+                    return Ok(MatchResult::failed(
+                        CheckFailedError::MatchFoundConstraintFailed {
+                            span: lhs.span(),
+                            input_file: context.input_file(),
+                            pattern: Some(RelatedCheckError {
+                                span,
+                                match_file: context.source_file(span.source_id()).unwrap(),
+                            }),
+                            error: None,
+                            help: Some(format!("expected {}, but found {}", rhs.value, lhs.value)),
+                        },
+                    ));
                 }
 
                 log::trace!(target: "smart:searcher", "constraint was applied successfully");
-- 
2.43.0


From 2de9fefca292f4baf56fa1ca94d6ef4eb08f6b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:54 +0000
Subject: [PATCH 22/79] fix: division by zero and overflow in a numeric
 expression must be reported, not panic

---
 .../matcher/matchers/smart/searcher.rs        | 31 ++++++++++++++-----
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
index 7060446..95f7efc 100644
--- a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
+++ b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
@@ -674,20 +674,35 @@ fn evaluate_expr<'input>(
                 (Left(l), Left(r)) => {
                     if let Some(format) = l.infer_expression_format(&r).or(explicit_format) {
                         let result = match op {
-                            BinaryOp::Add => l.value + r.value,
-                            BinaryOp::Sub => l.value - r.value,
-                            BinaryOp::Mul => l.value * r.value,
-                            BinaryOp::Div => l.value / r.value,
-                            BinaryOp::Min => core::cmp::min(l.value, r.value),
-                            BinaryOp::Max => core::cmp::max(l.value, r.value),
+                            BinaryOp::Add => l.value.checked_add(r.value),
+                            BinaryOp::Sub => l.value.checked_sub(r.value),
+                            BinaryOp::Mul => l.value.checked_mul(r.value),
+                            BinaryOp::Div => l.value.checked_div(r.value),
+                            BinaryOp::Min => Some(core::cmp::min(l.value, r.value)),
+                            BinaryOp::Max => Some(core::cmp::max(l.value, r.value)),
                             BinaryOp::Eq => {
                                 if l.value == r.value {
-                                    1
+                                    Some(1)
                                 } else {
-                                    0
+                                    Some(0)
                                 }
                             }
                         };
+                        let Some(result) = result else {
+                            let reason = if matches!(op, BinaryOp::Div) && r.value == 0 {
+                                "this expression divides by zero"
+                            } else {
+                                "the result of this expression is out of range"
+                            };
+                            return Err(litcheck::diagnostics::diagnostic!(
+                                labels = vec![litcheck::diagnostics::LabeledSpan::new_with_span(
+                                    Some(reason.to_string()),
+                                    op_span,
+                                )],
+                                "unable to evaluate numeric expression",
+                            )
+                            .into());
+                        };
                         let format = if l.format.is_none()
                             && r.format.is_none()
                             && explicit_format.is_none()
-- 
2.43.0


From ec572e7e16d162685235c3bc02a3a82408530bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:21 +0000
Subject: [PATCH 23/79] fix: a captured number is converted by the rules of its
 format, whose precision is a minimum

---
 .../pattern/matcher/matchers/smart/operand.rs | 127 +++---------------
 1 file changed, 15 insertions(+), 112 deletions(-)

diff --git a/filecheck/src/pattern/matcher/matchers/smart/operand.rs b/filecheck/src/pattern/matcher/matchers/smart/operand.rs
index 6bb5da5..86978dc 100644
--- a/filecheck/src/pattern/matcher/matchers/smart/operand.rs
+++ b/filecheck/src/pattern/matcher/matchers/smart/operand.rs
@@ -1,4 +1,4 @@
-use crate::{common::*, errors::InvalidNumericCastError};
+use crate::{common::*, errors::InvalidNumericCastError, expr::ParseNumberError};
 
 /// A value on the match context operand stack
 #[derive(Debug)]
@@ -34,120 +34,23 @@ impl<'input> Operand<'input> {
                 match_file: context.source_file(span.source_id()).unwrap(),
             }),
             Value::Str(value) => {
-                let value = match format.unwrap_or_default() {
-                    NumberFormat::Unsigned { precision } => {
-                        parse_number(
-                            span,
-                            value.trim(),
-                            precision,
-                            /*signed=*/ false,
-                            context,
-                        )?
-                    }
-                    NumberFormat::Signed { precision } => {
-                        parse_number(
-                            span,
-                            value.trim(),
-                            precision,
-                            /*signed=*/ true,
-                            context,
-                        )?
-                    }
-                    NumberFormat::Hex {
-                        require_prefix,
-                        precision,
-                        casing: _,
-                    } => {
-                        let value = if require_prefix {
-                            if let Some(stripped) = value.trim().strip_prefix("0x") {
-                                stripped
-                            } else {
-                                return Err(InvalidNumericCastError {
-                                    span: Some(span),
-                                    kind: std::num::IntErrorKind::InvalidDigit,
-                                    specific_span: None,
-                                    match_file: context.source_file(span.source_id()).unwrap(),
-                                });
-                            }
-                        } else {
-                            value.trim()
-                        };
-                        if value.len() > precision as usize {
-                            return Err(InvalidNumericCastError {
-                                span: Some(span),
-                                kind: std::num::IntErrorKind::PosOverflow,
-                                specific_span: None,
-                                match_file: context.source_file(span.source_id()).unwrap(),
-                            });
-                        }
-
-                        let trimmed = value.trim_start_matches('0');
-                        if trimmed.is_empty() {
-                            0
-                        } else {
-                            i128::from_str_radix(trimmed, 16).map_err(|err| {
-                                InvalidNumericCastError {
-                                    span: Some(span),
-                                    kind: *err.kind(),
-                                    specific_span: None,
-                                    match_file: context.source_file(span.source_id()).unwrap(),
-                                }
-                            })?
-                        }
-                    }
-                };
-                Ok(Number {
-                    span,
-                    format,
-                    value,
-                })
+                let parsed = Number::parse_with_format(
+                    Span::new(span, value.trim()),
+                    format.unwrap_or_default(),
+                )
+                .map_err(|err| InvalidNumericCastError {
+                    span: Some(span),
+                    kind: match err {
+                        ParseNumberError::InvalidFormat { reason, .. } => reason,
+                        _ => std::num::IntErrorKind::InvalidDigit,
+                    },
+                    specific_span: None,
+                    match_file: context.source_file(span.source_id()).unwrap(),
+                })?;
+                Ok(Number { format, ..parsed })
             }
             Value::Num(Expr::Num(num)) => Ok(num.clone()),
             Value::Num(_) => unreachable!(),
         }
     }
 }
-
-fn parse_number(
-    span: SourceSpan,
-    value: &str,
-    precision: u8,
-    signed: bool,
-    context: &dyn Context<'_, '_>,
-) -> Result<i128, InvalidNumericCastError> {
-    let precision = precision as usize;
-    let value = if precision > 0 {
-        if value.len() > precision {
-            return Err(InvalidNumericCastError {
-                span: Some(span),
-                kind: std::num::IntErrorKind::PosOverflow,
-                specific_span: None,
-                match_file: context.source_file(span.source_id()).unwrap(),
-            });
-        }
-        let value = value.trim_start_matches('0');
-        if value.is_empty() {
-            return Ok(0);
-        }
-        value
-    } else {
-        value
-    };
-    let value = value
-        .parse::<i128>()
-        .map_err(|err| InvalidNumericCastError {
-            span: Some(span),
-            kind: *err.kind(),
-            specific_span: None,
-            match_file: context.source_file(span.source_id()).unwrap(),
-        })?;
-    if !signed && value < 0 {
-        return Err(InvalidNumericCastError {
-            span: Some(span),
-            kind: std::num::IntErrorKind::NegOverflow,
-            specific_span: None,
-            match_file: context.source_file(span.source_id()).unwrap(),
-        });
-    }
-    Ok(value)
-}
-- 
2.43.0


From fcfe20a6d64ea7e3552182bbbb4c1a496e12bf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:21 +0000
Subject: [PATCH 24/79] fix: numbers beyond 64 bits must not be truncated, nor
 negative ones wrapped, when substituted

---
 filecheck/src/expr/num.rs                     |  6 ++--
 .../matcher/matchers/smart/searcher.rs        | 28 ++++++++++++-------
 2 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/filecheck/src/expr/num.rs b/filecheck/src/expr/num.rs
index ab6a725..7c62da2 100644
--- a/filecheck/src/expr/num.rs
+++ b/filecheck/src/expr/num.rs
@@ -293,10 +293,8 @@ impl fmt::Display for Number {
             }
         }
         match format {
-            NumberFormat::Unsigned { precision: 0 } => write!(f, "{}", value as u64),
-            NumberFormat::Unsigned { .. } => {
-                write!(f, "{:0padding$}", value as u64)
-            }
+            NumberFormat::Unsigned { precision: 0 } => write!(f, "{value}"),
+            NumberFormat::Unsigned { .. } => write!(f, "{value:0padding$}"),
             NumberFormat::Signed { precision: 0 } => write!(f, "{value}"),
             NumberFormat::Signed { .. } => write!(f, "{value:0padding$}"),
             NumberFormat::Hex {
diff --git a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
index 95f7efc..52a970a 100644
--- a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
+++ b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
@@ -560,18 +560,26 @@ impl<'a, 'input> SmartSearcher<'a, 'input> {
         log::trace!(target: "smart:searcher", "attempting to match substitution: '{expr}'");
         let span = expr.span();
         let pattern_source = match evaluate_expr(span, expr, ty, context)? {
-            Left(num) => Cow::Owned(match ty {
-                Some(ValueType::Number(Some(format))) => {
-                    format!(
-                        "{}",
-                        Number {
-                            format: Some(format),
-                            ..num
-                        }
+            Left(num) => {
+                let num = match ty {
+                    Some(ValueType::Number(Some(format))) => Number {
+                        format: Some(format),
+                        ..num
+                    },
+                    _ => num,
+                };
+                if num.value.is_negative() && !num.format.unwrap_or_default().is_signed() {
+                    return Err(litcheck::diagnostics::diagnostic!(
+                        labels = vec![litcheck::diagnostics::LabeledSpan::new_with_span(
+                            Some(format!("the value of this expression is {}", num.value)),
+                            span,
+                        )],
+                        "unable to represent a negative value in an unsigned format",
                     )
+                    .into());
                 }
-                _ => format!("{num}"),
-            }),
+                Cow::Owned(num.to_string())
+            }
             Right(s) => s,
         };
         log::trace!(target: "smart:searcher", "resolved substitution expression to pattern: '{pattern_source}'");
-- 
2.43.0


From 7ca9bfa2be9686efdfdc1f5b4648d68471af81c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:10 +0000
Subject: [PATCH 25/79] fix: spaces and tabs match one another unless
 --strict-whitespace is given

---
 core/src/text/mod.rs          | 22 +++++-----------------
 filecheck/src/check/mod.rs    |  9 ++++++++-
 filecheck/src/parse/parser.rs | 28 +++++++++++++++++++++++++---
 3 files changed, 38 insertions(+), 21 deletions(-)

diff --git a/core/src/text/mod.rs b/core/src/text/mod.rs
index de794f9..7a1c4df 100644
--- a/core/src/text/mod.rs
+++ b/core/src/text/mod.rs
@@ -155,6 +155,9 @@ pub fn is_char_boundary(buffer: &[u8], offset: usize) -> bool {
     }
 }
 
+/// Unless `strict_whitespace` is set, replace each tab with a space.
+///
+/// The length of the text does not change, so offsets in the result are offsets in the original.
 pub fn canonicalize_horizontal_whitespace(
     s: Cow<'_, str>,
     strict_whitespace: bool,
@@ -163,24 +166,9 @@ pub fn canonicalize_horizontal_whitespace(
         return s;
     }
 
-    if s.contains(is_non_canonical_horizontal_whitespace) {
-        Cow::Owned(s.replace(is_non_canonical_horizontal_whitespace, " "))
+    if s.contains('\t') {
+        Cow::Owned(s.replace('\t', " "))
     } else {
         s
     }
 }
-
-#[inline]
-fn is_non_canonical_horizontal_whitespace(c: char) -> bool {
-    match c {
-        '\t' => true,
-        // Unicode Space_Separator category, sans space (which we are canonicalizing to)
-        '\u{00A0}'
-        | '\u{1680}'
-        | '\u{2000}'..='\u{200A}'
-        | '\u{202F}'
-        | '\u{205F}'
-        | '\u{3000}' => true,
-        _ => false,
-    }
-}
diff --git a/filecheck/src/check/mod.rs b/filecheck/src/check/mod.rs
index e314513..c167496 100644
--- a/filecheck/src/check/mod.rs
+++ b/filecheck/src/check/mod.rs
@@ -2,6 +2,8 @@ mod program;
 
 use std::path::Path;
 
+use litcheck::text;
+
 pub use self::program::{CheckGroup, CheckProgram, CheckSection, CheckTree};
 
 use crate::{common::*, env::Bindings, pattern::matcher::MatchAny};
@@ -38,7 +40,12 @@ impl<'a> Checker<'a> {
 
     /// Check `source` against the rules in this [Checker]
     pub fn check_input(&mut self, source: Arc<SourceFile>) -> TestResult {
-        let buffer = source.as_bytes();
+        // Canonicalization does not change any offsets
+        let content = text::canonicalize_horizontal_whitespace(
+            Cow::Borrowed(source.as_str()),
+            self.config.options.strict_whitespace,
+        );
+        let buffer = content.as_bytes();
         let mut context =
             MatchContext::new(self.config, self.match_file.clone(), source.clone(), buffer);
 
diff --git a/filecheck/src/parse/parser.rs b/filecheck/src/parse/parser.rs
index f908ea1..9d25c44 100644
--- a/filecheck/src/parse/parser.rs
+++ b/filecheck/src/parse/parser.rs
@@ -14,7 +14,10 @@ lalrpop_util::lalrpop_mod!(
     "/parse/grammar.rs"
 );
 
-use litcheck::diagnostics::{SourceId, SourceSpan, Span, Spanned};
+use litcheck::{
+    diagnostics::{SourceId, SourceSpan, Span, Spanned},
+    text,
+};
 use std::borrow::Cow;
 
 use super::{Lexed, Lexer, ParseError, ParseResult, ParserError, Token};
@@ -214,7 +217,7 @@ impl<'config> CheckFileParser<'config> {
                     Ok(CheckLine::new(
                         SourceSpan::from_range_unchecked(span.source_id(), line_start..end),
                         ty,
-                        CheckPattern::Literal(pattern.map(Cow::Borrowed)),
+                        CheckPattern::Literal(self.canonicalize(pattern.map(Cow::Borrowed))),
                     ))
                 }
                 (_, Token::Lf, end) if matches!(ty.kind, Check::Empty) => Ok(CheckLine::new(
@@ -233,7 +236,7 @@ impl<'config> CheckFileParser<'config> {
                 }
             }
         } else {
-            let mut parts = vec![];
+            let mut parts: Vec<CheckPatternPart<'a>> = vec![];
             loop {
                 match lexer.peek() {
                     Some(Token::MatchStart) => {
@@ -281,6 +284,18 @@ impl<'config> CheckFileParser<'config> {
                 });
             }
 
+            for part in parts.iter_mut() {
+                match part {
+                    CheckPatternPart::Literal(text)
+                    | CheckPatternPart::Regex(RegexPattern { pattern: text, .. })
+                    | CheckPatternPart::Match(Match::Substitution {
+                        pattern: Some(text),
+                        ..
+                    }) => *text = self.canonicalize(core::mem::take(text)),
+                    CheckPatternPart::Match(_) => (),
+                }
+            }
+
             match parts.len() {
                 0 if matches!(ty.kind, Check::Empty) => Ok(CheckLine::new(
                     SourceSpan::from_range_unchecked(span.source_id(), line_start..check_end),
@@ -328,6 +343,13 @@ impl<'config> CheckFileParser<'config> {
         }
     }
 
+    /// The input is canonicalized before it is matched, so patterns must be as well
+    fn canonicalize<'a>(&self, text: Span<Cow<'a, str>>) -> Span<Cow<'a, str>> {
+        text.map(|text| {
+            text::canonicalize_horizontal_whitespace(text, self.config.options.strict_whitespace)
+        })
+    }
+
     fn parse_match_block<'a>(
         &mut self,
         source: &'a str,
-- 
2.43.0


From a5c636160ada0fa24557b3333484e1764e700434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:44 +0000
Subject: [PATCH 26/79] fix: leading and trailing spaces of a regex block are
 part of it

---
 filecheck/src/parse/lexer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filecheck/src/parse/lexer/mod.rs b/filecheck/src/parse/lexer/mod.rs
index 1a2e308..ce9d8a4 100644
--- a/filecheck/src/parse/lexer/mod.rs
+++ b/filecheck/src/parse/lexer/mod.rs
@@ -532,7 +532,7 @@ impl<'input> Lexer<'input> {
                     last_delimiter_end = delim_range.end;
                     let regex_start = in_regex.take().unwrap();
                     let pattern_start = regex_start.span().end().to_usize();
-                    let raw = self.input.as_str(pattern_start..delim_range.start).trim();
+                    let raw = self.input.as_str(pattern_start..delim_range.start);
                     self.buffer
                         .push_back(Ok((pattern_start, Token::Raw(raw), delim_range.start)));
                     self.buffer.push_back(Ok((
-- 
2.43.0


From 205d339b2bb10cb6c268bf1a3fbe33636c643d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:44 +0000
Subject: [PATCH 27/79] fix: --strict-whitespace must keep all leading
 whitespace but the separator

---
 filecheck/src/parse/lexer/mod.rs | 38 +++++++++++---------------------
 1 file changed, 13 insertions(+), 25 deletions(-)

diff --git a/filecheck/src/parse/lexer/mod.rs b/filecheck/src/parse/lexer/mod.rs
index ce9d8a4..0f7efee 100644
--- a/filecheck/src/parse/lexer/mod.rs
+++ b/filecheck/src/parse/lexer/mod.rs
@@ -72,8 +72,6 @@ pub struct Lexer<'input> {
     leading_lf: bool,
     /// Is --strict-whitespace enabled
     strict_whitespace: bool,
-    /// Is --match-full-lines enabled
-    match_full_lines: bool,
 }
 impl<'input> Lexer<'input> {
     /// Produces an instance of the lexer with the lexical analysis to be performed on the `input`
@@ -122,7 +120,6 @@ impl<'input> Lexer<'input> {
             eof,
             leading_lf: true,
             strict_whitespace: config.options.strict_whitespace,
-            match_full_lines: config.options.match_full_lines,
         }
     }
 
@@ -358,7 +355,7 @@ impl<'input> Lexer<'input> {
 
         if literal {
             let raw = self.input.as_str(start..eol);
-            let stripped = if self.strict_whitespace || self.match_full_lines {
+            let stripped = if self.strict_whitespace {
                 raw.strip_prefix(' ').unwrap_or(raw)
             } else {
                 raw.trim_start()
@@ -368,9 +365,9 @@ impl<'input> Lexer<'input> {
                 .push_back(Ok((start + shift, Token::Raw(stripped), eol)));
             self.input.set_start(eol);
             return;
-        } else if self.strict_whitespace || self.match_full_lines {
-            // If --strict-whitespace/--match-full-lines are in use, do not remove excess leading
-            // whitespace
+        } else if self.strict_whitespace {
+            // If --strict-whitespace is in use, only remove the space which separates the prefix
+            // and the pattern
             let raw = self.input.as_str(start..eol);
             let stripped = raw.strip_prefix(' ').unwrap_or(raw);
             let shift = raw.len().abs_diff(stripped.len());
@@ -422,13 +419,11 @@ impl<'input> Lexer<'input> {
                     ));
                     if delim_range.start > last_delimiter_end {
                         let raw = &self.input.buffer()[last_delimiter_end..delim_range.start];
-                        if !raw.iter().all(u8::is_ascii_whitespace) || !is_first {
+                        if self.strict_whitespace
+                            || !raw.iter().all(u8::is_ascii_whitespace)
+                            || !is_first
+                        {
                             let content = self.input.as_str(last_delimiter_end..delim_range.start);
-                            let content = if is_first {
-                                content.strip_prefix(' ').unwrap_or(content)
-                            } else {
-                                content
-                            };
                             self.buffer.push_back(Ok((
                                 last_delimiter_end,
                                 Token::Raw(content),
@@ -466,13 +461,11 @@ impl<'input> Lexer<'input> {
                     ));
                     if delim_range.start > last_delimiter_end {
                         let raw = &self.input.buffer()[last_delimiter_end..delim_range.start];
-                        if !raw.iter().all(u8::is_ascii_whitespace) || !is_first {
+                        if self.strict_whitespace
+                            || !raw.iter().all(u8::is_ascii_whitespace)
+                            || !is_first
+                        {
                             let content = self.input.as_str(last_delimiter_end..delim_range.start);
-                            let content = if is_first {
-                                content.strip_prefix(' ').unwrap_or(content)
-                            } else {
-                                content
-                            };
                             self.buffer.push_back(Ok((
                                 last_delimiter_end,
                                 Token::Raw(content),
@@ -551,12 +544,7 @@ impl<'input> Lexer<'input> {
         // The line has been sliced up in delimited parts, but we have to handle any trailing content
         if last_delimiter_end < eol && in_match.is_none() && in_regex.is_none() {
             let line = self.input.as_str(last_delimiter_end..eol);
-            if !line.trim().is_empty() {
-                let line = if is_first {
-                    line.strip_prefix(' ').unwrap_or(line)
-                } else {
-                    line
-                };
+            if (self.strict_whitespace && !is_first) || !line.trim().is_empty() {
                 self.buffer
                     .push_back(Ok((last_delimiter_end, Token::Raw(line), eol)));
             }
-- 
2.43.0


From 629b580bbca0713d06c544c9634041c7f0abd553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:05 +0000
Subject: [PATCH 28/79] fix: an alternation in a regex block must not extend to
 the literals around it

---
 filecheck/src/ast/pattern.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/filecheck/src/ast/pattern.rs b/filecheck/src/ast/pattern.rs
index 351be77..514fc7d 100644
--- a/filecheck/src/ast/pattern.rs
+++ b/filecheck/src/ast/pattern.rs
@@ -463,9 +463,13 @@ impl<'a> CheckPattern<'a> {
                             captures.append(part_captures);
                             if is_literal_mode {
                                 is_literal_mode = false;
-                                convert_to_regex(&mut pattern, part.len())
+                                convert_to_regex(&mut pattern, part.len() + 4)
                             }
+                            // An alternation or inline flag in this block must not extend to
+                            // the parts around it
+                            pattern.push_str("(?:");
                             pattern.push_str(part.as_ref());
+                            pattern.push(')');
                         }
                         CheckPatternPart::Match(Match::Substitution {
                             pattern: Some(part),
-- 
2.43.0


From 9b552f0192a60c50e322c5c1b9f5b57359a2f7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:33 +0000
Subject: [PATCH 29/79] fix: --implicit-check-not applies within label blocks
 and between the matches of a CHECK-COUNT

---
 filecheck/src/check/program.rs | 51 +++++++++++++++++++++++++---------
 1 file changed, 38 insertions(+), 13 deletions(-)

diff --git a/filecheck/src/check/program.rs b/filecheck/src/check/program.rs
index 3b956ee..a5bd306 100644
--- a/filecheck/src/check/program.rs
+++ b/filecheck/src/check/program.rs
@@ -265,7 +265,11 @@ impl<'a> CheckProgram<'a> {
                                 break;
                             }
                             _ => {
-                                block.push(iter.next().unwrap());
+                                push_line(
+                                    &mut block,
+                                    iter.next().unwrap(),
+                                    implicit_check_not_pattern.as_ref(),
+                                );
                             }
                         }
                     }
@@ -283,18 +287,13 @@ impl<'a> CheckProgram<'a> {
                 | Check::Next
                 | Check::Same
                 | Check::Dag
-                | Check::Empty => {
-                    block.push(iter.next().unwrap());
-
-                    // Insert the --implicit-check-not pattern after every positive check
-                    if let Some(implicit_check_not) = implicit_check_not_pattern.as_ref() {
-                        block.push(implicit_check_not.clone());
-                    }
-                }
-                Check::Not => {
-                    // Since CHECK-NOT is a negative check, we do not insert --implicit-check-not
-                    // patterns after them
-                    block.push(iter.next().unwrap());
+                | Check::Empty
+                | Check::Not => {
+                    push_line(
+                        &mut block,
+                        iter.next().unwrap(),
+                        implicit_check_not_pattern.as_ref(),
+                    );
                 }
                 _ => unreachable!(),
             }
@@ -565,3 +564,29 @@ fn can_insert_dependent_positive_check(
         )
     })
 }
+
+/// Add `line` to `block`, followed by the --implicit-check-not pattern, if there is one, and `line`
+/// is a positive check.
+fn push_line<'a>(
+    block: &mut Vec<CheckLine<'a>>,
+    mut line: CheckLine<'a>,
+    implicit_check_not: Option<&CheckLine<'a>>,
+) {
+    // Since CHECK-NOT is a negative check, we do not insert --implicit-check-not patterns after
+    // them
+    let implicit_check_not = match (implicit_check_not, line.kind()) {
+        (Some(implicit_check_not), kind) if kind != Check::Not => implicit_check_not,
+        _ => return block.push(line),
+    };
+
+    // The pattern applies between the matches of a CHECK-COUNT as well
+    if let Check::Count(count) = line.kind() {
+        line.ty = CheckType::new(line.ty.span(), Check::Plain);
+        for _ in 1..count {
+            block.push(line.clone());
+            block.push(implicit_check_not.clone());
+        }
+    }
+    block.push(line);
+    block.push(implicit_check_not.clone());
+}
-- 
2.43.0


From 328443eb59c4373a5ad80d0265a6bf15f16af4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:18 +0000
Subject: [PATCH 30/79] fix: the value of a string variable is matched as text,
 not as a regular expression

---
 filecheck/src/pattern/matcher/matchers/smart/searcher.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
index 52a970a..f304c0d 100644
--- a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
+++ b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
@@ -593,7 +593,8 @@ impl<'a, 'input> SmartSearcher<'a, 'input> {
                 regex_automata::meta::Config::new()
                     .match_kind(regex_automata::MatchKind::LeftmostFirst),
             )
-            .build(&pattern_source)
+            // The value is text to be found as it is, not a pattern
+            .build(&regex_syntax::escape(&pattern_source))
             .map_err(|error| regex::build_error_to_diagnostic(error, 1, |_| span))?;
         self.match_regex(span, &pattern, Some(pattern_source.as_ref()), context)
     }
-- 
2.43.0


From 67c1b38565b02699bea628c5029243cb74019793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:26 +0000
Subject: [PATCH 31/79] fix: --implicit-check-not must not make a group of
 CHECK-DAGs ordered

---
 filecheck/src/check/program.rs | 21 +++++++++--
 filecheck/src/rules/dag.rs     | 65 ++++++++++++++++++++++++++++++++--
 2 files changed, 81 insertions(+), 5 deletions(-)

diff --git a/filecheck/src/check/program.rs b/filecheck/src/check/program.rs
index a5bd306..ec79a1c 100644
--- a/filecheck/src/check/program.rs
+++ b/filecheck/src/check/program.rs
@@ -303,13 +303,14 @@ impl<'a> CheckProgram<'a> {
             blocks.push_back((label.take(), block));
         }
 
-        self.compile_blocks(&mut blocks, config)
+        self.compile_blocks(&mut blocks, implicit_check_not_pattern.as_ref(), config)
     }
 
     /// Categorize and process blocks
     fn compile_blocks(
         &mut self,
         blocks: &mut VecDeque<(Option<CheckLine<'a>>, Vec<CheckLine<'a>>)>,
+        implicit_check_not: Option<&CheckLine<'a>>,
         config: &Config,
     ) -> DiagResult<()> {
         let mut groups = vec![];
@@ -380,7 +381,13 @@ impl<'a> CheckProgram<'a> {
                                 break;
                             }
                         }
-                        let check_dag = Box::new(CheckDag::new(MatchAll::compile(dags, config)?));
+                        let excluded = implicit_check_not
+                            .map(|line| MatchAll::compile_set(vec![line.clone()], config))
+                            .transpose()?
+                            .map(MatchAny::from);
+                        let check_dag = Box::new(
+                            CheckDag::new(MatchAll::compile(dags, config)?).with_excluded(excluded),
+                        );
 
                         let group = if matches!(
                             body.front().map(|line| line.kind()),
@@ -579,6 +586,16 @@ fn push_line<'a>(
         _ => return block.push(line),
     };
 
+    // Consecutive CHECK-DAGs are matched as a group, which takes care of the text between their
+    // matches, so that the pattern must not split them up
+    if line.kind() == Check::Dag
+        && let [.., previous, last] = block.as_slice()
+        && previous.kind() == Check::Dag
+        && last.span() == implicit_check_not.span()
+    {
+        block.pop();
+    }
+
     // The pattern applies between the matches of a CHECK-COUNT as well
     if let Check::Count(count) = line.kind() {
         line.ty = CheckType::new(line.ty.span(), Check::Plain);
diff --git a/filecheck/src/rules/dag.rs b/filecheck/src/rules/dag.rs
index fc41dfc..c07bcaf 100644
--- a/filecheck/src/rules/dag.rs
+++ b/filecheck/src/rules/dag.rs
@@ -1,15 +1,73 @@
 use crate::{
     common::*,
-    pattern::{matcher::MatchAll, search::PatternSetSearcher, visitors::*},
+    pattern::{
+        matcher::{MatchAll, MatchAny},
+        search::PatternSetSearcher,
+        visitors::*,
+    },
 };
 
 #[derive(Debug)]
 pub struct CheckDag<'a> {
     patterns: MatchAll<'a>,
+    /// Patterns which must not occur between the matches of `patterns`
+    excluded: Option<MatchAny<'a>>,
 }
 impl<'a> CheckDag<'a> {
     pub fn new(patterns: MatchAll<'a>) -> Self {
-        Self { patterns }
+        Self {
+            patterns,
+            excluded: None,
+        }
+    }
+
+    /// Fail if any of the patterns in `excluded` occurs between the matches of this rule
+    pub fn with_excluded(mut self, excluded: Option<MatchAny<'a>>) -> Self {
+        self.excluded = excluded;
+        self
+    }
+
+    fn check_excluded<'input, 'context, C>(
+        &self,
+        matches: &mut Matches<'input>,
+        context: &mut C,
+    ) -> DiagResult<()>
+    where
+        C: Context<'input, 'context> + ?Sized,
+    {
+        let Some(excluded) = self.excluded.as_ref() else {
+            return Ok(());
+        };
+        let mut ranges = matches
+            .iter()
+            .filter_map(|mr| mr.info.as_ref())
+            .map(|info| (info.span.start().to_usize(), info.span.end().to_usize()))
+            .collect::<SmallVec<[_; 4]>>();
+        ranges.sort();
+        for gap in ranges.windows(2) {
+            let input = context.search_range(gap[0].1..gap[1].0.max(gap[0].1));
+            match excluded.try_match_mut(input, context)? {
+                MatchResult {
+                    info: Some(info),
+                    ty,
+                } if ty.is_ok() => {
+                    let pattern_span = info.pattern_span;
+                    matches.push(MatchResult::failed(
+                        CheckFailedError::MatchFoundButExcluded {
+                            span: info.span,
+                            input_file: context.input_file(),
+                            labels: vec![RelatedLabel::error(
+                                Label::new(pattern_span, "by this pattern"),
+                                context.source_file(pattern_span.source_id()).unwrap(),
+                            )],
+                        },
+                    ));
+                    break;
+                }
+                _ => (),
+            }
+        }
+        Ok(())
     }
 
     #[inline]
@@ -74,8 +132,9 @@ impl<'check> Rule for CheckDag<'check> {
             }
         };
         match result {
-            Ok(result) if result.is_ok() => {
+            Ok(mut result) if result.is_ok() => {
                 guard.save();
+                self.check_excluded(&mut result, context)?;
                 Ok(result)
             }
             result => result,
-- 
2.43.0


From 9614fb0697943b753216b7d206c26fe9a6de9a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:52 +0000
Subject: [PATCH 32/79] fix: recognise check directives which are indented

Leading whitespace was skipped before searching for the next directive, which
left neither a line start nor whitespace in front of its prefix, so a directive
indented on the first line, or on the line after another directive, was
silently ignored.
---
 filecheck/src/parse/lexer/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/filecheck/src/parse/lexer/mod.rs b/filecheck/src/parse/lexer/mod.rs
index 0f7efee..086bda1 100644
--- a/filecheck/src/parse/lexer/mod.rs
+++ b/filecheck/src/parse/lexer/mod.rs
@@ -188,6 +188,11 @@ impl<'input> Lexer<'input> {
         while word_boundary < eof && bytes[word_boundary].is_ascii_whitespace() {
             word_boundary += 1;
         }
+        // Unless we're at the start of a line, a prefix must be preceded by whitespace, so be sure
+        // to leave the whitespace which immediately precedes it in view of the search
+        if start < word_boundary && bytes[word_boundary - 1] != b'\n' {
+            word_boundary -= 1;
+        }
         if start < word_boundary {
             self.input.set_start(word_boundary);
         }
-- 
2.43.0


From cfbf7f85e2c09b68481e9b31569bc2bc89202563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:52 +0000
Subject: [PATCH 33/79] fix: report an empty literal pattern rather than
 panicking

---
 filecheck/src/parse/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filecheck/src/parse/parser.rs b/filecheck/src/parse/parser.rs
index 9d25c44..a3de460 100644
--- a/filecheck/src/parse/parser.rs
+++ b/filecheck/src/parse/parser.rs
@@ -200,7 +200,7 @@ impl<'config> CheckFileParser<'config> {
         // CheckPattern
         if modifiers.contains(CheckModifier::LITERAL) {
             match expect!(lexer, Token::Raw(_) | Token::Lf) {
-                (start, Token::Raw(pattern), end) => {
+                (start, Token::Raw(pattern), end) if !pattern.is_empty() => {
                     if matches!(ty.kind, Check::Empty) {
                         // Expected an empty pattern
                         return Err(ParserError::ExpectedEmptyPattern {
@@ -220,7 +220,7 @@ impl<'config> CheckFileParser<'config> {
                         CheckPattern::Literal(self.canonicalize(pattern.map(Cow::Borrowed))),
                     ))
                 }
-                (_, Token::Lf, end) if matches!(ty.kind, Check::Empty) => Ok(CheckLine::new(
+                (_, _, end) if matches!(ty.kind, Check::Empty) => Ok(CheckLine::new(
                     SourceSpan::from_range_unchecked(span.source_id(), line_start..end),
                     ty,
                     CheckPattern::Empty(SourceSpan::from_range_unchecked(
-- 
2.43.0


From fcae59a3abd2d06eb1557b4d36920ad1a149a48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:26 +0000
Subject: [PATCH 34/79] fix: resolve numeric variable definitions given on the
 command line in order

A definition was evaluated each time it was used, so one referring to itself
recursed until the stack overflowed, and one referring to an undefined variable
panicked as there is no source file to report it in.
---
 filecheck/src/env.rs | 40 +++++++++++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/filecheck/src/env.rs b/filecheck/src/env.rs
index c9c519e..0b8b94d 100644
--- a/filecheck/src/env.rs
+++ b/filecheck/src/env.rs
@@ -253,6 +253,28 @@ impl<V: Clone + fmt::Debug> dyn LexicalScopeMut<Value = V> {
     }
 }
 
+/// Replace the variables `expr` refers to with their definitions in `system`
+///
+/// Returns `None` if it refers to something which is not a numeric variable defined there.
+fn resolve_definition(expr: &Expr, system: &OrdMap<Symbol, Value<'_>>) -> Option<Expr> {
+    match expr {
+        Expr::Num(_) => Some(expr.clone()),
+        Expr::Var(VariableName::User(name) | VariableName::Global(name)) => {
+            match system.get(&name.into_inner()) {
+                Some(Value::Num(definition)) => Some(definition.clone()),
+                _ => None,
+            }
+        }
+        Expr::Var(VariableName::Pseudo(_)) => None,
+        Expr::Binary { span, op, lhs, rhs } => Some(Expr::Binary {
+            span: *span,
+            op: *op,
+            lhs: Box::new(resolve_definition(lhs, system)?),
+            rhs: Box::new(resolve_definition(rhs, system)?),
+        }),
+    }
+}
+
 /// This struct represents the top-level environment used by expressions
 /// evaluated as part of a CHECK pattern. Currently, this environment
 /// consists solely of local and global variable bindings.
@@ -273,13 +295,17 @@ impl<'input> Env<'input> {
 
     /// Create a new environment, initialized from the given configuration
     pub fn from_config<'i>(config: &Config) -> Env<'i> {
-        let system = OrdMap::<_, Value<'i>>::from_iter(
-            config
-                .options
-                .variables
-                .iter()
-                .map(|v| (v.name().into_inner(), v.value().clone())),
-        );
+        // A definition may only refer to the definitions which precede it
+        let mut system = OrdMap::<_, Value<'i>>::new();
+        for v in config.options.variables.iter() {
+            let value = match v.value() {
+                Value::Num(expr) => resolve_definition(expr, &system)
+                    .map(Value::Num)
+                    .unwrap_or(Value::Undef),
+                value => value.clone(),
+            };
+            system.insert(v.name().into_inner(), value);
+        }
         Env {
             bindings: Bindings::new_with_system(system),
             enable_var_scope: config.options.enable_var_scope,
-- 
2.43.0


From 0ebd73867ae0520bacd90f8d1eba6b83428f69ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:26 +0000
Subject: [PATCH 35/79] fix: rendering a failure must not panic when the region
 searched ends in a multi-byte character

---
 filecheck/src/errors.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/filecheck/src/errors.rs b/filecheck/src/errors.rs
index 550c669..07f3603 100644
--- a/filecheck/src/errors.rs
+++ b/filecheck/src/errors.rs
@@ -490,8 +490,9 @@ impl InputDump {
             0
         } else {
             input_file
-                .location(SourceSpan::at(id, (eof - 1) as u32))
-                .line
+                .content()
+                .line_index((eof as u32 - 1).into())
+                .number()
                 .to_u32()
         };
 
@@ -623,9 +624,11 @@ impl SearchedRegion {
 
         let first_line = input_file.location(SourceSpan::at(id, start as u32)).line;
         // `end` is exclusive, so the last byte actually searched is the one before it.
+        // That byte may well be in the middle of a character.
         let last_line = input_file
-            .location(SourceSpan::at(id, (end - 1) as u32))
-            .line;
+            .content()
+            .line_index((end as u32 - 1).into())
+            .number();
         let num_lines = last_line.to_u32().saturating_sub(first_line.to_u32()) + 1;
 
         if always_inline || num_lines <= MAX_INLINE_SEARCHED_LINES {
-- 
2.43.0


From 437e3d8b346cff4dc496f2d6592cb237d886b0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:26 +0000
Subject: [PATCH 36/79] fix: an empty CHECK-LABEL match at the end of the
 previous label's line must not panic

---
 filecheck/src/check/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/filecheck/src/check/mod.rs b/filecheck/src/check/mod.rs
index c167496..cab6715 100644
--- a/filecheck/src/check/mod.rs
+++ b/filecheck/src/check/mod.rs
@@ -142,12 +142,15 @@ pub fn discover_blocks<'input, 'context: 'input>(
                             });
                             // Update the block info for the most recent CHECK-LABEL to record its end index,
                             // if one is present
+                            //
+                            // An empty match may fall on the very newline at which that block
+                            // starts, in which case the block is empty
                             if let Some(prev_block) = blocks[..block_id]
                                 .iter_mut()
                                 .rev()
                                 .find(|bi| bi.start.is_some())
                             {
-                                prev_block.end = Some(prev_block_end);
+                                prev_block.end = prev_block.start.max(Some(prev_block_end));
                             }
                         }
                         None => {
-- 
2.43.0


From a14b8dab5925577e86279e0400180d8f34cd0af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:26 +0000
Subject: [PATCH 37/79] fix: FILECHECK_OPTS must not reset the options given on
 the command line

---
 litcheck/src/commands/filecheck.rs | 31 ++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/litcheck/src/commands/filecheck.rs b/litcheck/src/commands/filecheck.rs
index c5e1674..fda1989 100644
--- a/litcheck/src/commands/filecheck.rs
+++ b/litcheck/src/commands/filecheck.rs
@@ -1,6 +1,6 @@
 use std::process::ExitCode;
 
-use clap::Parser;
+use clap::{CommandFactory, FromArgMatches, Parser, parser::ValueSource};
 use filecheck::{Config, Test};
 use litcheck::{
     Input,
@@ -38,7 +38,7 @@ impl Command for FileCheck {
         if let Some(filecheck_opts) = std::env::var("FILECHECK_OPTS").ok()
             && let Some(extra_args) = shlex::split(&filecheck_opts)
         {
-            <filecheck::Options as clap::Parser>::update_from(&mut self.options, extra_args);
+            update_options(&mut self.options, extra_args);
         }
 
         let mut options = self.options;
@@ -71,3 +71,30 @@ impl Command for FileCheck {
         test.verify(input_file).map(|_| ExitCode::SUCCESS)
     }
 }
+
+/// Update `options` with the options which are present in `args`
+///
+/// All of the other options keep the value they have, i.e. they are not reset to their default.
+fn update_options(options: &mut filecheck::Options, args: Vec<String>) {
+    let mut matches = filecheck::Options::command_for_update().get_matches_from(args);
+    let ids = matches.ids().map(|id| id.to_string()).collect::<Vec<_>>();
+    for id in ids {
+        if !matches!(
+            matches.value_source(&id),
+            None | Some(ValueSource::CommandLine)
+        ) {
+            matches.try_clear_id(&id).expect("id is known to be valid");
+        }
+    }
+
+    // These options accumulate
+    let variables = core::mem::take(&mut options.variables);
+    let implicit_check_not = core::mem::take(&mut options.implicit_check_not);
+
+    options
+        .update_from_arg_matches_mut(&mut matches)
+        .unwrap_or_else(|err| err.exit());
+
+    options.variables.extend(variables);
+    options.implicit_check_not.extend(implicit_check_not);
+}
-- 
2.43.0


From 5c360310d06691c92373a0784b90bed627045421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:37 +0000
Subject: [PATCH 38/79] fix: a regex block in a feature expression may contain
 closing braces

---
 lit/src/config/expr/boolean.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/lit/src/config/expr/boolean.rs b/lit/src/config/expr/boolean.rs
index 510f651..d509601 100644
--- a/lit/src/config/expr/boolean.rs
+++ b/lit/src/config/expr/boolean.rs
@@ -688,11 +688,19 @@ impl<'a> Tokenizer<'a> {
                     self.skip();
                 }
                 let start = self.pos;
-                self.skip_while(|c| c != '}');
+                // The pattern extends to the last two braces of the first run of two or more,
+                // any others are part of the regex, e.g. `{{a{2}b{3}}}`
+                loop {
+                    self.skip_while(|c| c != '}');
+                    let rest = &self.input[self.pos..];
+                    if rest.len() < 2 || (rest.starts_with("}}") && !rest.starts_with("}}}")) {
+                        break;
+                    }
+                    self.skip();
+                }
                 let end = self.pos;
                 let next = self.peek();
                 match self.read() {
-                    // Can only happen if there is nothing in the braces
                     (_, '}') if next == '}' => {
                         self.pop();
                         self.pop();
@@ -707,10 +715,6 @@ impl<'a> Tokenizer<'a> {
                             Ok(Token::Pattern(pattern))
                         }
                     }
-                    (_, '}') if next != '\0' => Err(InvalidBooleanExprError::UnexpectedChar {
-                        span: SourceSpan::at(self.source_id, end as u32),
-                        c: next,
-                    }),
                     (_, _) => Err(InvalidBooleanExprError::UnexpectedEof {
                         span: SourceSpan::at(self.source_id, end as u32),
                         expected: vec!["'}'"],
-- 
2.43.0


From 9eaaad504e8e9c64f717701aecba84bc737c1570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:37 +0000
Subject: [PATCH 39/79] fix: a feature expression must not be cut short at a
 NUL character

---
 lit/src/config/expr/boolean.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lit/src/config/expr/boolean.rs b/lit/src/config/expr/boolean.rs
index d509601..2c46693 100644
--- a/lit/src/config/expr/boolean.rs
+++ b/lit/src/config/expr/boolean.rs
@@ -251,6 +251,15 @@ impl<'a> BooleanExprParser<'a> {
         self.parse_or_expr()?;
         self.expect(Token::Eof)?;
 
+        // The tokenizer also stops at a NUL character
+        let end = self.tokenizer.pos;
+        if let Some(c) = self.tokenizer.input[end..].chars().next() {
+            return Err(InvalidBooleanExprError::UnexpectedChar {
+                span: SourceSpan::at(self.tokenizer.source_id, end as u32),
+                c,
+            });
+        }
+
         Ok(self.expr)
     }
 
-- 
2.43.0


From d2be08c419af4a60d182b899c6ffea4e7a20a038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:16 +0000
Subject: [PATCH 40/79] fix: running a command without a script on its standard
 input must not panic

---
 lit/src/utils.rs | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/lit/src/utils.rs b/lit/src/utils.rs
index 95cb573..756a3f7 100644
--- a/lit/src/utils.rs
+++ b/lit/src/utils.rs
@@ -70,19 +70,20 @@ impl ShellCommand {
         let started_at = Instant::now();
         match self.command.spawn() {
             Ok(mut child) => {
-                let pipe_stdin = self.pipe_stdin.take();
-                let mut stdin = child.stdin.take().unwrap();
-                let _ = std::thread::scope(move |scope| {
-                    scope
-                        .spawn(move || {
-                            if let Some(bytes) = pipe_stdin {
-                                stdin.write_all(&bytes)
-                            } else {
-                                Ok(())
-                            }
-                        })
-                        .join()
-                });
+                if let Some(mut stdin) = child.stdin.take() {
+                    let pipe_stdin = self.pipe_stdin.take();
+                    let _ = std::thread::scope(move |scope| {
+                        scope
+                            .spawn(move || {
+                                if let Some(bytes) = pipe_stdin {
+                                    stdin.write_all(&bytes)
+                                } else {
+                                    Ok(())
+                                }
+                            })
+                            .join()
+                    });
+                }
                 let stdout_handle = child.stdout.take().map(read);
                 let stderr_handle = child.stderr.take().map(read);
 
-- 
2.43.0


From a3472a2316134fb033cf8731bc6925d4baa4272b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:47 +0000
Subject: [PATCH 41/79] fix: a test which exceeds its time limit must be
 killed, and not delay the run

---
 lit/src/utils.rs | 225 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 145 insertions(+), 80 deletions(-)

diff --git a/lit/src/utils.rs b/lit/src/utils.rs
index 756a3f7..2a31685 100644
--- a/lit/src/utils.rs
+++ b/lit/src/utils.rs
@@ -2,9 +2,12 @@ use std::borrow::Cow;
 use std::ffi::OsStr;
 use std::io::Write;
 use std::path::Path;
+use std::process::{Child, ExitStatus};
+use std::sync::{mpsc, Arc};
 use std::time::{Duration, Instant};
 
 use litcheck::diagnostics::{DiagResult, IntoDiagnostic};
+use parking_lot::Mutex;
 
 use super::{TestResult, TestStatus};
 
@@ -63,92 +66,88 @@ impl ShellCommand {
         self
     }
 
+    /// Run the command to completion, or until `timeout` (if not zero) has elapsed.
+    ///
+    /// When the time limit is reached, the command and everything it started is killed.
     pub fn wait_with_timeout(mut self, timeout: Duration) -> TestResult {
         self.command
             .stdout(std::process::Stdio::piped())
             .stderr(std::process::Stdio::piped());
+        #[cfg(unix)]
+        if !timeout.is_zero() {
+            // Use a separate process group, so that we can stop all of it
+            std::os::unix::process::CommandExt::process_group(&mut self.command, 0);
+        }
         let started_at = Instant::now();
+        let deadline = if timeout.is_zero() {
+            None
+        } else {
+            started_at.checked_add(timeout)
+        };
         match self.command.spawn() {
             Ok(mut child) => {
                 if let Some(mut stdin) = child.stdin.take() {
-                    let pipe_stdin = self.pipe_stdin.take();
-                    let _ = std::thread::scope(move |scope| {
-                        scope
-                            .spawn(move || {
-                                if let Some(bytes) = pipe_stdin {
-                                    stdin.write_all(&bytes)
-                                } else {
-                                    Ok(())
-                                }
-                            })
-                            .join()
-                    });
+                    let bytes = self.pipe_stdin.take().unwrap_or_default();
+                    std::thread::spawn(move || stdin.write_all(&bytes));
                 }
-                let stdout_handle = child.stdout.take().map(read);
-                let stderr_handle = child.stderr.take().map(read);
-
-                loop {
-                    match child.try_wait() {
-                        Ok(None) => {
-                            let elapsed = started_at.elapsed();
-                            if timeout.is_zero() || elapsed < timeout {
-                                continue;
-                            }
-                            let stdout = stdout_handle
-                                .and_then(|t| t.join().ok())
-                                .unwrap_or_default();
-                            let stderr = stderr_handle
-                                .and_then(|t| t.join().ok())
-                                .unwrap_or_default();
-                            let _ = child.kill();
-                            let status = child.try_wait().transpose();
-                            let result = TestResult::new(TestStatus::Timeout)
-                                .with_stdout(stdout)
-                                .with_stderr(stderr)
-                                .with_start(started_at)
-                                .with_elapsed(elapsed);
-                            if let Some(Ok(status)) = status {
-                                break result.with_exit_status(status);
-                            } else {
-                                break result;
-                            }
-                        }
-                        Ok(Some(status)) => {
-                            let elapsed = started_at.elapsed();
-                            let stdout = stdout_handle
-                                .and_then(|t| t.join().ok())
-                                .unwrap_or_default();
-                            let stderr = stderr_handle
-                                .and_then(|t| t.join().ok())
-                                .unwrap_or_default();
-                            break TestResult::from(std::process::Output {
-                                status,
-                                stdout,
-                                stderr,
-                            })
+                let stdout = child.stdout.take().map(OutputReader::new);
+                let stderr = child.stderr.take().map(OutputReader::new);
+
+                let status = wait_until(&mut child, deadline);
+                let elapsed = started_at.elapsed();
+
+                // Processes started by the command may outlive it and keep its output open, do
+                // not wait for them longer than the command itself is allowed to run
+                let mut outputs = [stdout, stderr];
+                let mut is_closed = !matches!(status, Ok(None));
+                for output in outputs.iter_mut().flatten() {
+                    is_closed = is_closed && output.wait_until(deadline);
+                }
+                if !is_closed {
+                    kill(&mut child);
+                    let deadline = Some(Instant::now() + Duration::from_millis(500));
+                    for output in outputs.iter_mut().flatten() {
+                        output.wait_until(deadline);
+                    }
+                }
+                let [stdout, stderr] =
+                    outputs.map(|output| output.map(OutputReader::take).unwrap_or_default());
+
+                match status {
+                    Ok(None) => {
+                        let result = TestResult::new(TestStatus::Timeout)
+                            .with_stdout(stdout)
+                            .with_stderr(stderr)
                             .with_start(started_at)
                             .with_elapsed(elapsed);
+                        match child.wait() {
+                            Ok(status) => result.with_exit_status(status),
+                            Err(_) => result,
                         }
-                        Err(wait_err) => {
-                            let elapsed = started_at.elapsed();
-                            let stdout = stdout_handle
-                                .and_then(|t| t.join().ok())
-                                .unwrap_or_default();
-                            let mut stderr = stderr_handle
-                                .and_then(|t| t.join().ok())
-                                .unwrap_or_default();
-                            if stderr.is_empty() {
-                                write!(&mut stderr, "Unexpected error occurred waiting on child process: {wait_err}").unwrap();
-                            } else {
-                                write!(&mut stderr, "\n\nUnexpected error occurred waiting on child process: {wait_err}").unwrap();
-                            }
-                            break TestResult::new(TestStatus::Unresolved)
-                                .with_start(started_at)
-                                .with_elapsed(elapsed)
-                                .with_stdout(stdout)
-                                .with_stderr(stderr);
+                    }
+                    Ok(Some(status)) => TestResult::from(std::process::Output {
+                        status,
+                        stdout,
+                        stderr,
+                    })
+                    .with_start(started_at)
+                    .with_elapsed(elapsed),
+                    Err(wait_err) => {
+                        let mut stderr = stderr;
+                        if !stderr.is_empty() {
+                            stderr.extend_from_slice(b"\n\n");
                         }
-                    };
+                        write!(
+                            &mut stderr,
+                            "Unexpected error occurred waiting on child process: {wait_err}"
+                        )
+                        .unwrap();
+                        TestResult::new(TestStatus::Unresolved)
+                            .with_start(started_at)
+                            .with_elapsed(elapsed)
+                            .with_stdout(stdout)
+                            .with_stderr(stderr)
+                    }
                 }
             }
             Err(spawn_err) => TestResult::new(TestStatus::Unresolved)
@@ -162,12 +161,78 @@ impl ShellCommand {
     }
 }
 
-fn read<R: std::io::Read + Send + 'static>(mut input: R) -> std::thread::JoinHandle<Vec<u8>> {
-    std::thread::spawn(move || {
-        let mut buffer = vec![];
-        match input.read_to_end(&mut buffer) {
-            Ok(_) => buffer,
-            Err(_) => buffer,
+/// Wait for `child` to exit, returns `None` if it is still running when `deadline` is reached
+fn wait_until(child: &mut Child, deadline: Option<Instant>) -> std::io::Result<Option<ExitStatus>> {
+    let Some(deadline) = deadline else {
+        return child.wait().map(Some);
+    };
+    let mut interval = Duration::from_micros(100);
+    loop {
+        if let Some(status) = child.try_wait()? {
+            return Ok(Some(status));
+        }
+        let remaining = deadline.saturating_duration_since(Instant::now());
+        if remaining.is_zero() {
+            return Ok(None);
+        }
+        std::thread::sleep(interval.min(remaining));
+        interval = (interval * 2).min(Duration::from_millis(10));
+    }
+}
+
+/// Kill `child`, along with all processes in its process group
+fn kill(child: &mut Child) {
+    #[cfg(unix)]
+    {
+        unsafe extern "C" {
+            safe fn kill(pid: i32, signal: i32) -> i32;
         }
-    })
+        const SIGKILL: i32 = 9;
+
+        // NOTE: `child` is the leader of its process group
+        kill(-(child.id() as i32), SIGKILL);
+    }
+    let _ = child.kill();
+}
+
+/// Reads the output of a command in the background
+struct OutputReader {
+    buffer: Arc<Mutex<Vec<u8>>>,
+    /// This channel is closed when the end of the output was reached
+    done: mpsc::Receiver<()>,
+}
+impl OutputReader {
+    fn new<R: std::io::Read + Send + 'static>(mut input: R) -> Self {
+        let buffer = Arc::new(Mutex::new(vec![]));
+        let (sender, done) = mpsc::channel();
+        let output = buffer.clone();
+        std::thread::spawn(move || {
+            let _sender = sender;
+            let mut chunk = [0u8; 8192];
+            loop {
+                match input.read(&mut chunk) {
+                    Ok(0) => break,
+                    Ok(len) => output.lock().extend_from_slice(&chunk[..len]),
+                    Err(err) if err.kind() == std::io::ErrorKind::Interrupted => continue,
+                    Err(_) => break,
+                }
+            }
+        });
+        Self { buffer, done }
+    }
+
+    /// Wait for the end of the output, returns false if `deadline` is reached first
+    fn wait_until(&mut self, deadline: Option<Instant>) -> bool {
+        let result = match deadline {
+            None => return self.done.recv().is_err(),
+            Some(deadline) => self
+                .done
+                .recv_timeout(deadline.saturating_duration_since(Instant::now())),
+        };
+        result != Err(mpsc::RecvTimeoutError::Timeout)
+    }
+
+    fn take(self) -> Vec<u8> {
+        core::mem::take(&mut *self.buffer.lock())
+    }
 }
-- 
2.43.0


From 64ccec4142adfb06318a8c3c73f5ae7575088074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:48 +0000
Subject: [PATCH 42/79] fix: a test file without an extension must not panic

---
 lit/src/formats/sh/mod.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/lit/src/formats/sh/mod.rs b/lit/src/formats/sh/mod.rs
index ef80b00..ab72e08 100644
--- a/lit/src/formats/sh/mod.rs
+++ b/lit/src/formats/sh/mod.rs
@@ -99,17 +99,16 @@ impl TestFormat for ShTest {
         let test_dir = test.path.parent().unwrap_or_else(|| Path::new(""));
         // Generate a temporary directory for this test, relative to the suite working directory
         let test_temp_dir = test.suite.working_dir().join(test_dir);
-        let test_name = test_filename.to_str().unwrap();
+        let test_name = test_filename.to_string_lossy();
         let temp = std::fs::create_dir_all(&test_temp_dir)
-            .and_then(|_| tempdir::TempDir::new_in(&test_temp_dir, test_name))
+            .and_then(|_| tempdir::TempDir::new_in(&test_temp_dir, &test_name))
             .expect("failed to create temporary directory");
         // Generate a temporary filename for this test, by appending .tmp to the source filename
         let temp_dir = temp.path();
         let base_temp_file = temp_dir.join(test_filename);
-        let temp_file = base_temp_file.with_extension(format!(
-            "{}.tmp",
-            base_temp_file.extension().unwrap().to_str().unwrap()
-        ));
+        let mut temp_file = base_temp_file.into_os_string();
+        temp_file.push(".tmp");
+        let temp_file = std::path::PathBuf::from(temp_file);
 
         // Construct substitutions
         let mut substitutions = ScopedSubstitutionSet::new(&test.config.substitutions);
-- 
2.43.0


From 6dcc8b3f1ff44325afafbb2e136e940b8db72016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:49 +0000
Subject: [PATCH 43/79] fix: an invalid test must be reported as unresolved,
 not abort the run

---
 lit/src/formats/sh/mod.rs | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/lit/src/formats/sh/mod.rs b/lit/src/formats/sh/mod.rs
index ab72e08..886e6c8 100644
--- a/lit/src/formats/sh/mod.rs
+++ b/lit/src/formats/sh/mod.rs
@@ -6,7 +6,7 @@ pub use self::script::{InvalidTestScriptError, TestScript};
 use std::path::Path;
 
 use litcheck::{
-    diagnostics::{DiagResult, IntoDiagnostic, WrapErr},
+    diagnostics::{DiagResult, IntoDiagnostic, Report, WrapErr},
     reporting::PrintDiagnostic,
     Input,
 };
@@ -62,16 +62,17 @@ impl TestFormat for ShTest {
     }
 
     fn execute(&self, test: &Test, config: &Config) -> DiagResult<TestResult> {
-        let script_source = Input::from(test.source_path())
+        let script_source = match Input::from(test.source_path())
             .into_source(false, config.source_manager())
             .into_diagnostic()
-            .wrap_err("failed to read test file")?;
+            .wrap_err("failed to read test file")
+        {
+            Ok(source) => source,
+            Err(err) => return Ok(unresolved(err)),
+        };
         let mut script = match TestScript::parse(script_source.clone()) {
             Ok(script) => script,
-            Err(err) => {
-                let buf = format!("{}", PrintDiagnostic::new(err));
-                return Ok(TestResult::new(TestStatus::Unresolved).with_stderr(buf.into_bytes()));
-            }
+            Err(err) => return Ok(unresolved(err)),
         };
 
         log::trace!(target: "lit:shtest", "compiled test script (no substitutions): {script:#?}");
@@ -138,9 +139,9 @@ impl TestFormat for ShTest {
             ),
         ]);
         substitutions.insert("%%", "%");
-        script
-            .apply_substitutions(&mut substitutions)
-            .map_err(|err| err.with_source_code(script_source.clone()))?;
+        if let Err(err) = script.apply_substitutions(&mut substitutions) {
+            return Ok(unresolved(err.with_source_code(script_source)));
+        }
 
         log::trace!(target: "lit:shtest", "compiled test script and applied substitutions: {script:#?}");
 
@@ -170,3 +171,9 @@ impl TestFormat for ShTest {
         Ok(result)
     }
 }
+
+/// The result of a test which is not valid, this must not affect any other test
+fn unresolved(err: Report) -> TestResult {
+    let buf = format!("{}", PrintDiagnostic::new(err));
+    TestResult::new(TestStatus::Unresolved).with_stderr(buf.into_bytes())
+}
-- 
2.43.0


From 7f03a37b34b4c1684bdfb3d2bbdc33d92ad8be9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:08 +0000
Subject: [PATCH 44/79] fix: a command which cannot be quoted for the shell
 must not panic

---
 lit/src/formats/sh/engine.rs | 10 ++++++----
 lit/src/formats/sh/mod.rs    |  6 ++++--
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/lit/src/formats/sh/engine.rs b/lit/src/formats/sh/engine.rs
index 6728e6d..28a6094 100644
--- a/lit/src/formats/sh/engine.rs
+++ b/lit/src/formats/sh/engine.rs
@@ -44,7 +44,7 @@ fn run_once(
     lit: &Config,
     config: &ShTest,
 ) -> DiagResult<TestResult> {
-    let script_bytes = write_script(script, config.pipefail);
+    let script_bytes = write_script(script, config.pipefail)?;
     let mut command = crate::utils::ShellCommand::new(config.shell());
     command
         .current_dir(test.suite.working_dir())
@@ -60,7 +60,7 @@ fn run_once(
     ))
 }
 
-fn write_script(script: &TestScript, pipefail: bool) -> Vec<u8> {
+fn write_script(script: &TestScript, pipefail: bool) -> DiagResult<Vec<u8>> {
     use std::fmt::Write;
 
     let mut buf = String::with_capacity(1024);
@@ -81,7 +81,9 @@ fn write_script(script: &TestScript, pipefail: bool) -> Vec<u8> {
             buf.push_str(" && ");
         }
         buf.push_str("{\n  ");
-        let quoted = shlex::try_quote(&test.command).expect("bad shell command");
+        let quoted = shlex::try_quote(&test.command)
+            .into_diagnostic()
+            .wrap_err("bad shell command")?;
         buf.push_str("{ set +x; } 2>/dev/null && ");
         write!(
             &mut buf,
@@ -96,5 +98,5 @@ fn write_script(script: &TestScript, pipefail: bool) -> Vec<u8> {
     }
     buf.push('\n');
     log::trace!(target: "lit:shtest", "generated shell script:\n{buf}");
-    buf.into_bytes()
+    Ok(buf.into_bytes())
 }
diff --git a/lit/src/formats/sh/mod.rs b/lit/src/formats/sh/mod.rs
index 886e6c8..6ea14f4 100644
--- a/lit/src/formats/sh/mod.rs
+++ b/lit/src/formats/sh/mod.rs
@@ -145,8 +145,10 @@ impl TestFormat for ShTest {
 
         log::trace!(target: "lit:shtest", "compiled test script and applied substitutions: {script:#?}");
 
-        let mut result = engine::run_test(&script, test, config, self)
-            .map_err(|err| err.with_source_code(script_source))?;
+        let mut result = match engine::run_test(&script, test, config, self) {
+            Ok(result) => result,
+            Err(err) => return Ok(unresolved(err.with_source_code(script_source))),
+        };
         let expected_to_fail = if test.xfail_not {
             false
         } else {
-- 
2.43.0


From 9580d9a32c20813bed5a272efd7acf44092c1f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:09 +0000
Subject: [PATCH 45/79] fix: a DEFINE or REDEFINE directive without a value
 must not be ignored

---
 lit/src/formats/sh/script/directives.rs | 7 +++++++
 lit/src/formats/sh/script/parser.rs     | 8 ++++++++
 2 files changed, 15 insertions(+)

diff --git a/lit/src/formats/sh/script/directives.rs b/lit/src/formats/sh/script/directives.rs
index 27dbe61..6c21c28 100644
--- a/lit/src/formats/sh/script/directives.rs
+++ b/lit/src/formats/sh/script/directives.rs
@@ -163,6 +163,13 @@ pub enum InvalidSubstitutionError {
         span: SourceSpan,
         key: String,
     },
+    #[error("missing substitution value")]
+    #[diagnostic(help("expected an '=' between the substitution pattern and its value"))]
+    MissingValue {
+        #[label("'{key}' has no value")]
+        span: SourceSpan,
+        key: String,
+    },
     #[error("invalid REDFINE directive")]
     #[diagnostic()]
     NotDefined {
diff --git a/lit/src/formats/sh/script/parser.rs b/lit/src/formats/sh/script/parser.rs
index 3f09d8a..ee2e5fc 100644
--- a/lit/src/formats/sh/script/parser.rs
+++ b/lit/src/formats/sh/script/parser.rs
@@ -237,6 +237,14 @@ impl<'a> TestScriptParser<'a> {
                     self.errors.push(err.into());
                 }
             }
+        } else {
+            self.errors.push(
+                InvalidSubstitutionError::MissingValue {
+                    span: line.span(),
+                    key: line.trim().to_string(),
+                }
+                .into(),
+            );
         }
 
         Ok(())
-- 
2.43.0


From a8e1339ac04ad8c886309a26ca8f00f3669c73bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:45 +0000
Subject: [PATCH 46/79] fix: a continued directive must not end with the file,
 nor be cut short by trailing blanks

---
 lit/src/formats/sh/script/parser.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/lit/src/formats/sh/script/parser.rs b/lit/src/formats/sh/script/parser.rs
index ee2e5fc..3ce49d9 100644
--- a/lit/src/formats/sh/script/parser.rs
+++ b/lit/src/formats/sh/script/parser.rs
@@ -99,16 +99,19 @@ impl<'a> TestScriptParser<'a> {
         let mut needs_continuation;
         let rest;
         let mut stripped_eol = directive.span().end().to_usize();
-        if let Some(stripped) = directive.content.strip_suffix('\\') {
-            stripped_eol -= 1;
+        let content = directive.content.trim_end();
+        if let Some(stripped) = content.strip_suffix('\\') {
             needs_continuation = true;
-            rest = stripped;
+            rest = if collapse_whitespace {
+                stripped.trim_end()
+            } else {
+                stripped
+            };
         } else {
             needs_continuation = false;
-            rest = directive.content.trim_end();
-            let num_trimmed_bytes = directive.content.len() - rest.len();
-            stripped_eol -= num_trimmed_bytes;
+            rest = content;
         };
+        stripped_eol -= directive.content.len() - rest.len();
 
         let trimmed = rest.trim_start();
         let start = directive.span().start().to_usize() + (rest.len() - trimmed.len());
@@ -125,6 +128,13 @@ impl<'a> TestScriptParser<'a> {
         while needs_continuation {
             let prev_line = span.clone();
             let Some(line) = self.next_line() else {
+                let source_id = directive.span().source_id();
+                self.errors
+                    .push(TestScriptError::MissingDirectiveContinuation {
+                        span: SourceSpan::at(source_id, self.source.as_str().len() as u32),
+                        prev_line: SourceSpan::from_range_unchecked(source_id, prev_line),
+                        expected: directive.kind,
+                    });
                 break;
             };
             span.end = line.span().end().to_usize();
@@ -159,7 +169,7 @@ impl<'a> TestScriptParser<'a> {
                 }
             };
             let mut rest;
-            if let Some(stripped) = line.strip_suffix('\\') {
+            if let Some(stripped) = line.trim_end().strip_suffix('\\') {
                 needs_continuation = true;
                 if collapse_whitespace {
                     output.push(' ');
-- 
2.43.0


From fbabf187bca379fab433edb5f55779cf74ea40ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:45 +0000
Subject: [PATCH 47/79] fix: the last line of a test script must count even if
 it is not terminated

---
 lit/src/formats/sh/script/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lit/src/formats/sh/script/parser.rs b/lit/src/formats/sh/script/parser.rs
index 3ce49d9..d8e9339 100644
--- a/lit/src/formats/sh/script/parser.rs
+++ b/lit/src/formats/sh/script/parser.rs
@@ -416,7 +416,8 @@ impl<'a> Iterator for Lines<'a> {
             .strip_suffix('\n')
             .map(|line| (1, line))
             .unwrap_or((0, line));
-        self.current_line += stripped;
+        // NOTE: The last line may not be terminated
+        self.current_line += 1;
         let (stripped, line) = line
             .strip_suffix('\r')
             .map(|line| (stripped + 1, line))
-- 
2.43.0


From 6e3f5ea48aa457d5c156e3c7671e4016a159f617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:06 +0000
Subject: [PATCH 48/79] fix: a substitution must insert its value as is,
 including any dollar signs

---
 lit/src/config/substitutions.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lit/src/config/substitutions.rs b/lit/src/config/substitutions.rs
index 5140d09..2b77f53 100644
--- a/lit/src/config/substitutions.rs
+++ b/lit/src/config/substitutions.rs
@@ -130,7 +130,14 @@ impl<'scope> ScopedSubstitutionSet<'scope> {
                     error,
                     pattern: pattern.clone().into_owned(),
                 })?;
-            if let Cow::Owned(replaced) = re.replace_all(&buffer, replacement) {
+            // A replacement can only refer to the capture groups of its pattern, if there are none,
+            // then any `$` in the replacement is just that
+            let replaced = if re.captures_len() == 1 {
+                re.replace_all(&buffer, regex::NoExpand(replacement))
+            } else {
+                re.replace_all(&buffer, replacement)
+            };
+            if let Cow::Owned(replaced) = replaced {
                 buffer = Cow::Owned(replaced);
                 needs_escaping = true;
             }
-- 
2.43.0


From 41a7e1ae4c1d3f55d379731b597e9f3418869603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:43 +0000
Subject: [PATCH 49/79] fix: a substitution defined by a test must be usable,
 and take precedence over others

---
 lit/src/config/substitutions.rs         | 42 +++++++++++++++++++------
 lit/src/formats/sh/script/directives.rs |  8 +++--
 2 files changed, 38 insertions(+), 12 deletions(-)

diff --git a/lit/src/config/substitutions.rs b/lit/src/config/substitutions.rs
index 2b77f53..7514151 100644
--- a/lit/src/config/substitutions.rs
+++ b/lit/src/config/substitutions.rs
@@ -22,18 +22,22 @@ pub struct InvalidSubstitutionPatternError {
 pub struct ScopedSubstitutionSet<'a> {
     parent: &'a SubstitutionSet,
     set: SubstitutionSet,
+    /// Substitutions defined by the test itself, these are applied most recent first, and before
+    /// any other substitution, so that their values can make use of the ones which came before
+    definitions: SubstitutionSet,
 }
 impl<'scope> ScopedSubstitutionSet<'scope> {
     pub fn new(parent: &'scope SubstitutionSet) -> Self {
         Self {
             parent,
             set: SubstitutionSet::default(),
+            definitions: SubstitutionSet::default(),
         }
     }
 
     #[allow(unused)]
     pub fn is_empty(&self) -> bool {
-        self.set.is_empty() && self.parent.is_empty()
+        self.definitions.is_empty() && self.set.is_empty() && self.parent.is_empty()
     }
 
     #[allow(unused)]
@@ -42,7 +46,10 @@ impl<'scope> ScopedSubstitutionSet<'scope> {
         StaticCow<str>: Borrow<Q>,
         Q: Hash + Eq + ?Sized,
     {
-        self.set.get(pattern).or_else(|| self.parent.get(pattern))
+        self.definitions
+            .get(pattern)
+            .or_else(|| self.set.get(pattern))
+            .or_else(|| self.parent.get(pattern))
     }
 
     pub fn contains<Q>(&self, pattern: &Q) -> bool
@@ -50,12 +57,15 @@ impl<'scope> ScopedSubstitutionSet<'scope> {
         StaticCow<str>: Borrow<Q>,
         Q: Hash + Eq + ?Sized,
     {
-        self.set.contains(pattern) || self.parent.contains(pattern)
+        self.definitions.contains(pattern)
+            || self.set.contains(pattern)
+            || self.parent.contains(pattern)
     }
 
     #[inline]
-    pub fn iter(&self) -> impl Iterator<Item = (&StaticCow<str>, &StaticCow<str>)> + '_ {
+    pub fn iter(&self) -> SubstitutionsIter<'_> {
         SubstitutionsIter {
+            definitions: self.definitions.iter().rev(),
             set: &self.set,
             iter: self.parent.iter(),
             filter: true,
@@ -73,11 +83,7 @@ impl<'scope> ScopedSubstitutionSet<'scope> {
             (true, false) => Matches::Exact(pattern),
             (true, true) => Matches::Fuzzy {
                 exact: pattern,
-                keys: SubstitutionsIter {
-                    set: &self.set,
-                    iter: self.parent.iter(),
-                    filter: true,
-                },
+                keys: self.iter(),
             },
         }
     }
@@ -103,6 +109,20 @@ impl<'scope> ScopedSubstitutionSet<'scope> {
             .insert(StaticCow::from(pattern), StaticCow::from(replacement));
     }
 
+    /// Define `pattern` from within a test, or redefine it if it already exists
+    pub fn define<K, V>(&mut self, pattern: K, replacement: V)
+    where
+        StaticCow<str>: From<K>,
+        StaticCow<str>: From<V>,
+    {
+        let pattern = StaticCow::from(pattern);
+        if self.set.contains(&pattern) || self.parent.contains(&pattern) {
+            self.set.insert(pattern, replacement);
+        } else {
+            self.definitions.insert(pattern, replacement);
+        }
+    }
+
     pub fn apply<'a>(
         &self,
         input: Span<&'a str>,
@@ -155,6 +175,7 @@ impl<'scope> ScopedSubstitutionSet<'scope> {
 }
 
 pub struct SubstitutionsIter<'a> {
+    definitions: std::iter::Rev<indexmap::map::Iter<'a, StaticCow<str>, StaticCow<str>>>,
     set: &'a SubstitutionSet,
     iter: indexmap::map::Iter<'a, StaticCow<str>, StaticCow<str>>,
     filter: bool,
@@ -163,6 +184,9 @@ impl<'a> Iterator for SubstitutionsIter<'a> {
     type Item = (&'a StaticCow<str>, &'a StaticCow<str>);
 
     fn next(&mut self) -> Option<Self::Item> {
+        if let Some(definition) = self.definitions.next() {
+            return Some(definition);
+        }
         if self.filter {
             let result = self
                 .iter
diff --git a/lit/src/formats/sh/script/directives.rs b/lit/src/formats/sh/script/directives.rs
index 6c21c28..d01b824 100644
--- a/lit/src/formats/sh/script/directives.rs
+++ b/lit/src/formats/sh/script/directives.rs
@@ -251,9 +251,11 @@ impl Substitution {
         use crate::config::substitutions::Matches;
         use itertools::Itertools;
 
-        match substitutions.find_matching(&self.key) {
+        // The key is not a regular expression, but the patterns of substitutions are
+        let pattern = regex::escape(&self.key);
+        match substitutions.find_matching(&pattern) {
             Matches::Empty if !self.replace => {
-                substitutions.insert(self.key.clone(), self.value.clone());
+                substitutions.define(pattern, self.value.clone());
                 Ok(())
             }
             Matches::Empty => Err(InvalidSubstitutionError::NotDefined {
@@ -261,7 +263,7 @@ impl Substitution {
                 key: self.key.clone(),
             }),
             Matches::Exact(_) if self.replace => {
-                substitutions.insert(self.key.clone(), self.value.clone());
+                substitutions.define(pattern, self.value.clone());
                 Ok(())
             }
             Matches::Exact(_) => Err(InvalidSubstitutionError::AlreadyExists {
-- 
2.43.0


From 633398c52bf18336c73a40aed96896a97d95fae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:32 +0000
Subject: [PATCH 50/79] fix: the configuration and path of a test must be those
 of its own directory

A lit.local.toml applied to the directory given on the command line, or not at
all when the whole suite was searched, and it could not override the default
substitutions. The path, and so the name, of a test was relative to the directory
searched for it rather than to its suite.
---
 lit/src/format.rs                 |   4 +-
 lit/src/formats/executable.rs     |   5 +-
 lit/src/formats/files.rs          | 198 ++++++++++++++++++++++++++++++
 lit/src/formats/mod.rs            |   2 +
 lit/src/formats/sh/mod.rs         |   5 +-
 lit/src/suite/registry/default.rs |  64 ++--------
 6 files changed, 219 insertions(+), 59 deletions(-)
 create mode 100644 lit/src/formats/files.rs

diff --git a/lit/src/format.rs b/lit/src/format.rs
index c1d6631..fecbbbb 100644
--- a/lit/src/format.rs
+++ b/lit/src/format.rs
@@ -4,7 +4,7 @@ use litcheck::diagnostics::DiagResult;
 use serde::Deserialize;
 
 use crate::{
-    test::{DefaultTestRegistry, Test, TestRegistry, TestResult},
+    test::{Test, TestRegistry, TestResult},
     Config,
 };
 
@@ -53,7 +53,7 @@ impl TestFormat for SelectedTestFormat {
 
     fn registry(&self) -> &dyn TestRegistry {
         match self {
-            Self::Default => &DefaultTestRegistry,
+            Self::Default => &crate::formats::FileBasedTestRegistry,
             Self::ShTest(ref format) => format.registry(),
             Self::Executable(ref format) => format.registry(),
         }
diff --git a/lit/src/formats/executable.rs b/lit/src/formats/executable.rs
index 850fb4c..d1854da 100644
--- a/lit/src/formats/executable.rs
+++ b/lit/src/formats/executable.rs
@@ -6,7 +6,8 @@ use serde::Deserialize;
 use crate::{
     config::BooleanExpr,
     format::TestFormat,
-    test::{DefaultTestRegistry, Test, TestRegistry, TestResult, TestStatus},
+    formats::FileBasedTestRegistry,
+    test::{Test, TestRegistry, TestResult, TestStatus},
     Config,
 };
 
@@ -26,7 +27,7 @@ impl TestFormat for ExecutableTest {
 
     #[inline(always)]
     fn registry(&self) -> &dyn TestRegistry {
-        &DefaultTestRegistry
+        &FileBasedTestRegistry
     }
 
     fn execute(&self, test: &Test, config: &Config) -> DiagResult<TestResult> {
diff --git a/lit/src/formats/files.rs b/lit/src/formats/files.rs
new file mode 100644
index 0000000..178d279
--- /dev/null
+++ b/lit/src/formats/files.rs
@@ -0,0 +1,198 @@
+use std::{collections::BTreeMap, path::Path, sync::Arc};
+
+use litcheck::{
+    diagnostics::{DiagResult, IntoDiagnostic},
+    fs,
+};
+
+use crate::{
+    suite::{TestSuite, TestSuiteRegistry},
+    test::{Test, TestConfig, TestList, TestRegistry},
+    Config,
+};
+
+/// The [FileBasedTestRegistry] is used to locate tests for the builtin test formats.
+///
+/// It has the following behavior:
+///
+/// * Tests are discovered by traversing the contents of the test suite's `source_dir`, using the
+///   patterns in the [TestSuite] `patterns` field to determine if a file is a valid test
+/// * Tests are then selected/rejected based on the `filter`/`filter_out` fields of [Config], if
+///   unset, the default is to select all tests.
+/// * Hidden files are ignored
+/// * The configuration of each test is that of the [TestSuite], as overridden by each of the
+///   `lit.local.toml` from the `source_dir` of the suite to the directory of the test
+pub struct FileBasedTestRegistry;
+
+impl TestRegistry for FileBasedTestRegistry {
+    fn all(
+        &self,
+        suite: Arc<TestSuite>,
+        config: &Config,
+        suites: &mut dyn TestSuiteRegistry,
+    ) -> DiagResult<TestList> {
+        log::debug!(target: "lit:test:registry", "finding all tests for suite '{}'", suite.name());
+        let source_dir = suite.source_dir();
+        let test_config = config_in_directory(source_dir, &suite.config, config)?;
+        get_file_based_tests(source_dir, suite.clone(), config, test_config, suites)
+    }
+
+    fn find(
+        &self,
+        path_in_suite: &Path,
+        suite: Arc<TestSuite>,
+        config: &Config,
+        test_config: Arc<TestConfig>,
+        suites: &mut dyn TestSuiteRegistry,
+    ) -> DiagResult<TestList> {
+        log::debug!(target: "lit:test:registry", "finding tests for suite '{}' in {}", suite.name(), path_in_suite.display());
+        let source_dir = suite.source_dir();
+        let absolute_path = source_dir.join(path_in_suite);
+        if absolute_path.is_dir() {
+            return get_file_based_tests(&absolute_path, suite, config, test_config, suites);
+        }
+        log::debug!(
+            target: "lit:test:registry",
+            "checking if {} is a valid test file using file-based registry",
+            absolute_path.display()
+        );
+
+        let mut tests = TestList::default();
+        if is_file_based_test(&absolute_path, &suite, &test_config) {
+            log::debug!(
+                target: "lit:test:registry",
+                "{} is a valid test, adding it to registry",
+                absolute_path.display()
+            );
+            tests.push_back(Arc::new(Test::new(
+                path_in_suite.to_path_buf(),
+                suite,
+                test_config,
+            )));
+        }
+        Ok(tests)
+    }
+}
+
+/// Get all of the file-based tests for `suite` and `config`, starting from `search_path`, to which
+/// `test_config` applies, unless overridden by local configuration further down.
+fn get_file_based_tests(
+    search_path: &Path,
+    suite: Arc<TestSuite>,
+    config: &Config,
+    test_config: Arc<TestConfig>,
+    suites: &mut dyn TestSuiteRegistry,
+) -> DiagResult<TestList> {
+    debug_assert!(search_path.is_absolute());
+
+    log::debug!(
+        target: "lit:test:registry",
+        "searching for tests in {} using file-based registry",
+        search_path.display()
+    );
+
+    let mut nested = Vec::new();
+    let searcher = fs::Searcher::<_>::new(search_path, true, |entry| {
+        if entry.file_type().is_dir() {
+            let path = entry.path();
+            if path == search_path || path == suite.source_dir() {
+                return true;
+            }
+            // Do not recurse into directories which contain a `lit.suite.toml`
+            if entry
+                .path()
+                .join("lit.suite.toml")
+                .try_exists()
+                .is_ok_and(|exists| exists)
+            {
+                nested.push(entry.path().to_path_buf());
+                return false;
+            }
+        }
+        true
+    });
+
+    // Collect tests from search results
+    let mut tests = TestList::default();
+    // The configuration which applies to each of the directories visited
+    let mut configs = BTreeMap::from([(search_path.to_path_buf(), test_config)]);
+    for result in searcher.into_walker() {
+        let test_entry = result.into_diagnostic()?;
+        let test_path = test_entry.path();
+        if test_path == search_path {
+            continue;
+        }
+        // A directory is always visited before its contents
+        let test_config = &configs[test_path.parent().unwrap()];
+        if test_entry.file_type().is_dir() {
+            let test_config = config_in_directory(test_path, test_config, config)?;
+            configs.insert(test_path.to_path_buf(), test_config);
+            continue;
+        }
+        log::trace!(target: "lit:test:registry", "checking if file is valid test: {}", test_path.display());
+        if !is_file_based_test(test_path, &suite, test_config) {
+            continue;
+        }
+        log::trace!(target: "lit:test:registry", "found test file: {}", test_path.display());
+        let relative_path = test_path
+            .strip_prefix(suite.source_dir())
+            .expect("expected path relative to the source directory of the suite");
+        tests.push_back(Arc::new(Test::new(
+            relative_path.to_path_buf(),
+            suite.clone(),
+            test_config.clone(),
+        )));
+    }
+
+    // Visit any nested suites that were found
+    for nested in nested {
+        if nested == search_path || nested == suite.source_dir() {
+            log::trace!(target: "lit:test:registry", "ignoring nested path {}", nested.display());
+            continue;
+        }
+        suites.load_from_path(&nested, config)?;
+    }
+
+    Ok(tests)
+}
+
+/// Get the configuration which applies to the tests in `dir`, given the one which applies to its
+/// parent directory, i.e. `parent`, as overridden by the `lit.local.toml` in `dir`, if there is one.
+pub fn config_in_directory(
+    dir: &Path,
+    parent: &Arc<TestConfig>,
+    config: &Config,
+) -> DiagResult<Arc<TestConfig>> {
+    let path = dir.join("lit.local.toml");
+    if !path.is_file() {
+        return Ok(parent.clone());
+    }
+    let mut local = TestConfig::parse(path, config)?;
+    local.inherit(parent);
+    Ok(Arc::from(local))
+}
+
+/// Returns true if `path` matches the criteria for file-based tests belonging to `suite`
+fn is_file_based_test(path: &Path, suite: &TestSuite, config: &TestConfig) -> bool {
+    let is_hidden = path
+        .file_name()
+        .map(|name| name.as_encoded_bytes().starts_with(b"."))
+        .unwrap_or(false);
+
+    if is_hidden || !path.is_file() {
+        return false;
+    }
+
+    let path_in_suite = path.strip_prefix(suite.source_dir()).unwrap_or(path);
+    let is_match = config
+        .patterns
+        .iter()
+        .any(|p| p.matches_path(path_in_suite));
+
+    if is_match && !config.exclude.is_empty() {
+        // If we have exclusion patterns configured, reject paths that match any of them
+        !config.exclude.iter().any(|p| p.matches_path(path_in_suite))
+    } else {
+        is_match
+    }
+}
diff --git a/lit/src/formats/mod.rs b/lit/src/formats/mod.rs
index 884321e..c9a02e5 100644
--- a/lit/src/formats/mod.rs
+++ b/lit/src/formats/mod.rs
@@ -1,5 +1,7 @@
 mod executable;
+mod files;
 mod sh;
 
 pub use self::executable::ExecutableTest;
+pub use self::files::{config_in_directory, FileBasedTestRegistry};
 pub use self::sh::{InvalidTestScriptError, ShTest};
diff --git a/lit/src/formats/sh/mod.rs b/lit/src/formats/sh/mod.rs
index 6ea14f4..966ad92 100644
--- a/lit/src/formats/sh/mod.rs
+++ b/lit/src/formats/sh/mod.rs
@@ -15,7 +15,8 @@ use serde::Deserialize;
 use crate::{
     config::{ScopedSubstitutionSet, SubstitutionSet},
     format::TestFormat,
-    test::{DefaultTestRegistry, Test, TestRegistry, TestResult, TestStatus},
+    formats::FileBasedTestRegistry,
+    test::{Test, TestRegistry, TestResult, TestStatus},
     Config,
 };
 
@@ -58,7 +59,7 @@ impl TestFormat for ShTest {
 
     #[inline(always)]
     fn registry(&self) -> &dyn TestRegistry {
-        &DefaultTestRegistry
+        &FileBasedTestRegistry
     }
 
     fn execute(&self, test: &Test, config: &Config) -> DiagResult<TestResult> {
diff --git a/lit/src/suite/registry/default.rs b/lit/src/suite/registry/default.rs
index 3a82aab..a5bc13c 100644
--- a/lit/src/suite/registry/default.rs
+++ b/lit/src/suite/registry/default.rs
@@ -7,6 +7,7 @@ use litcheck::{
 
 use crate::{
     format::TestFormat,
+    formats::config_in_directory,
     suite::{TestSuite, TestSuiteKey, TestSuiteSet},
     test::{Test, TestConfig, TestList},
     Config, LitError,
@@ -24,7 +25,6 @@ pub struct DefaultTestSuiteRegistry {
     ///
     /// Using this, we can easily find the nearest test suite for a given path
     config_cache: PathPrefixTree<TestSuiteKey>,
-    local_config_cache: PathPrefixTree<Arc<TestConfig>>,
 }
 
 impl DefaultTestSuiteRegistry {
@@ -76,8 +76,7 @@ impl DefaultTestSuiteRegistry {
                 log::debug!(target: "lit:suite:registry", "searching {} for tests..", path.display());
                 // Look for local configuration that applies to these tests,
                 // using the suite config if no local config is present
-                let local_config =
-                    get_local_config(&suite, path, config, &mut self.local_config_cache)?;
+                let local_config = get_local_config(&suite, path, config)?;
                 let found = local_config.format.registry().find(
                     path,
                     suite.clone(),
@@ -222,7 +221,6 @@ impl rayon::iter::IntoParallelIterator for DefaultTestSuiteRegistry {
 }
 impl DefaultTestSuiteRegistry {
     fn clear(&mut self) {
-        self.local_config_cache.clear();
         self.config_cache.clear();
         self.tests_by_suite.clear();
         self.suites.clear();
@@ -375,8 +373,7 @@ impl DefaultTestSuiteRegistry {
                     log::debug!(target: "lit:suite:registry", "searching {} for tests..", path.display());
                     // Look for local configuration that applies to these tests,
                     // using the suite config if no local config is present
-                    let local_config =
-                        get_local_config(&suite, path, config, &mut self.local_config_cache)?;
+                    let local_config = get_local_config(&suite, path, config)?;
                     let found = local_config.format.registry().find(
                         path,
                         suite.clone(),
@@ -397,59 +394,20 @@ impl DefaultTestSuiteRegistry {
      */
 }
 
+/// Get the configuration for `path_in_suite`, i.e. that of `suite`, as overridden by each of the
+/// `lit.local.toml` from the source directory of the suite to the directory of `path_in_suite`.
 fn get_local_config(
     suite: &TestSuite,
     path_in_suite: &Path,
     lit: &Config,
-    local_config_cache: &mut PathPrefixTree<Arc<TestConfig>>,
 ) -> DiagResult<Arc<TestConfig>> {
-    let source_dir = suite.source_dir();
-    let path = source_dir.join(path_in_suite);
-    let path = if path.is_dir() {
-        path
-    } else {
-        path.parent().unwrap().to_path_buf()
-    };
-
-    // If we already have a cache entry for the given path, we're done
-    if let Some(config) = local_config_cache.get(&path) {
-        return Ok(config.clone());
-    }
-
-    // Otherwise, we are going to reify a config for each level in the directory tree
-    // between the nearest ancestor for which we have already computed a configuration -
-    // using the suite config and source directory as a fallback - and `path_in_suite`.
-    // We start at that point and descend to `path_in_suite`, computing the effective
-    // configuration at each step if we encounter a `lit.local.toml` at that level.
-    let (mut config, search_root_in_suite) =
-        if let Some(entry) = local_config_cache.nearest_ancestor(&path) {
-            (
-                entry.data.clone(),
-                entry.path.strip_prefix(source_dir).unwrap().to_path_buf(),
-            )
-        } else {
-            (suite.config.clone(), path_in_suite.to_path_buf())
-        };
-
-    let mut path = source_dir.to_path_buf();
-    for component in search_root_in_suite.components() {
-        path.push(AsRef::<Path>::as_ref(&component));
-
-        let mut found =
-            fs::search_directory(&path, false, |entry| entry.file_name() == "lit.local.toml");
-        if let Some(entry) = found.next() {
-            let entry = entry.into_diagnostic()?;
-            let mut cfg = TestConfig::parse(entry.path(), lit)?;
-            cfg.inherit(&config);
-            cfg.set_default_substitutions(lit, suite, &path);
-            cfg.set_default_features(lit);
-            let cfg = Arc::<TestConfig>::from(cfg);
-            local_config_cache.insert(&path, cfg.clone());
-            config = cfg;
+    let mut path = suite.source_dir().to_path_buf();
+    let mut config = config_in_directory(&path, &suite.config, lit)?;
+    for component in path_in_suite.components() {
+        path.push(component);
+        if path.is_dir() {
+            config = config_in_directory(&path, &config, lit)?;
         }
     }
-
-    // Return the constructed configuration, or fallback to cloning the suite config
-    local_config_cache.insert(&path, config.clone());
     Ok(config)
 }
-- 
2.43.0


From e5f90743655d6f67f37f0be70edc7880f297c9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:12 +0000
Subject: [PATCH 51/79] fix: run each test with the format of its own
 configuration

---
 litcheck/src/commands/lit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/litcheck/src/commands/lit.rs b/litcheck/src/commands/lit.rs
index 69e1035..5d9f727 100644
--- a/litcheck/src/commands/lit.rs
+++ b/litcheck/src/commands/lit.rs
@@ -385,7 +385,7 @@ impl TestRunner {
     pub fn run(&mut self, test: Arc<Test>, config: &Config) -> DiagResult<()> {
         self.progress.set_message(test.name().to_string());
 
-        let result = test.suite.config.format.execute(&test, config)?;
+        let result = test.config.format.execute(&test, config)?;
         if result.is_failure() {
             self.progress.suspend(|| {
                 println!(
-- 
2.43.0


From 2b1bc21000228d547f0d49fd07902c589aa72c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:23 +0000
Subject: [PATCH 52/79] fix: the tests selected must be those of the inputs
 given, whichever their order

The suite of an input was the nearest one loaded already rather than the nearest
one, an input naming a whole suite did not add to the other inputs of that suite,
nested directories were searched twice, and a suite whose source directory does
not contain its configuration panicked.
---
 lit/src/suite/registry/default.rs | 118 +++++++++++-------------------
 1 file changed, 43 insertions(+), 75 deletions(-)

diff --git a/lit/src/suite/registry/default.rs b/lit/src/suite/registry/default.rs
index a5bc13c..69ccecd 100644
--- a/lit/src/suite/registry/default.rs
+++ b/lit/src/suite/registry/default.rs
@@ -2,7 +2,7 @@ use std::{collections::BTreeMap, path::Path, sync::Arc};
 
 use litcheck::{
     diagnostics::{DiagResult, IntoDiagnostic, Report, WrapErr},
-    fs::{self, PathPrefixTree},
+    fs::PathPrefixTree,
 };
 
 use crate::{
@@ -47,11 +47,8 @@ impl DefaultTestSuiteRegistry {
         }
 
         // If we have no specific selections, select everything
-        let search_paths = {
-            let mut lock = suite.search_paths();
-            core::mem::take(&mut *lock)
-        };
-        if search_paths.is_empty() {
+        let search_paths = suite.search_paths().clone();
+        if search_paths.is_empty() || search_paths.contains(Path::new("")) {
             log::debug!(
                 target: "lit:suite:registry",
                 "no search paths given, searching entire suite source directory for tests"
@@ -73,6 +70,10 @@ impl DefaultTestSuiteRegistry {
                 search_paths.len()
             );
             for path in search_paths.iter() {
+                // Do not search the same path more than once
+                if path.ancestors().skip(1).any(|p| search_paths.contains(p)) {
+                    continue;
+                }
                 log::debug!(target: "lit:suite:registry", "searching {} for tests..", path.display());
                 // Look for local configuration that applies to these tests,
                 // using the suite config if no local config is present
@@ -92,8 +93,6 @@ impl DefaultTestSuiteRegistry {
             }
         }
 
-        *suite.search_paths() = search_paths;
-
         log::debug!(target: "lit:suite:registry", "loading complete!");
 
         Ok(())
@@ -138,17 +137,19 @@ impl TestSuiteRegistry for DefaultTestSuiteRegistry {
 
         if let Some(suite) = self.find_nearest_suite(&input_path, search_root, config)? {
             log::debug!("resolved input {} to {}", input.display(), suite.id());
-            let suite_source_dir = suite.source_dir();
-            let filter_path = input_path.strip_prefix(suite_source_dir).expect(
-                "test suite source directory should have been an ancestor of the input path",
+            // If the input path is not in the source directory, then it contains the
+            // configuration of the suite, and thus the entire suite is selected.
+            let filter_path = input_path
+                .strip_prefix(suite.source_dir())
+                .unwrap_or(Path::new(""));
+            log::debug!(
+                "filtering suite '{}' by path: '{}'",
+                suite.id(),
+                filter_path.display()
             );
-            if filter_path != Path::new("") {
-                log::debug!(
-                    "filtering suite '{}' by path: '{}'",
-                    suite.id(),
-                    filter_path.display()
-                );
-                suite.filter_by_path(filter_path);
+            let is_new = suite.search_paths().insert(filter_path.to_path_buf());
+            if !is_new {
+                return Ok(());
             }
             self.load_tests_for_suite(suite, &cwd, config)?;
         } else {
@@ -241,80 +242,47 @@ impl DefaultTestSuiteRegistry {
     ) -> DiagResult<Option<Arc<TestSuite>>> {
         let path = path.as_ref();
         log::debug!(target: "lit:suite:registry", "finding nearest suite to {}", path.display());
-        // If the path is a directory, we need to check the cache for an exact
-        // match, and failing that, check the directory itself for a lit.suite.toml.
-        // If successful, we're done; otherwise, we fallback to the same search
-        // used for file paths
-        if path.is_dir() {
-            if let Some(cache_key) = self.config_cache.get(path) {
-                log::debug!(target: "lit:suite:registry", "found in cache: '{}'", cache_key.name());
-                return Ok(Some(self.get(cache_key)));
-            }
-
-            let mut found =
-                fs::search_directory(path, false, |entry| entry.file_name() == "lit.suite.toml");
-
-            if let Some(entry) = found.next() {
-                let entry = entry
-                    .into_diagnostic()
-                    .wrap_err("found test suite config, but it could not be read")?;
-                log::debug!(target: "lit:suite:registry", "found lit.suite.toml at {}", entry.path().display());
-                return self.load_without_cache(entry.path(), config).map(Some);
-            }
-        }
-
-        self.find_nearest_suite_containing(path, cwd, config)
-    }
-
-    fn find_nearest_suite_containing(
-        &mut self,
-        path: &Path,
-        cwd: &Path,
-        config: &Config,
-    ) -> DiagResult<Option<Arc<TestSuite>>> {
-        log::debug!(target: "lit:suite:registry", "finding nearest suite containing {}", path.display());
-        // If `dir` is not explicitly represented in `config_paths`, then it hasn't
-        // been visited to check for a `lit.suite.toml` file yet, and we can't rely
-        // on the nearest ancestor to be correct. Otherwise, the nearest ancestor
-        // refers to the nearest path in `config_paths`
-        if let Some(cache_key) = self.config_cache.nearest_ancestor(path) {
-            log::debug!(target: "lit:suite:registry", "found nearest ancestor suite in cache: '{}'", cache_key.data.name());
-            return Ok(Some(self.get(cache_key.into_value())));
-        }
-
         let dir = if path.is_dir() {
             path
         } else {
             path.parent().expect("expected canonical file path")
         };
 
-        // Search the ancestors of `path` until we find a `lit.suite.toml` whose source
+        // Search `dir`, and then its ancestors, until we find a `lit.suite.toml` whose source
         // directory contains `path`.
-        log::debug!(target: "lit:suite:registry", "searching ancestors of {}", dir.display());
         for ancestor in dir.ancestors() {
-            let is_cwd = ancestor == cwd;
-            let mut found = fs::search_directory(ancestor, false, |entry| {
-                entry.file_name() == "lit.suite.toml"
-            });
-            if let Some(entry) = found.next() {
-                let entry = entry.into_diagnostic()?;
-                log::debug!(target: "lit:suite:registry", "found possible ancestor at {}", entry.path().display());
-                let suite = self.load_without_cache(entry.path(), config)?;
-                // If the test suite source directory contains `dir`, we've found a match;
-                // otherwise, we must continue searching upwards.
-                if dir.starts_with(suite.source_dir()) {
-                    log::debug!(target: "lit:suite:registry", "ancestor is a match!");
+            let config_path = ancestor.join("lit.suite.toml");
+            let suite = if let Some(cache_key) = self.config_cache.get(&config_path) {
+                log::debug!(target: "lit:suite:registry", "found in cache: '{}'", cache_key.name());
+                Some(self.get(cache_key))
+            } else if config_path.is_file() {
+                log::debug!(target: "lit:suite:registry", "found lit.suite.toml at {}", config_path.display());
+                Some(self.load_without_cache(&config_path, config)?)
+            } else {
+                None
+            };
+            if let Some(suite) = suite {
+                // If the test suite source directory contains `dir`, or it is the configuration of
+                // the suite that was asked for, we've found a match; otherwise, we must continue
+                // searching upwards.
+                if ancestor == path || dir.starts_with(suite.source_dir()) {
                     return Ok(Some(suite));
                 }
             }
 
+            // The source directory of a suite may be elsewhere than its configuration
+            if let Some(cache_key) = self.config_cache.get(ancestor) {
+                log::debug!(target: "lit:suite:registry", "found in cache: '{}'", cache_key.name());
+                return Ok(Some(self.get(cache_key)));
+            }
+
             // If we've reached the current working directory, ascend no further
-            if is_cwd {
+            if ancestor == cwd {
                 log::debug!(target: "lit:suite:registry", "terminating search as we've reached the current working directory");
                 break;
             }
         }
-        log::debug!(target: "lit:suite:registry", "no matching ancestor found");
+        log::debug!(target: "lit:suite:registry", "no matching suite found");
 
         Ok(None)
     }
-- 
2.43.0


From db0e6cbeeca0a4a6a9d6cd00ba17a0166ce7384b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:55 +0000
Subject: [PATCH 53/79] fix: a relative line reference with a huge offset must
 not overflow

---
 lit/src/formats/sh/script/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lit/src/formats/sh/script/parser.rs b/lit/src/formats/sh/script/parser.rs
index d8e9339..46fbd5b 100644
--- a/lit/src/formats/sh/script/parser.rs
+++ b/lit/src/formats/sh/script/parser.rs
@@ -468,7 +468,7 @@ fn push_str_replacing_line_numbers<'a>(
                 let line = if is_negative {
                     current_line.saturating_sub(offset)
                 } else {
-                    current_line + offset
+                    current_line.saturating_add(offset)
                 };
                 buf.push_format(format_args!("{line}")).unwrap();
             } else {
-- 
2.43.0


From 4d5f79ed867d28d9097ea9d2a799c5c0e86dcc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:22 +0000
Subject: [PATCH 54/79] fix: line endings are canonicalized to LF by the
 filecheck command

The documentation of --strict-whitespace says that newlines are always
canonicalized to LF, but carriage returns were part of the input (so `$`
did not match before them, and captures included them) and of the patterns.
---
 litcheck/src/commands/filecheck.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/litcheck/src/commands/filecheck.rs b/litcheck/src/commands/filecheck.rs
index fda1989..edca3f6 100644
--- a/litcheck/src/commands/filecheck.rs
+++ b/litcheck/src/commands/filecheck.rs
@@ -1,10 +1,10 @@
-use std::process::ExitCode;
+use std::{process::ExitCode, sync::Arc};
 
 use clap::{CommandFactory, FromArgMatches, Parser, parser::ValueSource};
 use filecheck::{Config, Test};
 use litcheck::{
     Input,
-    diagnostics::{DiagResult, IntoDiagnostic},
+    diagnostics::{DiagResult, IntoDiagnostic, SourceFile},
 };
 
 use super::Command;
@@ -59,19 +59,23 @@ impl Command for FileCheck {
             ..Default::default()
         };
 
-        let match_file = self
-            .match_file
-            .into_source(true, config.source_manager())
-            .into_diagnostic()?;
-        let input_file = self
-            .input_file
-            .into_source(true, config.source_manager())
-            .into_diagnostic()?;
+        let match_file = load_source(&self.match_file, &config)?;
+        let input_file = load_source(&self.input_file, &config)?;
         let mut test = Test::new(match_file, &config);
         test.verify(input_file).map(|_| ExitCode::SUCCESS)
     }
 }
 
+/// Load `input`, with its line endings canonicalized to LF
+fn load_source(input: &Input, config: &Config) -> DiagResult<Arc<SourceFile>> {
+    let name = input.filename();
+    let content = input
+        .read_to_string(true)
+        .into_diagnostic()?
+        .replace("\r\n", "\n");
+    Ok(config.source_manager().load(name.language(), name, content))
+}
+
 /// Update `options` with the options which are present in `args`
 ///
 /// All of the other options keep the value they have, i.e. they are not reset to their default.
-- 
2.43.0


From d01263faed17e699bdfc53607bff0d003d1cb77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:53 +0000
Subject: [PATCH 55/79] fix: the test that aborts a run is part of its report

---
 litcheck/src/commands/lit.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/litcheck/src/commands/lit.rs b/litcheck/src/commands/lit.rs
index 5d9f727..6860b60 100644
--- a/litcheck/src/commands/lit.rs
+++ b/litcheck/src/commands/lit.rs
@@ -385,7 +385,14 @@ impl TestRunner {
     pub fn run(&mut self, test: Arc<Test>, config: &Config) -> DiagResult<()> {
         self.progress.set_message(test.name().to_string());
 
-        let result = test.config.format.execute(&test, config)?;
+        let result = match test.config.format.execute(&test, config) {
+            Ok(result) => result,
+            Err(err) => {
+                // This aborts the run, but the test still has to be accounted for
+                self.report(test, TestResult::new(TestStatus::Unresolved))?;
+                return Err(err);
+            }
+        };
         if result.is_failure() {
             self.progress.suspend(|| {
                 println!(
-- 
2.43.0


From 0f42cfc0f1125a62a8b0a35a549d6fdb6685ddfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:36 +0000
Subject: [PATCH 56/79] fix: the filters of show-tests and show-suites must
 have an effect

---
 litcheck/src/commands/lit.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/litcheck/src/commands/lit.rs b/litcheck/src/commands/lit.rs
index 6860b60..2a5a756 100644
--- a/litcheck/src/commands/lit.rs
+++ b/litcheck/src/commands/lit.rs
@@ -129,7 +129,7 @@ impl Command for Lit {
         }
 
         if show_suites {
-            self::show_suites(&registry);
+            self::show_suites(&registry, &config);
             return Ok(ExitCode::SUCCESS);
         }
         // If we have no tests, raise an error
@@ -138,7 +138,7 @@ impl Command for Lit {
         }
 
         if show_tests {
-            self::show_tests(&registry);
+            self::show_tests(&registry, &config);
             return Ok(ExitCode::SUCCESS);
         }
 
@@ -147,17 +147,17 @@ impl Command for Lit {
 }
 
 /// Show the available test suites, and then exit
-pub fn show_suites<R>(registry: &R)
+pub fn show_suites<R>(registry: &R, config: &Config)
 where
     R: TestSuiteRegistryExt,
 {
     println!("-- Test Suites --");
     for suite in registry.suites() {
-        println!(
-            "  * {} - {} tests",
-            suite.name(),
-            registry.size_of_suite(&suite.id())
-        );
+        let num_selected = registry
+            .tests()
+            .filter(|test| test.suite.id() == suite.id() && config.is_selected(test.name()))
+            .count();
+        println!("  * {} - {num_selected} tests", suite.name());
         println!("    Source Root  : {}", suite.source_dir().display());
         println!("    Exec Root    : {}", suite.working_dir().display());
         println!("    Test Format  : {}", suite.config.format.name());
@@ -187,12 +187,15 @@ where
 }
 
 /// Show the available tests, and then exit
-pub fn show_tests<R>(registry: &R)
+pub fn show_tests<R>(registry: &R, config: &Config)
 where
     R: TestSuiteRegistryExt,
 {
     println!("-- Available Tests --");
-    for test in registry.tests() {
+    for test in registry
+        .tests()
+        .filter(|test| config.is_selected(test.name()))
+    {
         println!(
             "  {}::{} (format={})",
             test.suite.name(),
-- 
2.43.0


From a68528c85b3a1cc918d7cd5772b57b7fcb75cea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:57 +0000
Subject: [PATCH 57/79] fix: lit options may follow the tests, as documented

---
 lit/src/config/mod.rs        | 2 +-
 litcheck/src/commands/lit.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lit/src/config/mod.rs b/lit/src/config/mod.rs
index ec1c494..2ba4bca 100644
--- a/lit/src/config/mod.rs
+++ b/lit/src/config/mod.rs
@@ -91,7 +91,7 @@ impl fmt::Debug for Config {
 #[derive(Debug, Args)]
 pub struct Options {
     /// The test files or directories to search for tests
-    #[arg(value_name = "TESTS", required(true), trailing_var_arg(true))]
+    #[arg(value_name = "TESTS", required(true))]
     pub tests: Vec<String>,
     /// Run `N` tests in parallel
     ///
diff --git a/litcheck/src/commands/lit.rs b/litcheck/src/commands/lit.rs
index 2a5a756..c800432 100644
--- a/litcheck/src/commands/lit.rs
+++ b/litcheck/src/commands/lit.rs
@@ -49,7 +49,7 @@ pub enum Lit {
     #[command(name = "show-suites")]
     Suites {
         /// The test files or directories to search for tests
-        #[arg(value_name = "PATH", required(true), trailing_var_arg(true))]
+        #[arg(value_name = "PATH", required(true))]
         tests: Vec<String>,
         /// Run only those tests whose name matches the given regular expression.
         #[arg(long, env = "LIT_FILTER", help_heading = "Selection Options")]
@@ -63,7 +63,7 @@ pub enum Lit {
     #[command(name = "show-tests")]
     Tests {
         /// The test files or directories to search for tests
-        #[arg(value_name = "PATH", required(true), trailing_var_arg(true))]
+        #[arg(value_name = "PATH", required(true))]
         tests: Vec<String>,
         /// Run only those tests whose name matches the given regular expression.
         #[arg(long, env = "LIT_FILTER", help_heading = "Test Selection")]
-- 
2.43.0


From 4ef8eee77459ee1220b75948b01776c62de33976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:27 +0000
Subject: [PATCH 58/79] fix: running tests is the default command of lit, as
 documented

---
 litcheck/src/commands/lit.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/litcheck/src/commands/lit.rs b/litcheck/src/commands/lit.rs
index c800432..aaca70f 100644
--- a/litcheck/src/commands/lit.rs
+++ b/litcheck/src/commands/lit.rs
@@ -7,7 +7,7 @@ use std::{
     },
 };
 
-use clap::Parser;
+use clap::{Parser, Subcommand};
 use indicatif::{ParallelProgressIterator, ProgressBar, ProgressStyle};
 use lit::{
     Config, DefaultTestSuiteRegistry, LitError, Test, TestFormat, TestResult, TestStatus,
@@ -38,8 +38,20 @@ use super::Command;
 /// summary information on the number of tests which passed or failed. lit will exit with
 /// a non-zero status code if any tests fail.
 #[derive(Debug, Parser)]
-#[command(name = "lit")]
-pub enum Lit {
+#[command(
+    name = "lit",
+    args_conflicts_with_subcommands(true),
+    subcommand_negates_reqs(true)
+)]
+pub struct Lit {
+    #[command(subcommand)]
+    command: Option<LitCommand>,
+    #[command(flatten)]
+    options: lit::Options,
+}
+
+#[derive(Debug, Subcommand)]
+pub enum LitCommand {
     /// Run all discovered test suites
     ///
     /// If no command is given, this is the default
@@ -83,8 +95,8 @@ impl Command for Lit {
         let config;
         let show_suites;
         let show_tests;
-        match self {
-            Self::Run(options) => {
+        match self.command.unwrap_or(LitCommand::Run(self.options)) {
+            LitCommand::Run(options) => {
                 config = Arc::new(lit::Config {
                     options,
                     ..Default::default()
@@ -92,7 +104,7 @@ impl Command for Lit {
                 show_suites = false;
                 show_tests = false;
             }
-            Self::Suites {
+            LitCommand::Suites {
                 tests,
                 filter,
                 filter_out,
@@ -104,7 +116,7 @@ impl Command for Lit {
                 show_suites = true;
                 show_tests = false;
             }
-            Self::Tests {
+            LitCommand::Tests {
                 tests,
                 filter,
                 filter_out,
-- 
2.43.0


From 3c71418336d86b47b67a132ad6945196b9e21d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:39 +0000
Subject: [PATCH 59/79] fix: a PATH configured for tests must not be replaced
 by that of the runner

---
 lit/src/utils.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lit/src/utils.rs b/lit/src/utils.rs
index 2a31685..a8137fe 100644
--- a/lit/src/utils.rs
+++ b/lit/src/utils.rs
@@ -24,7 +24,13 @@ impl ShellCommand {
     }
 
     pub fn paths<S: AsRef<Path>>(&mut self, extra_paths: &[S]) -> DiagResult<&mut Self> {
-        let env_paths = std::env::var_os("PATH").unwrap_or_default();
+        // The search path may have been configured by `envs`
+        let env_paths = self
+            .command
+            .get_envs()
+            .find_map(|(k, v)| v.filter(|_| k == "PATH").map(OsStr::to_os_string))
+            .or_else(|| std::env::var_os("PATH"))
+            .unwrap_or_default();
         let path = std::env::join_paths(
             extra_paths
                 .iter()
-- 
2.43.0


From 68423bdf0755c3cc11d08b10aabfddab8ac48945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:52 +0000
Subject: [PATCH 60/79] fix: tests must not share the standard input of the
 runner

---
 lit/src/utils.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lit/src/utils.rs b/lit/src/utils.rs
index a8137fe..31b3ffb 100644
--- a/lit/src/utils.rs
+++ b/lit/src/utils.rs
@@ -79,6 +79,10 @@ impl ShellCommand {
         self.command
             .stdout(std::process::Stdio::piped())
             .stderr(std::process::Stdio::piped());
+        if self.pipe_stdin.is_none() {
+            // Tests share nothing, in particular not what is left of our own input
+            self.command.stdin(std::process::Stdio::null());
+        }
         #[cfg(unix)]
         if !timeout.is_zero() {
             // Use a separate process group, so that we can stop all of it
-- 
2.43.0


From f0781a06a47a6ea48e0dccb86d3c47b19df155d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:16 +0000
Subject: [PATCH 61/79] fix: the temporary directory of a suite must not depend
 on separators in its name

---
 lit/src/suite/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lit/src/suite/mod.rs b/lit/src/suite/mod.rs
index 6875edc..7d3ce0f 100644
--- a/lit/src/suite/mod.rs
+++ b/lit/src/suite/mod.rs
@@ -173,7 +173,9 @@ impl TestSuite {
         }
 
         if suite.working_dir() == Path::new("") {
-            let temp_dir = tempdir::TempDir::new(suite.name())
+            // The name may be any text, the directory must be within that for temporary files
+            let prefix = suite.name().replace(std::path::is_separator, "-");
+            let temp_dir = tempdir::TempDir::new(&prefix)
                 .into_diagnostic()
                 .wrap_err_with(|| {
                     format!(
-- 
2.43.0


From 646103601bb64a565eb83a75ae7e2917b131054a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:05 +0000
Subject: [PATCH 62/79] fix: only ASCII letters and digits make up a check
 prefix

---
 filecheck/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filecheck/src/lib.rs b/filecheck/src/lib.rs
index c5eb7a6..e97e5ea 100644
--- a/filecheck/src/lib.rs
+++ b/filecheck/src/lib.rs
@@ -408,7 +408,7 @@ fn prefix_value_parser() -> ValueParser {
                 "supplied prefix must start with an ASCII alphabetic character",
             ));
         }
-        if s.contains(|c: char| !c.is_alphanumeric() && c != '_' && c != '-') {
+        if s.contains(|c: char| !c.is_ascii_alphanumeric() && c != '_' && c != '-') {
             return Err(Error::raw(
                 ErrorKind::ValueValidation,
                 "supplied prefix may only contain ASCII alphanumerics, hyphens, or underscores",
-- 
2.43.0


From ad0c50500a0a476689ba530a010cabed9d9e78c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:05 +0000
Subject: [PATCH 63/79] fix: the documented names FileCheck and NOT select the
 tool

---
 litcheck/src/commands/filecheck.rs | 2 +-
 litcheck/src/commands/not.rs       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/litcheck/src/commands/filecheck.rs b/litcheck/src/commands/filecheck.rs
index edca3f6..a319bd5 100644
--- a/litcheck/src/commands/filecheck.rs
+++ b/litcheck/src/commands/filecheck.rs
@@ -10,7 +10,7 @@ use litcheck::{
 use super::Command;
 
 #[derive(Debug, Parser)]
-#[command(name = "filecheck")]
+#[command(name = "filecheck", aliases(["FileCheck", "check"]))]
 pub struct FileCheck {
     /// The path to the file containing patterns, e.g. `CHECK`, to
     /// match against the `input_file`.
diff --git a/litcheck/src/commands/not.rs b/litcheck/src/commands/not.rs
index 86d165e..6d02d87 100644
--- a/litcheck/src/commands/not.rs
+++ b/litcheck/src/commands/not.rs
@@ -19,7 +19,7 @@ use super::Command;
 /// If the program failed to execute for some reason, `not` will
 /// exit with code 127 (not found) or 126 (some other error).
 #[derive(Debug, Parser)]
-#[command(name = "not", arg_required_else_help(true))]
+#[command(name = "not", alias = "NOT", arg_required_else_help(true))]
 pub struct Not {
     /// If set, returns true if the given command crashes, otherwise false
     #[arg(long("crash"), required(false), default_value_t = false)]
-- 
2.43.0


From 965696ba6e0cf0823954844807b678b864a8aa73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:28 +0000
Subject: [PATCH 64/79] fix: excluded patterns with variables or numbers are
 matched as a whole

---
 filecheck/src/pattern/matcher/matchers/all.rs | 28 +++++++++++++++----
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/filecheck/src/pattern/matcher/matchers/all.rs b/filecheck/src/pattern/matcher/matchers/all.rs
index 7b84129..e5ef7ed 100644
--- a/filecheck/src/pattern/matcher/matchers/all.rs
+++ b/filecheck/src/pattern/matcher/matchers/all.rs
@@ -64,7 +64,12 @@ impl<'a> MatchAll<'a> {
             return Self::compile_set(unordered, config);
         }
 
-        unordered
+        Self::compile_patterns(unordered, config)
+    }
+
+    /// Compile a set of patterns, each of which is matched as a whole
+    fn compile_patterns(lines: Vec<CheckLine<'a>>, config: &Config) -> DiagResult<Self> {
+        lines
             .into_iter()
             .map(|line| match line.pattern {
                 CheckPattern::Empty(span) => Err(empty_pattern(span)),
@@ -78,13 +83,24 @@ impl<'a> MatchAll<'a> {
     pub fn compile_set(mut unordered: Vec<CheckLine<'a>>, config: &Config) -> DiagResult<Self> {
         use std::collections::BTreeMap;
 
+        // Compact the patterns as much as possible first
+        for line in unordered.iter_mut() {
+            line.pattern.compact();
+        }
+
+        // A pattern with match/substitution blocks cannot be split: later parts may refer to what
+        // an earlier one captures, where a match starts depends on all of its parts, and the same
+        // text has a different meaning on different lines.
+        if unordered
+            .iter()
+            .any(|line| matches!(line.pattern, CheckPattern::Match(_)))
+        {
+            return Self::compile_patterns(unordered, config);
+        }
+
         let raw_prefixes = unordered
             .iter_mut()
-            .map(|line| {
-                // Compact the patterns as much as possible first
-                line.pattern.compact();
-                line.pattern.pop_prefix()
-            })
+            .map(|line| line.pattern.pop_prefix())
             .collect::<SmallVec<[_; 4]>>();
         let mut unique_prefixes = BTreeMap::<_, usize>::default();
         let mut prefixes = Vec::with_capacity(raw_prefixes.len());
-- 
2.43.0


From 231a0dbf1af5a3079d36feca9229dbf68edbd55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:42 +0000
Subject: [PATCH 65/79] fix: CHECK-DAG matches get their remark with -v

---
 filecheck/src/check/mod.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/filecheck/src/check/mod.rs b/filecheck/src/check/mod.rs
index cab6715..482144a 100644
--- a/filecheck/src/check/mod.rs
+++ b/filecheck/src/check/mod.rs
@@ -475,6 +475,7 @@ pub fn check_group<'section, 'input, 'a: 'input>(
         }
         CheckGroup::Unordered(check_dag) => match check_dag.apply(context) {
             Ok(matches) => {
+                print_unordered_remarks(&matches, context);
                 if let Some(range) = matches.range() {
                     // Whatever follows must match after all of these
                     if matches.is_ok() && range.end > context.cursor().start() {
@@ -499,6 +500,9 @@ pub fn check_group<'section, 'input, 'a: 'input>(
             right,
         } => {
             let initial_result = check_dag.apply(context);
+            if let Ok(left_matches) = &initial_result {
+                print_unordered_remarks(left_matches, context);
+            }
             // The bounding check must match after all of the unordered ones
             if let Ok(left_matches) = &initial_result
                 && left_matches.is_ok()
@@ -727,6 +731,25 @@ pub fn check_group<'section, 'input, 'a: 'input>(
     }
 }
 
+/// Print a remark for each pattern of a CHECK-DAG group which matched, if enabled
+fn print_unordered_remarks<'input, 'a: 'input>(
+    matches: &Matches<'input>,
+    context: &MatchContext<'input, 'a>,
+) {
+    if !context.config.remarks_enabled() {
+        return;
+    }
+    for info in matches
+        .iter()
+        .filter(|m| m.is_ok())
+        .filter_map(|m| m.info.as_ref())
+    {
+        if let Ok(loc) = context.source_manager().file_line_col(info.pattern_span) {
+            eprintln!("{loc}: remark: CHECK-DAG: expected string found in input");
+        }
+    }
+}
+
 #[expect(clippy::result_large_err)]
 fn check_tree<'input, 'a: 'input>(
     tree: &CheckTree<'a>,
-- 
2.43.0


From f6d8eceacf382f878c1ebae4d16ec8b723bf33e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:04 +0000
Subject: [PATCH 66/79] fix: files are read again when loaded again

SourceManagerExt::load_file returned the source file loaded earlier for the
same path, so verifying a file which had changed in the meantime (with
Test::verify_file, Test::from_file or Checker::check and the same Config)
judged its former content.
---
 core/src/diagnostics/source_manager.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/core/src/diagnostics/source_manager.rs b/core/src/diagnostics/source_manager.rs
index 36fe42b..6b2cba5 100644
--- a/core/src/diagnostics/source_manager.rs
+++ b/core/src/diagnostics/source_manager.rs
@@ -311,12 +311,11 @@ impl<T: ?Sized + SourceManager> SourceManager for Arc<T> {
 
 pub trait SourceManagerExt: SourceManager {
     /// Load the content of `path` into this [SourceManager]
+    ///
+    /// The file is always read, as it may have changed since it was last loaded. If its content
+    /// is the same, then the previously loaded source file is returned.
     fn load_file(&self, path: &std::path::Path) -> Result<Arc<SourceFile>, SourceManagerError> {
         let uri = FileName::from(path);
-        if let Some(existing) = self.get_by_uri(&uri) {
-            return Ok(existing);
-        }
-
         let lang = SourceLanguage::from_path(path);
         let content = std::fs::read_to_string(path)
             .map(|s| SourceContent::new(lang, uri.clone(), s))
-- 
2.43.0


From 8a489d251d918b5f883fd9e16df11ecb70d47fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:25 +0000
Subject: [PATCH 67/79] fix: errors in test scripts are shown where they are

The place of an error in a list of conditions was computed from the start
of the directive, not from its content, and was the same for all parts of
the list; line references on continued lines were located from the start of
the first line.
---
 lit/src/formats/sh/script/parser.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/lit/src/formats/sh/script/parser.rs b/lit/src/formats/sh/script/parser.rs
index 46fbd5b..d991b3e 100644
--- a/lit/src/formats/sh/script/parser.rs
+++ b/lit/src/formats/sh/script/parser.rs
@@ -1,4 +1,4 @@
-use std::{fmt, ops::Range};
+use std::fmt;
 
 use litcheck::diagnostics::SourceId;
 use regex::Regex;
@@ -114,14 +114,14 @@ impl<'a> TestScriptParser<'a> {
         stripped_eol -= directive.content.len() - rest.len();
 
         let trimmed = rest.trim_start();
-        let start = directive.span().start().to_usize() + (rest.len() - trimmed.len());
+        let start = content_start(&directive) + (rest.len() - trimmed.len());
         let mut span = start..stripped_eol;
         let mut output = StringRewriter::<'a>::new("");
         push_str_replacing_line_numbers(
             self.lines.source_id,
             trimmed,
             &mut output,
-            &span,
+            start,
             self.current_line_number,
             &mut self.errors,
         );
@@ -138,6 +138,7 @@ impl<'a> TestScriptParser<'a> {
                 break;
             };
             span.end = line.span().end().to_usize();
+            let mut start = line.span().start().to_usize();
             let line_span = line.span();
             let line = match RawDirective::parse(self.lines.source_id, line) {
                 Some(cont_directive) => {
@@ -152,6 +153,7 @@ impl<'a> TestScriptParser<'a> {
                                 expected: directive.kind,
                             });
                     }
+                    start = content_start(&cont_directive);
                     let (span, cont_directive) = cont_directive.into_parts();
                     Span::new(span, cont_directive.content)
                 }
@@ -174,6 +176,7 @@ impl<'a> TestScriptParser<'a> {
                 if collapse_whitespace {
                     output.push(' ');
                     rest = stripped.trim();
+                    start += stripped.len() - stripped.trim_start().len();
                 } else {
                     output.push('\\');
                     output.push('\n');
@@ -185,6 +188,7 @@ impl<'a> TestScriptParser<'a> {
                 span.end -= line.len() - rest.len();
                 if collapse_whitespace {
                     output.push(' ');
+                    start += rest.len() - rest.trim_start().len();
                     rest = rest.trim_start();
                 } else {
                     output.push('\\');
@@ -196,7 +200,7 @@ impl<'a> TestScriptParser<'a> {
                 self.lines.source_id,
                 rest,
                 &mut output,
-                &span,
+                start,
                 self.current_line_number,
                 &mut self.errors,
             );
@@ -261,9 +265,11 @@ impl<'a> TestScriptParser<'a> {
     }
 
     fn parse_bools(&mut self, directive: Span<RawDirective<'a>>) {
-        let start = directive.span().start().to_usize();
+        let mut next = content_start(&directive);
         for expr in directive.content.split(',') {
+            let start = next;
             let len = expr.len();
+            next += len + 1;
             let expr = expr.trim_start();
             let trimmed_len = expr.len();
             let start = start + (len - trimmed_len);
@@ -317,6 +323,11 @@ impl<'a> TestScriptParser<'a> {
     }
 }
 
+/// The offset at which the content of `directive` starts, i.e. that which follows its keyword
+fn content_start(directive: &Span<RawDirective<'_>>) -> usize {
+    directive.span().end().to_usize() - directive.content.len()
+}
+
 struct StringRewriter<'a> {
     buf: Cow<'a, str>,
 }
@@ -438,7 +449,7 @@ fn push_str_replacing_line_numbers<'a>(
     source_id: SourceId,
     input: &'a str,
     buf: &mut StringRewriter<'a>,
-    span: &Range<usize>,
+    start: usize,
     current_line: usize,
     errors: &mut Vec<TestScriptError>,
 ) {
@@ -450,8 +461,7 @@ fn push_str_replacing_line_numbers<'a>(
                 core::str::from_utf8_unchecked(&input.as_bytes()[last_match..range.start])
             });
             if let Some(offset_match) = captures.name("offset") {
-                let offset_span =
-                    (offset_match.start() + span.start)..(offset_match.end() + span.start);
+                let offset_span = (offset_match.start() + start)..(offset_match.end() + start);
                 let offset = offset_match.as_str().trim_start();
                 let (sign, offset) = offset.split_at(1);
                 let is_negative = sign == "-";
-- 
2.43.0


From 5fc95143ad67cd5692a0d961a847cd48cceb1f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:22 +0000
Subject: [PATCH 68/79] fix: errors in a suite's configuration are shown where
 they are

All errors in the flattened part of the configuration (patterns, env, format
and so on) were shown at the start of the file, and for an absolute working
directory which does not exist nothing was shown at all.
---
 lit/src/suite/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lit/src/suite/mod.rs b/lit/src/suite/mod.rs
index 7d3ce0f..f3cb1bc 100644
--- a/lit/src/suite/mod.rs
+++ b/lit/src/suite/mod.rs
@@ -112,6 +112,9 @@ impl TestSuite {
             .into_diagnostic()?;
         let toml = source.as_str();
         let mut suite = toml::from_str::<Self>(toml).map_err(|error| {
+            // The place of an error in the flattened test configuration is only known when parsing
+            // just that
+            let error = toml::from_str::<TestConfig>(toml).err().unwrap_or(error);
             let span = error.span();
             Report::new(TestSuiteError::Syntax {
                 span: span.map(|span| SourceSpan::from_range_unchecked(source.id(), span)),
@@ -206,6 +209,7 @@ impl TestSuite {
                     path: suite.working_dir.get_ref().to_path_buf(),
                     cause: err,
                 })
+                .with_source_code(source.clone())
             })?;
             if suite.working_dir() != working_dir.as_path() {
                 *suite.working_dir.get_mut() = Cow::Owned(working_dir);
-- 
2.43.0


From 24653dc2129e836d0840f634e130d2ade54c2835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:06 +0000
Subject: [PATCH 69/79] fix: links which lead nowhere do not prevent tests from
 running

Symbolic links to files that do not exist (such as the lock files of some
editors) or to directories above, anywhere in a suite, and files removed while
searching, made the whole run fail, although none of them is a test.
---
 lit/src/formats/files.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/lit/src/formats/files.rs b/lit/src/formats/files.rs
index 178d279..1950a1e 100644
--- a/lit/src/formats/files.rs
+++ b/lit/src/formats/files.rs
@@ -117,7 +117,19 @@ fn get_file_based_tests(
     // The configuration which applies to each of the directories visited
     let mut configs = BTreeMap::from([(search_path.to_path_buf(), test_config)]);
     for result in searcher.into_walker() {
-        let test_entry = result.into_diagnostic()?;
+        let test_entry = match result {
+            Ok(entry) => entry,
+            // A link which leads nowhere, or back to where we are, neither is a test nor has any,
+            // and what another run has removed since is no longer there
+            Err(err)
+                if err
+                    .path()
+                    .is_some_and(|p| p.is_symlink() || !p.try_exists().unwrap_or(true)) =>
+            {
+                continue
+            }
+            Err(err) => return Err(err).into_diagnostic(),
+        };
         let test_path = test_entry.path();
         if test_path == search_path {
             continue;
-- 
2.43.0


From 6dcb5ea0fd4d5b62c77f95cc8147110d377e1219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:33 +0000
Subject: [PATCH 70/79] fix: options in FILECHECK_OPTS which cannot be
 understood are an error

---
 litcheck/src/commands/filecheck.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/litcheck/src/commands/filecheck.rs b/litcheck/src/commands/filecheck.rs
index a319bd5..1d31c1a 100644
--- a/litcheck/src/commands/filecheck.rs
+++ b/litcheck/src/commands/filecheck.rs
@@ -4,7 +4,7 @@ use clap::{CommandFactory, FromArgMatches, Parser, parser::ValueSource};
 use filecheck::{Config, Test};
 use litcheck::{
     Input,
-    diagnostics::{DiagResult, IntoDiagnostic, SourceFile},
+    diagnostics::{DiagResult, IntoDiagnostic, Report, SourceFile},
 };
 
 use super::Command;
@@ -35,9 +35,16 @@ impl Command for FileCheck {
     }
 
     fn run(mut self) -> DiagResult<ExitCode> {
-        if let Some(filecheck_opts) = std::env::var("FILECHECK_OPTS").ok()
-            && let Some(extra_args) = shlex::split(&filecheck_opts)
-        {
+        if let Some(filecheck_opts) = std::env::var_os("FILECHECK_OPTS") {
+            // Options which cannot be understood must not be ignored
+            let extra_args = filecheck_opts
+                .to_str()
+                .and_then(shlex::split)
+                .ok_or_else(|| {
+                    Report::msg(format!(
+                        "invalid FILECHECK_OPTS, expected words as in a shell: {filecheck_opts:?}"
+                    ))
+                })?;
             update_options(&mut self.options, extra_args);
         }
 
-- 
2.43.0


From ba700fccc95209a7db0b4e7a61c8301eee2327b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:58 +0000
Subject: [PATCH 71/79] fix: CHECK-NOT patterns use the variables in effect
 before those which follow are bound

---
 filecheck/src/env.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/filecheck/src/env.rs b/filecheck/src/env.rs
index 0b8b94d..4fd50e3 100644
--- a/filecheck/src/env.rs
+++ b/filecheck/src/env.rs
@@ -94,8 +94,14 @@ impl<V: Clone + fmt::Debug> Bindings<V> {
     }
 
     pub fn merge(&mut self, other: Self) {
-        self.global = other.global.union(core::mem::take(&mut self.global));
-        self.bound = other.bound.union(core::mem::take(&mut self.bound));
+        // NOTE: `union` keeps the values of the larger map, not of the first one
+        let theirs = |theirs, _| theirs;
+        self.global = other
+            .global
+            .union_with(core::mem::take(&mut self.global), theirs);
+        self.bound = other
+            .bound
+            .union_with(core::mem::take(&mut self.bound), theirs);
     }
 
     pub fn clear(&mut self) {
-- 
2.43.0


From 5df76f961ddd15bd1966b226c318614f743558f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:01 +0000
Subject: [PATCH 72/79] fix: a check file which starts with a NUL character is
 not empty

---
 filecheck/src/parse/lexer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filecheck/src/parse/lexer/mod.rs b/filecheck/src/parse/lexer/mod.rs
index 086bda1..c344289 100644
--- a/filecheck/src/parse/lexer/mod.rs
+++ b/filecheck/src/parse/lexer/mod.rs
@@ -169,7 +169,7 @@ impl<'input> Lexer<'input> {
 
     fn tokenize(&mut self) {
         match self.input.peek_byte() {
-            (_, b'\0') => {
+            (_, b'\0') if self.input.is_empty() => {
                 self.eof = true;
                 return;
             }
-- 
2.43.0


From f9505816a2b630e4b201b5028b150feceec7cd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:03 +0000
Subject: [PATCH 73/79] fix: characters which are not ASCII blanks at the edge
 of a pattern belong to it

---
 filecheck/src/parse/lexer/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filecheck/src/parse/lexer/mod.rs b/filecheck/src/parse/lexer/mod.rs
index c344289..a2bde0f 100644
--- a/filecheck/src/parse/lexer/mod.rs
+++ b/filecheck/src/parse/lexer/mod.rs
@@ -363,7 +363,7 @@ impl<'input> Lexer<'input> {
             let stripped = if self.strict_whitespace {
                 raw.strip_prefix(' ').unwrap_or(raw)
             } else {
-                raw.trim_start()
+                raw.trim_ascii_start()
             };
             let shift = raw.len().abs_diff(stripped.len());
             self.buffer
@@ -549,7 +549,7 @@ impl<'input> Lexer<'input> {
         // The line has been sliced up in delimited parts, but we have to handle any trailing content
         if last_delimiter_end < eol && in_match.is_none() && in_regex.is_none() {
             let line = self.input.as_str(last_delimiter_end..eol);
-            if (self.strict_whitespace && !is_first) || !line.trim().is_empty() {
+            if (self.strict_whitespace && !is_first) || !line.trim_ascii().is_empty() {
                 self.buffer
                     .push_back(Ok((last_delimiter_end, Token::Raw(line), eol)));
             }
-- 
2.43.0


From 9d9509b54f1952e38ff696bfb35b1402787e2b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:50 +0000
Subject: [PATCH 74/79] fix: a pattern of blank characters only is matched like
 any other text

---
 filecheck/src/pattern/mod.rs | 15 +--------------
 1 file changed, 1 insertion(+), 14 deletions(-)

diff --git a/filecheck/src/pattern/mod.rs b/filecheck/src/pattern/mod.rs
index 684968b..83c6f84 100644
--- a/filecheck/src/pattern/mod.rs
+++ b/filecheck/src/pattern/mod.rs
@@ -51,20 +51,7 @@ impl<'a> Pattern<'a> {
                         prefix.span(),
                     )));
                 }
-                if prefix.trim().is_empty() {
-                    if prefix.chars().all(|c| c.is_ascii_whitespace()) {
-                        Ok(Pattern::Whitespace(AsciiWhitespaceMatcher::new(
-                            prefix.span(),
-                        )))
-                    } else {
-                        Ok(Pattern::Regex(RegexMatcher::new_nocapture(
-                            Span::new(prefix.span(), Cow::Borrowed(r"\s+")),
-                            config,
-                        )?))
-                    }
-                } else {
-                    Ok(Pattern::Substring(SubstringMatcher::new(prefix, config)?))
-                }
+                Ok(Pattern::Substring(SubstringMatcher::new(prefix, config)?))
             }
             PatternPrefix::Regex { prefix, .. } if prefix.captures.is_empty() => Ok(
                 Pattern::Regex(RegexMatcher::new_nocapture(prefix.pattern, config)?),
-- 
2.43.0


From 21bd8c791f41c4635123ba541b442d8937305549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:05 +0000
Subject: [PATCH 75/79] fix: the labels found are shown when another one is
 missing

---
 filecheck/src/check/mod.rs | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/filecheck/src/check/mod.rs b/filecheck/src/check/mod.rs
index 482144a..762037a 100644
--- a/filecheck/src/check/mod.rs
+++ b/filecheck/src/check/mod.rs
@@ -56,9 +56,17 @@ impl<'a> Checker<'a> {
             ));
         }
 
-        let mut result = match discover_blocks(&self.program, &mut context) {
-            Ok(blocks) => check_blocks(blocks, &self.program, &mut context),
-            Err(failed) => TestResult::from_error(failed),
+        let (blocks, errors) = find_labels(&self.program, &mut context);
+        let mut result = if errors.is_empty() {
+            check_blocks(blocks, &self.program, &mut context)
+        } else {
+            let mut result = TestResult::from_error(TestFailed::new(errors, &context));
+            // The labels which were found did match
+            blocks
+                .into_iter()
+                .filter_map(|block| block.label_info)
+                .for_each(|info| result.matched(info));
+            result
         };
         result.attach_input_dump(&context);
         result
@@ -75,6 +83,18 @@ pub fn discover_blocks<'input, 'context: 'input>(
     program: &CheckProgram<'context>,
     context: &mut MatchContext<'input, 'context>,
 ) -> Result<SmallVec<[BlockInfo; 2]>, TestFailed> {
+    let (blocks, errors) = find_labels(program, context);
+    if errors.is_empty() {
+        Ok(blocks)
+    } else {
+        Err(TestFailed::new(errors, context))
+    }
+}
+
+fn find_labels<'input, 'context: 'input>(
+    program: &CheckProgram<'context>,
+    context: &mut MatchContext<'input, 'context>,
+) -> (SmallVec<[BlockInfo; 2]>, Vec<CheckFailedError>) {
     // Traverse the code of the program and try to identify
     // the byte ranges corresponding to block starts of the
     // program. Once the block starts are recorded, we can
@@ -191,11 +211,7 @@ pub fn discover_blocks<'input, 'context: 'input>(
     // Reset the context bounds
     context.cursor_mut().reset();
 
-    if errors.is_empty() {
-        Ok(blocks)
-    } else {
-        Err(TestFailed::new(errors, context))
-    }
+    (blocks, errors)
 }
 
 /// Evaluate all check operations in the given blocks
-- 
2.43.0


From 69efcb44b5f9defe54c9a41e6869ef77be815d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:22 +0000
Subject: [PATCH 76/79] fix: a variable definition may subtract numbers without
 blanks around them

---
 filecheck/src/expr/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filecheck/src/expr/parser.rs b/filecheck/src/expr/parser.rs
index 090bd57..c36645f 100644
--- a/filecheck/src/expr/parser.rs
+++ b/filecheck/src/expr/parser.rs
@@ -116,7 +116,7 @@ pub enum Token<'input> {
     Max,
     #[regex(r"[A-Za-z_][A-Za-z0-9_]*", |lex| lex.slice())]
     Ident(&'input str),
-    #[regex(r"-?[0-9]+", parse_int)]
+    #[regex(r"[0-9]+", parse_int)]
     Num(i128),
 }
 impl<'input> Eq for Token<'input> {}
-- 
2.43.0


From 7be05aa464179366050b3b346967cc7c2f034430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:32 +0000
Subject: [PATCH 77/79] fix: variable definitions accept the same numbers as
 patterns

---
 filecheck/src/expr/parser.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/filecheck/src/expr/parser.rs b/filecheck/src/expr/parser.rs
index c36645f..d2de579 100644
--- a/filecheck/src/expr/parser.rs
+++ b/filecheck/src/expr/parser.rs
@@ -116,7 +116,9 @@ pub enum Token<'input> {
     Max,
     #[regex(r"[A-Za-z_][A-Za-z0-9_]*", |lex| lex.slice())]
     Ident(&'input str),
-    #[regex(r"[0-9]+", parse_int)]
+    #[regex(r"[0-9]+", |lex| parse_int(lex, 10))]
+    #[regex(r"0x[0-9A-Fa-f]+", |lex| parse_int(lex, 16))]
+    #[regex(r"0b[01]+", |lex| parse_int(lex, 2))]
     Num(i128),
 }
 impl<'input> Eq for Token<'input> {}
@@ -158,12 +160,14 @@ impl<'input> fmt::Display for Token<'input> {
     }
 }
 
-fn parse_int<'input>(lexer: &mut Lexer<'input, Token<'input>>) -> Result<i128, ExprError> {
-    lexer
-        .slice()
-        .parse::<i128>()
-        .map_err(|error| ExprError::Number {
-            span: SourceSpan::try_from_range(lexer.extras, lexer.span()).unwrap(),
-            error,
-        })
+fn parse_int<'input>(
+    lexer: &mut Lexer<'input, Token<'input>>,
+    radix: u32,
+) -> Result<i128, ExprError> {
+    let digits = lexer.slice();
+    let digits = if radix == 10 { digits } else { &digits[2..] };
+    i128::from_str_radix(digits, radix).map_err(|error| ExprError::Number {
+        span: SourceSpan::try_from_range(lexer.extras, lexer.span()).unwrap(),
+        error,
+    })
 }
-- 
2.43.0


From 0c34bbd07fc587ac28c1ea54adc51f8e21b5e2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:20 +0000
Subject: [PATCH 78/79] fix: the format given in the definition of a variable
 is used

---
 filecheck/src/env.rs               | 22 ++++++++++++++++------
 filecheck/src/expr/cli.rs          | 27 ++++++++++++++++++++-------
 filecheck/src/expr/grammar.lalrpop |  6 +++---
 filecheck/src/expr/parser.rs       |  8 ++++++--
 4 files changed, 45 insertions(+), 18 deletions(-)

diff --git a/filecheck/src/env.rs b/filecheck/src/env.rs
index 4fd50e3..6cb24c9 100644
--- a/filecheck/src/env.rs
+++ b/filecheck/src/env.rs
@@ -261,13 +261,23 @@ impl<V: Clone + fmt::Debug> dyn LexicalScopeMut<Value = V> {
 
 /// Replace the variables `expr` refers to with their definitions in `system`
 ///
+/// An explicit `format` takes the place of those of the variables.
+///
 /// Returns `None` if it refers to something which is not a numeric variable defined there.
-fn resolve_definition(expr: &Expr, system: &OrdMap<Symbol, Value<'_>>) -> Option<Expr> {
+fn resolve_definition(
+    expr: &Expr,
+    format: Option<NumberFormat>,
+    system: &OrdMap<Symbol, Value<'_>>,
+) -> Option<Expr> {
     match expr {
-        Expr::Num(_) => Some(expr.clone()),
+        Expr::Num(number) => {
+            let mut number = number.clone();
+            number.format = format.or(number.format);
+            Some(Expr::Num(number))
+        }
         Expr::Var(VariableName::User(name) | VariableName::Global(name)) => {
             match system.get(&name.into_inner()) {
-                Some(Value::Num(definition)) => Some(definition.clone()),
+                Some(Value::Num(definition)) => resolve_definition(definition, format, system),
                 _ => None,
             }
         }
@@ -275,8 +285,8 @@ fn resolve_definition(expr: &Expr, system: &OrdMap<Symbol, Value<'_>>) -> Option
         Expr::Binary { span, op, lhs, rhs } => Some(Expr::Binary {
             span: *span,
             op: *op,
-            lhs: Box::new(resolve_definition(lhs, system)?),
-            rhs: Box::new(resolve_definition(rhs, system)?),
+            lhs: Box::new(resolve_definition(lhs, format, system)?),
+            rhs: Box::new(resolve_definition(rhs, format, system)?),
         }),
     }
 }
@@ -305,7 +315,7 @@ impl<'input> Env<'input> {
         let mut system = OrdMap::<_, Value<'i>>::new();
         for v in config.options.variables.iter() {
             let value = match v.value() {
-                Value::Num(expr) => resolve_definition(expr, &system)
+                Value::Num(expr) => resolve_definition(expr, v.format(), &system)
                     .map(Value::Num)
                     .unwrap_or(Value::Undef),
                 value => value.clone(),
diff --git a/filecheck/src/expr/cli.rs b/filecheck/src/expr/cli.rs
index ef89876..9b6b067 100644
--- a/filecheck/src/expr/cli.rs
+++ b/filecheck/src/expr/cli.rs
@@ -7,17 +7,26 @@ use crate::common::*;
 use super::{Value, parser::NumericVarParser};
 
 #[derive(Debug, Clone)]
-pub struct CliVariable(super::Variable<'static>);
+pub struct CliVariable {
+    variable: super::Variable<'static>,
+    /// The format of a numeric variable, if one was given
+    format: Option<NumberFormat>,
+}
 
 impl CliVariable {
     #[inline(always)]
     pub const fn name(&self) -> VariableName {
-        self.0.name
+        self.variable.name
     }
 
     #[inline(always)]
     pub const fn value(&self) -> &Value<'static> {
-        &self.0.value
+        &self.variable.value
+    }
+
+    #[inline(always)]
+    pub const fn format(&self) -> Option<NumberFormat> {
+        self.format
     }
 }
 
@@ -39,15 +48,19 @@ impl TypedVariable for CliVariable {
     fn try_parse<'input>(input: Span<&'input str>) -> Result<Self::Variable<'input>, Report> {
         if input.starts_with('#') {
             let mut parser = NumericVarParser;
-            let var = parser.parse(input)?;
+            let (format, var) = parser.parse(input)?;
             let name = var.name;
-            Ok(Self(match var.value {
+            let variable = match var.value {
                 Value::Undef => super::Variable::new(name, Value::Undef),
                 Value::Num(n) => super::Variable::new(name, Value::Num(n)),
                 Value::Str(s) => super::Variable::new(name, Value::Str(Cow::Owned(s.into_owned()))),
-            }))
+            };
+            Ok(Self { variable, format })
         } else {
-            super::Variable::<'static>::try_parse(input).map(Self)
+            super::Variable::<'static>::try_parse(input).map(|variable| Self {
+                variable,
+                format: None,
+            })
         }
     }
 }
diff --git a/filecheck/src/expr/grammar.lalrpop b/filecheck/src/expr/grammar.lalrpop
index 271fd7c..d9f6376 100644
--- a/filecheck/src/expr/grammar.lalrpop
+++ b/filecheck/src/expr/grammar.lalrpop
@@ -52,13 +52,13 @@ Comma<T>: Vec<T> = {
 /// VARIABLES
 
 
-pub NumericVar: Variable<'input> = {
+pub NumericVar: (Option<NumberFormat>, Variable<'input>) = {
     "#" <format:NumberFormat> <name:("," <Var>)> <value:("=" <Expr>)> => {
-        Variable { name, value: Value::Num(value) }
+        (Some(format), Variable { name, value: Value::Num(value) })
     },
 
     "#" <name:Var> <value:("=" <Expr>)> => {
-        Variable { name, value: Value::Num(value) }
+        (None, Variable { name, value: Value::Num(value) })
     }
 }
 
diff --git a/filecheck/src/expr/parser.rs b/filecheck/src/expr/parser.rs
index d2de579..aa17f47 100644
--- a/filecheck/src/expr/parser.rs
+++ b/filecheck/src/expr/parser.rs
@@ -24,14 +24,18 @@ use logos::{Lexer, Logos};
 
 use litcheck::diagnostics::{Report, SourceId, SourceSpan, Span};
 
-use crate::expr::{ExprError, Variable};
+use crate::expr::{ExprError, NumberFormat, Variable};
 
 pub type ParseError<'a> = lalrpop_util::ParseError<usize, Token<'a>, ExprError>;
 
 pub struct NumericVarParser;
 
 impl NumericVarParser {
-    pub fn parse<'a>(&mut self, source: Span<&'a str>) -> Result<Variable<'a>, Report> {
+    /// Parse a definition, returns the variable and the format given for it, if any
+    pub fn parse<'a>(
+        &mut self,
+        source: Span<&'a str>,
+    ) -> Result<(Option<NumberFormat>, Variable<'a>), Report> {
         let (span, source) = source.into_parts();
         let lexer = Token::lexer(source)
             .spanned()
-- 
2.43.0


From 5cdf62a808424c905d352d8b72fa38c6400016b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:14 +0000
Subject: [PATCH 79/79] fix: an empty line beyond the block of a CHECK-EMPTY is
 not its match

---
 filecheck/src/rules/empty.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/filecheck/src/rules/empty.rs b/filecheck/src/rules/empty.rs
index 9a3790f..8322550 100644
--- a/filecheck/src/rules/empty.rs
+++ b/filecheck/src/rules/empty.rs
@@ -30,8 +30,9 @@ impl Rule for CheckEmpty {
             .next_newline_from(next_line_start)
             .unwrap_or_else(|| cursor.end_of_file());
         let next_line = next_line_start..next_eol;
-        let has_next_line =
-            next_line_start > cursor.start() && cursor.is_start_of_line(next_line_start);
+        let has_next_line = next_line_start > cursor.start()
+            && next_line_start <= cursor.end()
+            && cursor.is_start_of_line(next_line_start);
         if has_next_line && next_line.is_empty() {
             let span =
                 SourceSpan::from_range_unchecked(cursor.source_id, next_line_start..next_eol);
-- 
2.43.0

