From 1a96462f2b2baac7d13ac1f8db9dee3ff0af8d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:00 +0000
Subject: [PATCH 01/16] fix: extend a common block from its very end, not past
 a mismatch

The forward extension of the longest common subsequence skipped the first
item after the block, so a differing item followed by equal ones was
counted as unchanged and silently dropped from the diff.
---
 pw_diff_lib/src/changes.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pw_diff_lib/src/changes.rs b/pw_diff_lib/src/changes.rs
index 0111e4a..3d83fa0 100644
--- a/pw_diff_lib/src/changes.rs
+++ b/pw_diff_lib/src/changes.rs
@@ -190,15 +190,15 @@ impl<'a, T: PartialEq + Clone, I: ContentItemIndices<T>> ChangesGenerator<'a, T,
                     .min(best_lcs.after_start()),
             );
 
-            if best_lcs.before_end() + 1 < before_range.end()
-                && best_lcs.after_end() + 1 < after_range.end()
+            if best_lcs.before_end() < before_range.end()
+                && best_lcs.after_end() < after_range.end()
             {
                 let count = self
                     .before
-                    .subsequence(Range(best_lcs.before_end() + 1, before_range.end()))
+                    .subsequence(Range(best_lcs.before_end(), before_range.end()))
                     .zip(
                         self.after
-                            .subsequence(Range(best_lcs.after_end() + 1, after_range.end())),
+                            .subsequence(Range(best_lcs.after_end(), after_range.end())),
                     )
                     .take_while(|(a, b)| a == b)
                     .count();
-- 
2.43.0


From 2c906b34f308dc3e3b46329119f4c75be1091da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:00 +0000
Subject: [PATCH 02/16] fix: a clump ends where its last change ends, not its
 first

---
 pw_diff_lib/src/changes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pw_diff_lib/src/changes.rs b/pw_diff_lib/src/changes.rs
index 3d83fa0..2e0e0f7 100644
--- a/pw_diff_lib/src/changes.rs
+++ b/pw_diff_lib/src/changes.rs
@@ -385,7 +385,7 @@ impl<'a, T: PartialEq + Clone> ChangeBasics for ChangeClump<'a, T> {
     }
 
     fn before_end(&self, reverse: bool) -> usize {
-        if let Some(change) = self.changes.first() {
+        if let Some(change) = self.changes.last() {
             change.before_end(reverse)
         } else {
             0
-- 
2.43.0


From 11bf1eda4fe942b528a40c91bd20128cfc18fcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:00 +0000
Subject: [PATCH 03/16] fix: write a clump's trimmed lines relative to the
 clump, not the file

before_lines() takes a range relative to the clump; using the clump's
position in the file wrote the wrong lines or panicked.
---
 pw_diff_lib/src/apply_text.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pw_diff_lib/src/apply_text.rs b/pw_diff_lib/src/apply_text.rs
index 8da951c..77f9dcc 100644
--- a/pw_diff_lib/src/apply_text.rs
+++ b/pw_diff_lib/src/apply_text.rs
@@ -77,7 +77,7 @@ pub trait ApplyClumpFuzzy: TextClumpBasics {
         reverse: bool,
     ) -> io::Result<()> {
         if reductions.is_some() {
-            let range = self.before_range(reductions, reverse);
+            let range = self.my_before_range(reductions, reverse);
             for line in self.before_lines(Some(range), reverse) {
                 into.write_all(line.as_bytes())?;
             }
-- 
2.43.0


From 4f7278c72ce7d670d719932af7b674b8a9dcae4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:00 +0000
Subject: [PATCH 04/16] fix: an empty subsequence is found at the end of a
 sequence

Byte patches that only insert at the end (or into an empty file) were
silently not applied.
---
 pw_diff_lib/src/sequence.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pw_diff_lib/src/sequence.rs b/pw_diff_lib/src/sequence.rs
index ce05040..00ea809 100644
--- a/pw_diff_lib/src/sequence.rs
+++ b/pw_diff_lib/src/sequence.rs
@@ -29,7 +29,7 @@ impl<T: PartialEq + Clone> Seq<T> {
     }
 
     pub fn has_subsequence_at(&self, subsequence: &[T], at: usize) -> bool {
-        if at < self.len() && self.len() - at >= subsequence.len() {
+        if at <= self.len() && self.len() - at >= subsequence.len() {
             subsequence
                 .iter()
                 .zip(self.0[at..].iter())
-- 
2.43.0


From 2397ba91807dd9cfd246c69c53b990ed353f1559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:21 +0000
Subject: [PATCH 05/16] fix: searching a text shorter than the clump must not
 underflow

The last position worth trying is negative when the clump is longer than
the text; computing it in usize panicked (or, in release builds, made the
search practically endless).
---
 pw_diff_lib/src/apply_text.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pw_diff_lib/src/apply_text.rs b/pw_diff_lib/src/apply_text.rs
index 77f9dcc..4fb25a6 100644
--- a/pw_diff_lib/src/apply_text.rs
+++ b/pw_diff_lib/src/apply_text.rs
@@ -154,10 +154,11 @@ pub trait ApplyClumpFuzzy: TextClumpBasics {
         reverse: bool,
     ) -> Option<(isize, WillApply)> {
         let not_after = if let Some(next_clump) = next_clump {
-            next_clump.before_adjusted_start(offset, Some(self.context_lengths()), reverse) as usize
-                - self.before_adjusted_length(Some(self.context_lengths()), reverse)
+            next_clump.before_adjusted_start(offset, Some(self.context_lengths()), reverse)
+                - self.before_adjusted_length(Some(self.context_lengths()), reverse) as isize
         } else {
-            pd.data().len() - self.before_adjusted_length(Some(self.context_lengths()), reverse)
+            pd.data().len() as isize
+                - self.before_adjusted_length(Some(self.context_lengths()), reverse) as isize
         };
         let mut backward_done = false;
         let mut forward_done = false;
@@ -176,7 +177,7 @@ pub trait ApplyClumpFuzzy: TextClumpBasics {
             }
             if !forward_done {
                 let adjusted_offset = offset + i;
-                if self.before_adjusted_start(adjusted_offset, None, reverse) < not_after as isize {
+                if self.before_adjusted_start(adjusted_offset, None, reverse) < not_after {
                     if let Some(will_apply) = self.will_apply(pd.data(), adjusted_offset, reverse) {
                         return Some((i, will_apply));
                     }
-- 
2.43.0


From a72c4e51571d0d8f20c431dc8ea493fbaba6fc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:21 +0000
Subject: [PATCH 06/16] fix: try the last possible position when searching for
 a displaced clump

A clump without context that only fits at the very end of the text was
rejected.
---
 pw_diff_lib/src/apply_text.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pw_diff_lib/src/apply_text.rs b/pw_diff_lib/src/apply_text.rs
index 4fb25a6..2e57d1e 100644
--- a/pw_diff_lib/src/apply_text.rs
+++ b/pw_diff_lib/src/apply_text.rs
@@ -177,7 +177,7 @@ pub trait ApplyClumpFuzzy: TextClumpBasics {
             }
             if !forward_done {
                 let adjusted_offset = offset + i;
-                if self.before_adjusted_start(adjusted_offset, None, reverse) < not_after {
+                if self.before_adjusted_start(adjusted_offset, None, reverse) <= not_after {
                     if let Some(will_apply) = self.will_apply(pd.data(), adjusted_offset, reverse) {
                         return Some((i, will_apply));
                     }
-- 
2.43.0


From 6fc0af099228d053b843249ef7f76cc67e5a5038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:06 +0000
Subject: [PATCH 07/16] fix: never apply a text clump to lines that are already
 consumed

After an already applied or displaced clump the next one could be placed
on lines that had already been written, duplicating or losing lines (or
panicking when the cursor ran past the end).
---
 pw_diff_lib/src/apply_text.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/pw_diff_lib/src/apply_text.rs b/pw_diff_lib/src/apply_text.rs
index 2e57d1e..61d00d5 100644
--- a/pw_diff_lib/src/apply_text.rs
+++ b/pw_diff_lib/src/apply_text.rs
@@ -131,6 +131,25 @@ pub trait ApplyClumpFuzzy: TextClumpBasics {
         }
     }
 
+    /// As `will_apply()` but only for lines that have not already been consumed.
+    fn will_apply_unconsumed(
+        &self,
+        pd: &ConsumableSeq<String>,
+        offset: isize,
+        reverse: bool,
+    ) -> Option<WillApply> {
+        let will_apply = self.will_apply(pd.data(), offset, reverse)?;
+        let reductions = match will_apply {
+            WillApply::Cleanly => None,
+            WillApply::WithReductions(reductions) => Some(reductions),
+        };
+        if self.before_adjusted_start(offset, reductions, reverse) < pd.consumed() as isize {
+            None
+        } else {
+            Some(will_apply)
+        }
+    }
+
     fn apply_into<W: io::Write>(
         &self,
         into: &mut W,
@@ -178,7 +197,9 @@ pub trait ApplyClumpFuzzy: TextClumpBasics {
             if !forward_done {
                 let adjusted_offset = offset + i;
                 if self.before_adjusted_start(adjusted_offset, None, reverse) <= not_after {
-                    if let Some(will_apply) = self.will_apply(pd.data(), adjusted_offset, reverse) {
+                    if let Some(will_apply) =
+                        self.will_apply_unconsumed(pd, adjusted_offset, reverse)
+                    {
                         return Some((i, will_apply));
                     }
                 } else {
@@ -269,7 +290,7 @@ where
         let mut offset: isize = 0;
         while let Some(clump) = iter.next() {
             clump_num += 1; // for human consumption
-            if let Some(will_apply) = clump.will_apply(patchable, offset, reverse) {
+            if let Some(will_apply) = clump.will_apply_unconsumed(&pd, offset, reverse) {
                 match will_apply {
                     WillApply::Cleanly => {
                         clump.apply_into(into, &mut pd, offset, None, reverse)?;
-- 
2.43.0


From 103a45671340129e9dd636b440d6fcfaafcdf9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:06 +0000
Subject: [PATCH 08/16] fix: never apply a byte clump to bytes that are already
 consumed

As for text: a clump following an already applied one could be applied to
bytes already written, corrupting the output or panicking.
---
 pw_diff_lib/src/apply_bytes.rs | 4 +++-
 pw_diff_lib/src/byte_diff.rs   | 4 ++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/pw_diff_lib/src/apply_bytes.rs b/pw_diff_lib/src/apply_bytes.rs
index dc37988..a8e2eea 100644
--- a/pw_diff_lib/src/apply_bytes.rs
+++ b/pw_diff_lib/src/apply_bytes.rs
@@ -7,6 +7,7 @@ use log;
 use crate::sequence::{ConsumableSeq, ConsumableSeqIfce, Seq};
 
 pub trait ApplyClumpClean {
+    fn before_start(&self, reverse: bool) -> usize;
     fn will_apply(&self, se: &Seq<u8>, reverse: bool) -> bool;
     fn is_already_applied(&self, se: &Seq<u8>, reverse: bool) -> bool;
     fn apply_into<W: io::Write>(
@@ -42,7 +43,8 @@ where
         let mut clump_num = 0;
         while let Some(clump) = iter.next() {
             clump_num += 1; // for human consumption
-            if clump.will_apply(patchable, reverse) {
+            if clump.before_start(reverse) >= pd.consumed() && clump.will_apply(patchable, reverse)
+            {
                 clump.apply_into(&mut pd, into, reverse)?;
                 log::info!("Clump #{clump_num} applies cleanly.");
             } else if clump.is_already_applied(patchable, reverse) {
diff --git a/pw_diff_lib/src/byte_diff.rs b/pw_diff_lib/src/byte_diff.rs
index 45bef4e..aad0ad5 100644
--- a/pw_diff_lib/src/byte_diff.rs
+++ b/pw_diff_lib/src/byte_diff.rs
@@ -51,6 +51,10 @@ impl ByteChangeClump {
 }
 
 impl<'a> ApplyClumpClean for ByteChangeClump {
+    fn before_start(&self, reverse: bool) -> usize {
+        self.before(reverse).start
+    }
+
     fn will_apply(&self, data: &Seq<u8>, reverse: bool) -> bool {
         let before = self.before(reverse);
         data.has_subsequence_at(&before.items, before.start)
-- 
2.43.0


From d8db5a2bb6d3ae8ed6a527c0ab7208d38b371d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:32 +0000
Subject: [PATCH 09/16] fix: pw_patch reports a failed file creation in its
 exit status

---
 pw_patch/src/main.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/pw_patch/src/main.rs b/pw_patch/src/main.rs
index 0e62b12..d8ca043 100644
--- a/pw_patch/src/main.rs
+++ b/pw_patch/src/main.rs
@@ -112,11 +112,13 @@ fn main() {
                     Ok(mut file) => match path_and_lines.write_into(&mut file) {
                         Ok(_) => log::info!("{path:?} created"),
                         Err(err) => {
-                            log::error!("{path:?} creation failed: {err}")
+                            log::error!("{path:?} creation failed: {err}");
+                            std::process::exit(1)
                         }
                     },
                     Err(err) => {
-                        log::error!("{path:?} creation failed: {err}")
+                        log::error!("{path:?} creation failed: {err}");
+                        std::process::exit(1)
                     }
                 }
             }
@@ -128,11 +130,13 @@ fn main() {
                     Ok(mut file) => match path_and_lines.write_into(&mut file) {
                         Ok(_) => log::info!("{path:?} created"),
                         Err(err) => {
-                            log::error!("{path:?} creation failed: {err}")
+                            log::error!("{path:?} creation failed: {err}");
+                            std::process::exit(1)
                         }
                     },
                     Err(err) => {
-                        log::error!("{path:?} creation failed: {err}")
+                        log::error!("{path:?} creation failed: {err}");
+                        std::process::exit(1)
                     }
                 }
             } else {
@@ -208,11 +212,13 @@ fn main() {
                     Ok(mut file) => match path_and_bytes.write_into(&mut file) {
                         Ok(_) => log::info!("{path:?} created"),
                         Err(err) => {
-                            log::error!("{path:?} creation failed: {err}")
+                            log::error!("{path:?} creation failed: {err}");
+                            std::process::exit(1)
                         }
                     },
                     Err(err) => {
-                        log::error!("{path:?} creation failed: {err}")
+                        log::error!("{path:?} creation failed: {err}");
+                        std::process::exit(1)
                     }
                 }
             }
@@ -224,11 +230,13 @@ fn main() {
                     Ok(mut file) => match path_and_bytes.write_into(&mut file) {
                         Ok(_) => log::info!("{path:?} created"),
                         Err(err) => {
-                            log::error!("{path:?} creation failed: {err}")
+                            log::error!("{path:?} creation failed: {err}");
+                            std::process::exit(1)
                         }
                     },
                     Err(err) => {
-                        log::error!("{path:?} creation failed: {err}")
+                        log::error!("{path:?} creation failed: {err}");
+                        std::process::exit(1)
                     }
                 }
             } else {
-- 
2.43.0


From 9e0092a7777b5a09c4bec1108e82f43d8e9779de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:25 +0000
Subject: [PATCH 10/16] fix: lines of a parsed unified diff clump are stored
 without their markers

---
 pw_cub_diff_lib/src/unified_diff.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pw_cub_diff_lib/src/unified_diff.rs b/pw_cub_diff_lib/src/unified_diff.rs
index 0b7af18..0b0e965 100644
--- a/pw_cub_diff_lib/src/unified_diff.rs
+++ b/pw_cub_diff_lib/src/unified_diff.rs
@@ -147,19 +147,19 @@ impl UnifiedDiffClump {
             || after_lines.len() < starts_and_lengths.after.length
         {
             let line = *iter.next().check_end_of_input()?;
-            if line.starts_with('-') {
-                before_lines.push(line.as_str().to_string());
+            if let Some(text) = line.strip_prefix('-') {
+                before_lines.push(text.to_string());
                 end_context_length = 0;
                 at_the_front = false;
                 last_line_type = "-";
-            } else if line.starts_with('+') {
-                after_lines.push(line.as_str().to_string());
+            } else if let Some(text) = line.strip_prefix('+') {
+                after_lines.push(text.to_string());
                 end_context_length = 0;
                 at_the_front = false;
                 last_line_type = "+";
-            } else if line.starts_with(' ') {
-                before_lines.push(line.as_str().to_string());
-                after_lines.push(line.as_str().to_string());
+            } else if let Some(text) = line.strip_prefix(' ') {
+                before_lines.push(text.to_string());
+                after_lines.push(text.to_string());
                 if at_the_front {
                     start_context_length += 1
                 } else {
-- 
2.43.0


From 1e2e17be458576b944161f7d0a5e95aabcfd06aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:25 +0000
Subject: [PATCH 11/16] fix: parsing a unified diff clump does not panic on
 positions past the end or long contexts

---
 pw_cub_diff_lib/src/unified_diff.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pw_cub_diff_lib/src/unified_diff.rs b/pw_cub_diff_lib/src/unified_diff.rs
index 0b0e965..c5b0336 100644
--- a/pw_cub_diff_lib/src/unified_diff.rs
+++ b/pw_cub_diff_lib/src/unified_diff.rs
@@ -127,6 +127,9 @@ pub struct UnifiedDiffClump {
 
 impl UnifiedDiffClump {
     pub fn get_from_at(lines: &Seq<String>, start_index: usize) -> DiffParseResult<Option<Self>> {
+        if start_index >= lines.len() {
+            return Ok(None);
+        }
         let mut iter = lines.subsequence(lines.range_from(start_index));
         let line = match iter.next() {
             Some(line) => line,
@@ -161,9 +164,9 @@ impl UnifiedDiffClump {
                 before_lines.push(text.to_string());
                 after_lines.push(text.to_string());
                 if at_the_front {
-                    start_context_length += 1
+                    start_context_length = start_context_length.saturating_add(1)
                 } else {
-                    end_context_length += 1
+                    end_context_length = end_context_length.saturating_add(1)
                 }
                 last_line_type = "-";
             } else {
-- 
2.43.0


From 1f0bf1e013cf1b2e32844906110c7a584b3ee8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:25 +0000
Subject: [PATCH 12/16] fix: a unified diff clump that does not add up to its
 header is refused

---
 pw_cub_diff_lib/src/unified_diff.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pw_cub_diff_lib/src/unified_diff.rs b/pw_cub_diff_lib/src/unified_diff.rs
index c5b0336..9c2cede 100644
--- a/pw_cub_diff_lib/src/unified_diff.rs
+++ b/pw_cub_diff_lib/src/unified_diff.rs
@@ -174,6 +174,11 @@ impl UnifiedDiffClump {
             }
             index += 1;
         }
+        if before_lines.len() > starts_and_lengths.before.length
+            || after_lines.len() > starts_and_lengths.after.length
+        {
+            return Err(DiffParseError::UnexpectedEndClump(start_index + index));
+        }
         let mut lines_consumed = index + 1;
         if let Some(line) = iter.next() {
             if line.starts_with("\\") {
-- 
2.43.0


From 94eedad2c4d74845be51ded999f6caedbb3d091a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:07 +0000
Subject: [PATCH 13/16] fix: a no newline marker in a unified diff clump
 removes just the newline of the line before it

---
 pw_cub_diff_lib/src/unified_diff.rs | 35 +++++++++++++++++------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/pw_cub_diff_lib/src/unified_diff.rs b/pw_cub_diff_lib/src/unified_diff.rs
index 9c2cede..4f93261 100644
--- a/pw_cub_diff_lib/src/unified_diff.rs
+++ b/pw_cub_diff_lib/src/unified_diff.rs
@@ -125,6 +125,21 @@ pub struct UnifiedDiffClump {
     pub lines_consumed: usize,
 }
 
+/// Remove the newline that, according to a "no newline at end of file" marker, the preceding line
+/// (of the given type) doesn't have.
+fn remove_newline(line_type: &str, before_lines: &mut Vec<String>, after_lines: &mut Vec<String>) {
+    if line_type != "+" {
+        if let Some(line) = before_lines.pop() {
+            before_lines.push(line.strip_suffix('\n').unwrap_or(&line).to_string());
+        }
+    }
+    if line_type != "-" {
+        if let Some(line) = after_lines.pop() {
+            after_lines.push(line.strip_suffix('\n').unwrap_or(&line).to_string());
+        }
+    }
+}
+
 impl UnifiedDiffClump {
     pub fn get_from_at(lines: &Seq<String>, start_index: usize) -> DiffParseResult<Option<Self>> {
         if start_index >= lines.len() {
@@ -168,7 +183,10 @@ impl UnifiedDiffClump {
                 } else {
                     end_context_length = end_context_length.saturating_add(1)
                 }
-                last_line_type = "-";
+                last_line_type = " ";
+            } else if line.starts_with('\\') && last_line_type != "X" {
+                remove_newline(last_line_type, &mut before_lines, &mut after_lines);
+                last_line_type = "X";
             } else {
                 return Err(DiffParseError::UnexpectedEndClump(start_index + index + 1));
             }
@@ -181,20 +199,9 @@ impl UnifiedDiffClump {
         }
         let mut lines_consumed = index + 1;
         if let Some(line) = iter.next() {
-            if line.starts_with("\\") {
+            if line.starts_with('\\') && last_line_type != "X" {
                 lines_consumed += 1;
-                if last_line_type == "-" {
-                    let line = before_lines.pop().unwrap();
-                    before_lines.push(line.trim_end().to_string())
-                } else if last_line_type == "+" {
-                    let line = after_lines.pop().unwrap();
-                    after_lines.push(line.trim_end().to_string())
-                } else {
-                    let line = before_lines.pop().unwrap();
-                    before_lines.push(line.trim_end().to_string());
-                    let line = after_lines.pop().unwrap();
-                    after_lines.push(line.trim_end().to_string())
-                }
+                remove_newline(last_line_type, &mut before_lines, &mut after_lines);
             }
         }
         Ok(Some(Self {
-- 
2.43.0


From 52266d242389359156fdf17d3a7a43363b67f421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:30 +0000
Subject: [PATCH 14/16] fix: every line without a newline in a rendered unified
 diff clump gets its marker

---
 pw_cub_diff_lib/src/unified_diff.rs | 30 ++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/pw_cub_diff_lib/src/unified_diff.rs b/pw_cub_diff_lib/src/unified_diff.rs
index 4f93261..88941f6 100644
--- a/pw_cub_diff_lib/src/unified_diff.rs
+++ b/pw_cub_diff_lib/src/unified_diff.rs
@@ -263,6 +263,14 @@ pub struct UnifiedClumpText {
     pub lines: Vec<String>,
 }
 
+/// Add a line with its marker, followed by a "no newline at end of file" marker if it needs one
+fn push_line(lines: &mut Vec<String>, marker: char, line: &str) {
+    lines.push(format!("{marker}{line}"));
+    if !line.ends_with('\n') {
+        lines.push("\n\\\n".to_string());
+    }
+}
+
 pub struct UnifiedClumpIter<'a> {
     pub before: &'a Seq<String>,
     pub after: &'a Seq<String>,
@@ -297,46 +305,38 @@ impl<'a> Iterator for UnifiedClumpIter<'a> {
             match change {
                 NoChange(common_subsequence) => {
                     for line in self.before.subsequence(common_subsequence.before_range()) {
-                        lines.push(format!(" {line}"));
+                        push_line(&mut lines, ' ', line);
                     }
                 }
                 Delete(before_range, _) => {
                     for line in self.before.subsequence(*before_range) {
-                        lines.push(format!("-{line}"));
+                        push_line(&mut lines, '-', line);
                     }
                 }
                 Insert(_, after_range) => {
                     for line in self.after.subsequence(*after_range) {
-                        lines.push(format!("+{line}"));
+                        push_line(&mut lines, '+', line);
                     }
                 }
                 Replace(before_range, after_range) => {
                     if before_range.len() < after_range.len() {
                         for line in self.before.subsequence(*before_range) {
-                            lines.push(format!("-{line}"));
+                            push_line(&mut lines, '-', line);
                         }
                         for line in self.after.subsequence(*after_range) {
-                            lines.push(format!("+{line}"));
+                            push_line(&mut lines, '+', line);
                         }
                     } else {
                         for line in self.after.subsequence(*after_range) {
-                            lines.push(format!("+{line}"));
+                            push_line(&mut lines, '+', line);
                         }
                         for line in self.before.subsequence(*before_range) {
-                            lines.push(format!("-{line}"));
+                            push_line(&mut lines, '-', line);
                         }
                     }
                 }
             }
         }
-        if !lines
-            .last()
-            .expect("impl Iterator for UnifiedClumpIter")
-            .ends_with("\n")
-        {
-            lines.push("\n\\\n".to_string());
-        }
-
         Some(UnifiedClumpText { header, lines })
     }
 }
-- 
2.43.0


From c9110e699422a6c682f1d2b285f976896dd36a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:30 +0000
Subject: [PATCH 15/16] fix: line numbers in unified diff headers count from
 one

---
 pw_cub_diff_lib/src/unified_diff.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/pw_cub_diff_lib/src/unified_diff.rs b/pw_cub_diff_lib/src/unified_diff.rs
index 88941f6..93c0a41 100644
--- a/pw_cub_diff_lib/src/unified_diff.rs
+++ b/pw_cub_diff_lib/src/unified_diff.rs
@@ -75,6 +75,25 @@ pub struct StartsAndLengths {
     pub after: StartAndLength,
 }
 
+/// The line number for a header: the number of the first line (counting from one) or, if there are
+/// no lines, of the line before.
+fn line_number(index: usize, length: usize) -> usize {
+    if length == 0 {
+        index
+    } else {
+        index + 1
+    }
+}
+
+/// The index of the first line for a start from a header.
+fn line_index(start_and_length: &StartAndLength) -> usize {
+    if start_and_length.length == 0 {
+        start_and_length.start
+    } else {
+        start_and_length.start.saturating_sub(1)
+    }
+}
+
 impl Display for StartsAndLengths {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         if self.before.length == 1 {
@@ -217,9 +236,9 @@ impl UnifiedDiffClump {
 impl ChangeBasics for UnifiedDiffClump {
     fn before_start(&self, reverse: bool) -> usize {
         if reverse {
-            self.starts_and_lengths.after.start
+            line_index(&self.starts_and_lengths.after)
         } else {
-            self.starts_and_lengths.before.start
+            line_index(&self.starts_and_lengths.before)
         }
     }
 
@@ -286,11 +305,11 @@ impl<'a> Iterator for UnifiedClumpIter<'a> {
         let starts = change_clump.starts();
         let ends = change_clump.ends();
         let before_start_and_end = StartAndLength {
-            start: starts.0,
+            start: line_number(starts.0, ends.0 - starts.0),
             length: ends.0 - starts.0,
         };
         let after_start_and_end = StartAndLength {
-            start: starts.1,
+            start: line_number(starts.1, ends.1 - starts.1),
             length: ends.1 - starts.1,
         };
         let starts_and_lengths = StartsAndLengths {
-- 
2.43.0


From b6cc86e3eb960a0773d28d3afa3a414152f3dd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:18 +0000
Subject: [PATCH 16/16] fix: pw_diff reports success although the end of its
 output was not written

---
 pw_diff/src/main.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pw_diff/src/main.rs b/pw_diff/src/main.rs
index 0c3e810..4b5e12c 100644
--- a/pw_diff/src/main.rs
+++ b/pw_diff/src/main.rs
@@ -1,6 +1,6 @@
 // Copyright 2024 Peter Williams <pwil3058@gmail.com> <pwil3058@bigpond.net.au>
 
-use std::io;
+use std::io::{self, Write};
 use std::path::PathBuf;
 
 use clap::Parser;
@@ -44,11 +44,16 @@ fn main() {
         }
     };
 
-    match diff.to_writer(&mut io::stdout()) {
+    let mut stdout = io::stdout();
+    match diff.to_writer(&mut stdout) {
         Ok(_) => (),
         Err(err) => {
             log::error!("Error writing diff: {err}");
             std::process::exit(5);
         }
     }
+    if let Err(err) = stdout.flush() {
+        log::error!("Error writing diff: {err}");
+        std::process::exit(5);
+    }
 }
-- 
2.43.0

