From 0f09b22cab754b06b515ebe340b4769cacccf5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:03 +0000
Subject: [PATCH 01/11] fix: keep words unchanged when lower-casing them is not
 reversible

---
 src/processing.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/processing.rs b/src/processing.rs
index 1212967..8f76555 100644
--- a/src/processing.rs
+++ b/src/processing.rs
@@ -39,6 +39,19 @@ fn get_char_type(ch: char) -> CharType {
     }
 }
 
+/// Whether upper-casing the lower-case form of `ch` gives `ch` back. It doesn't
+/// for a few letters, such as 'K' (Kelvin sign) or 'İ'.
+fn has_reversible_lowercase(ch: char) -> bool {
+    let mut lower = ch.to_lowercase();
+    match (lower.next(), lower.next()) {
+        (Some(low), None) => {
+            let mut upper = low.to_uppercase();
+            upper.next() == Some(ch) && upper.next().is_none()
+        }
+        _ => false,
+    }
+}
+
 fn add_word(out: &mut String, word: &str) {
     assert!(!word.is_empty());
 
@@ -46,12 +59,12 @@ fn add_word(out: &mut String, word: &str) {
     let first = chars.next().unwrap();
     let rest = chars.as_str();
 
-    if first.is_uppercase() {
+    if first.is_uppercase() && has_reversible_lowercase(first) {
         if rest.chars().all(|ch| ch.is_lowercase()) {
             out.push('\x14');
             out.push(first.to_lowercase().next().unwrap());
             out.push_str(rest);
-        } else if rest.chars().all(|ch| ch.is_uppercase()) {
+        } else if rest.chars().all(|ch| ch.is_uppercase() && has_reversible_lowercase(ch)) {
             out.push('\x15');
             out.push_str(word.to_lowercase().as_str());
         } else {
-- 
2.43.0


From 319aa46c334e5d09222a3ef320454d79e92365d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:03 +0000
Subject: [PATCH 02/11] fix: report write errors when processing a file

---
 src/processing.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/processing.rs b/src/processing.rs
index 8f76555..5b441e6 100644
--- a/src/processing.rs
+++ b/src/processing.rs
@@ -149,10 +149,10 @@ pub fn process_file<R: Read, W: Write>(input: &mut R, output: &mut W) -> io::Res
         let line = line?;
         let processed = process(&line);
         writer.write_all(processed.as_bytes())?;
-        writer.write(b"\n")?;
+        writer.write_all(b"\n")?;
     }
 
-    Ok(())
+    writer.flush()
 }
 
 #[cfg(test)]
-- 
2.43.0


From 389898bb70366ac464139510ee65a4012679e64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:03 +0000
Subject: [PATCH 03/11] fix: read the split_paragraphs field that to_json
 writes

---
 src/tokenset.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tokenset.rs b/src/tokenset.rs
index b0d15ee..1ea1799 100644
--- a/src/tokenset.rs
+++ b/src/tokenset.rs
@@ -259,7 +259,7 @@ impl TokenSet {
             Some("byteshuff") => TokenType::BytesHuff,
             _ => panic!("Unknown token type"),
         };
-        let split_paragraphs = match value.get("split_paragraph") {
+        let split_paragraphs = match value.get("split_paragraphs") {
             None => false,
             Some(&Value::Bool(v)) => v,
             _ => panic!("Can't parse split_paragraphs field."),
-- 
2.43.0


From cab42b9b5d46196a787a7321750bb8b6767da306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 04/11] fix: do not duplicate byte sequences when loading a
 bits* token set

---
 src/tokenset.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tokenset.rs b/src/tokenset.rs
index 1ea1799..133eab4 100644
--- a/src/tokenset.rs
+++ b/src/tokenset.rs
@@ -291,6 +291,8 @@ impl TokenSet {
         }
 
         if value.as_object().unwrap().contains_key("sequences") {
+            // The saved sequences replace the default ones.
+            token_set.sequences.clear();
             for seq in value["sequences"].as_array().unwrap().iter() {
                 let string = if let Token::Str(s) = parse_token(&seq["string"]) { s } else {panic!()};
                 let mut tokens = Vec::new();
-- 
2.43.0


From 2981e4e338889849eb4e880c5f36cf74533a1744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 05/11] fix: never select more than 256 byte tokens

---
 src/optimize_bytes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optimize_bytes.rs b/src/optimize_bytes.rs
index 0220410..4c0567d 100644
--- a/src/optimize_bytes.rs
+++ b/src/optimize_bytes.rs
@@ -14,7 +14,7 @@ pub struct SimpleBytesOptimizer {}
 
 impl BytesOptimizer for SimpleBytesOptimizer {
     fn optimize_bytes(stats: &TokenStats, n_byte_ext_tokens: usize) -> TokenSet {
-        let n_byte_tokens = n_byte_ext_tokens - stats.token_set.n_ext_tokens;
+        let n_byte_tokens = min(n_byte_ext_tokens - stats.token_set.n_ext_tokens, 256);
 
         let mut byte_counts: [i64; 256] = [0; 256];
         let mut single_byte_tokens = Vec::new();
-- 
2.43.0


From cd027bee6ce021120ee24070086b491669e04860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 06/11] fix: do not add an invalid token when no pair of tokens
 is valid

---
 src/optimize.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/optimize.rs b/src/optimize.rs
index c3e747f..0189cec 100644
--- a/src/optimize.rs
+++ b/src/optimize.rs
@@ -61,7 +61,7 @@ fn add_token_bpe(stats: &TokenStats) -> Option<(TokenSet, i64)> {
         let itoken1 = pair_idx / stats.ntokens();
         let itoken2 = pair_idx % stats.ntokens();
 
-        new_token = match (
+        let candidate = match (
             &stats.token_set.tokens[itoken1],
             &stats.token_set.tokens[itoken2],
         ) {
@@ -71,7 +71,8 @@ fn add_token_bpe(stats: &TokenStats) -> Option<(TokenSet, i64)> {
             _ => unreachable!(),
         };
 
-        if is_valid_token(&new_token) {
+        if is_valid_token(&candidate) {
+            new_token = candidate;
             token_count = stats.pair_counts[pair_idx];
             break;
         }
-- 
2.43.0


From 1a38915c51595810686fb986b79504786d1923c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 07/11] fix: do not cut characters between in-memory samples

---
 src/input/memory_sampler.rs |  3 ++-
 src/input/util.rs           | 30 ++++++++++++++++++++++++++++++
 2 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/input/memory_sampler.rs b/src/input/memory_sampler.rs
index 673f7df..2f07d22 100644
--- a/src/input/memory_sampler.rs
+++ b/src/input/memory_sampler.rs
@@ -3,7 +3,7 @@ use std::fs::File;
 
 use crate::input::sample::{Sample, Sampler};
 
-use super::util::find_paragraph_end;
+use super::util::{find_char_end, find_paragraph_end};
 
 pub struct MemorySampler {
     data: Vec<u8>,
@@ -93,6 +93,7 @@ impl<'a> Iterator for MemoryIterator<'a> {
             if self.position < self.sampler.data.len() && paragraph_end > start {
                 self.position = paragraph_end;
             }
+            self.position = start + find_char_end(&self.sampler.data[start..self.position]);
             Some(Sample::from_bytes(&self.sampler.data[start..self.position]))
         } else {
             None
diff --git a/src/input/util.rs b/src/input/util.rs
index 088dc6a..dbe7df1 100644
--- a/src/input/util.rs
+++ b/src/input/util.rs
@@ -17,6 +17,36 @@ pub fn extract_valid_utf8_slice<'a>(data: &'a [u8]) -> &'a [u8] {
     &data[start..end]
 }
 
+/// Returns the length of `data` without the incomplete UTF-8 character that it
+/// may end with.
+pub fn find_char_end(data: &[u8]) -> usize {
+    let mut start = data.len();
+    while start > 0 && !is_char_start(data[start - 1]) {
+        start -= 1;
+    }
+    if start == 0 {
+        return data.len();
+    }
+
+    start -= 1;
+    let first = data[start];
+    let char_len = if first < 128 {
+        1
+    } else if first < 224 {
+        2
+    } else if first < 240 {
+        3
+    } else {
+        4
+    };
+
+    if start > 0 && data.len() - start < char_len {
+        start
+    } else {
+        data.len()
+    }
+}
+
 pub fn find_paragraph_end(data: &[u8], end: usize) -> usize {
     let mut pos = end;
     while pos >= 2 && (data[pos - 1] != 10 || data[pos - 2] != 10) {
-- 
2.43.0


From 4cc60e16d9ea4f2604aef01945328d203247edb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 08/11] fix: do not cut characters between file samples

---
 src/input/file_sampler.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/input/file_sampler.rs b/src/input/file_sampler.rs
index b9d681e..f3d6bc5 100644
--- a/src/input/file_sampler.rs
+++ b/src/input/file_sampler.rs
@@ -6,7 +6,7 @@ use std::iter::Iterator;
 
 use crate::input::sample::{Sample, Sampler};
 
-use super::util::find_paragraph_end;
+use super::util::{find_char_end, find_paragraph_end};
 
 pub struct FileSampler {
     filename: String,
@@ -94,15 +94,19 @@ impl<'a> Iterator for FileIterator<'a> {
                 Some(Sample::from_vec(buffer))
             }
         } else {
-            let read_bytes = self.file.read(&mut buffer).unwrap();
+            buffer.clear();
+            let read_bytes = (&mut self.file)
+                .take(self.sample_size as u64)
+                .read_to_end(&mut buffer)
+                .unwrap();
 
             if read_bytes == 0 {
                 None
             } else if read_bytes < self.sample_size {
-                buffer.truncate(read_bytes);
                 Some(Sample::from_vec(buffer))
             } else {
                 let end = find_paragraph_end(&buffer, read_bytes);
+                let end = find_char_end(&buffer[..end]);
                 if end < read_bytes {
                     buffer.truncate(end);
                     self.file
-- 
2.43.0


From f0e9cb2f03f80a41d5dd78d4ccce0b6a85748571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:42 +0000
Subject: [PATCH 09/11] fix: optimize with the full data when the sample grows
 to its size

---
 src/main.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 084d31b..e42508f 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -158,7 +158,6 @@ fn optimize_with_increasing_data(
     let full_size = std::fs::metadata(filename).unwrap().len() as usize;
     let mut tokenset = input_token_set;
     let mut size = min_data_size;
-    let mut full_stats = None;
 
     while size < full_size {
         let sampler = MemorySampler::sample_from_file(filename, size, 1 << 20);
@@ -184,8 +183,7 @@ fn optimize_with_increasing_data(
                 < 0.005
         {
             println!("The difference is less than 0.5%. Stopping.");
-            full_stats = Some(new_full_stats);
-            break;
+            return new_full_stats;
         }
 
         tokenset = Some(stats.token_set);
@@ -193,7 +191,8 @@ fn optimize_with_increasing_data(
         size *= 2;
     }
 
-    full_stats.unwrap()
+    // The sample has grown to the full data.
+    optimizer.optimize(&full_sampler, tokenset)
 }
 
 fn optimize(
-- 
2.43.0


From 107d16ac79407093a09dc6ed3cde9f82ead63f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:42 +0000
Subject: [PATCH 10/11] fix: always take the first paragraph when sampling from
 a file

---
 src/input/memory_sampler.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/input/memory_sampler.rs b/src/input/memory_sampler.rs
index 2f07d22..7e39e1d 100644
--- a/src/input/memory_sampler.rs
+++ b/src/input/memory_sampler.rs
@@ -34,7 +34,7 @@ impl MemorySampler {
             if buffer[0] != 10 && paragraph.ends_with(&[10, 10]) {
                 // We have a full paragraph
 
-                if data.len() as f64 / (read_bytes as f64) < target_share {
+                if read_bytes == 0 || data.len() as f64 / (read_bytes as f64) < target_share {
                     data.extend_from_slice(&paragraph);
                 }
 
@@ -46,7 +46,7 @@ impl MemorySampler {
             buffer.clear();
         }
 
-        if data.len() as f64 / (read_bytes as f64) < target_share {
+        if read_bytes == 0 || data.len() as f64 / (read_bytes as f64) < target_share {
             data.extend_from_slice(&paragraph);
         }
 
-- 
2.43.0


From b7515b837a0bfecfd8e0dd6f6f336b69bb9cb999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:17 +0000
Subject: [PATCH 11/11] fix: a growing sample of size zero never grew

With --min-data-size 0 the sample size was doubled from zero for ever.
---
 src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index e42508f..f32cadb 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -157,7 +157,8 @@ fn optimize_with_increasing_data(
     let full_sampler = FileSampler::new(filename, 1 << 24, None);
     let full_size = std::fs::metadata(filename).unwrap().len() as usize;
     let mut tokenset = input_token_set;
-    let mut size = min_data_size;
+    // An empty sample could never grow.
+    let mut size = min_data_size.max(1);
 
     while size < full_size {
         let sampler = MemorySampler::sample_from_file(filename, size, 1 << 20);
-- 
2.43.0

