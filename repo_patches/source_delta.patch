From 9668d926e90e8da4235a3a18819c6520390d0c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:14 +0000
Subject: [PATCH 01/68] fix: SIMD scans looped forever on a match in the top
 vector lane

---
 src/simd/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/simd/mod.rs b/src/simd/mod.rs
index 7261e61..ec68366 100644
--- a/src/simd/mod.rs
+++ b/src/simd/mod.rs
@@ -63,7 +63,7 @@ pub mod json {
             let mask = _mm256_movemask_epi8(ws_mask);
 
             // Find positions of set bits
-            let mut m = mask;
+            let mut m = mask as u32; // unsigned: the shift below must not sign-extend
             let mut bit_pos = 0;
             while m != 0 {
                 if m & 1 != 0 {
@@ -275,7 +275,7 @@ pub mod json {
 
             let mask = _mm256_movemask_epi8(escape_mask);
 
-            let mut m = mask;
+            let mut m = mask as u32; // unsigned: the shift below must not sign-extend
             let mut bit_pos = 0;
             while m != 0 {
                 if m & 1 != 0 {
@@ -467,7 +467,7 @@ pub mod compression {
 
             if mask != 0 {
                 // Found potential matches, check each one
-                let mut m = mask;
+                let mut m = mask as u32; // unsigned: the shift below must not sign-extend
                 let mut bit_pos = 0;
                 while m != 0 {
                     if m & 1 != 0 {
-- 
2.43.0


From cd8089438e11b96e790969993160a05c04664355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:14 +0000
Subject: [PATCH 02/68] fix: batch_validate_lengths was exclusive and signed in
 its vector path

---
 src/simd/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simd/mod.rs b/src/simd/mod.rs
index ec68366..63499c6 100644
--- a/src/simd/mod.rs
+++ b/src/simd/mod.rs
@@ -509,7 +509,8 @@ pub mod batch {
         for i in 0..chunks {
             let offset = i * 8;
             let data = _mm256_loadu_si256(lengths.as_ptr().add(offset) as *const __m256i);
-            let cmp = _mm256_cmpgt_epi32(max_vec, data);
+            // Unsigned `data <= max`: true exactly where max(data, max) == max
+            let cmp = _mm256_cmpeq_epi32(_mm256_max_epu32(data, max_vec), max_vec);
 
             // Extract comparison results
             let mask = _mm256_movemask_ps(_mm256_castsi256_ps(cmp));
-- 
2.43.0


From 778450d3f05760ba003c720edd5f9f40ae504a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:33 +0000
Subject: [PATCH 03/68] fix: validate_utf8_simd rejected sequences across a
 chunk boundary and accepted overlong and surrogate encodings

---
 src/simd/mod.rs | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/simd/mod.rs b/src/simd/mod.rs
index 63499c6..c4242f1 100644
--- a/src/simd/mod.rs
+++ b/src/simd/mod.rs
@@ -95,15 +95,15 @@ pub mod json {
     fn validate_multibyte_sequence(input: &[u8], start: usize, first_byte: u8) -> bool {
         let len = input.len();
 
-        if first_byte < 0xC0 {
-            false // Invalid continuation byte
+        if first_byte < 0xC2 {
+            false // Invalid continuation byte or overlong encoding
         } else if first_byte < 0xE0 {
             // 2-byte sequence
             validate_2byte_sequence(input, start, len)
         } else if first_byte < 0xF0 {
             // 3-byte sequence
             validate_3byte_sequence(input, start, len)
-        } else if first_byte < 0xF8 {
+        } else if first_byte < 0xF5 {
             // 4-byte sequence
             validate_4byte_sequence(input, start, len)
         } else {
@@ -123,6 +123,9 @@ pub mod json {
         start + 2 < len
             && is_valid_continuation_byte(input[start + 1])
             && is_valid_continuation_byte(input[start + 2])
+            // Neither overlong encodings nor surrogates
+            && !(input[start] == 0xE0 && input[start + 1] < 0xA0)
+            && !(input[start] == 0xED && input[start + 1] > 0x9F)
     }
 
     /// Validates a 4-byte UTF-8 sequence
@@ -132,20 +135,26 @@ pub mod json {
             && is_valid_continuation_byte(input[start + 1])
             && is_valid_continuation_byte(input[start + 2])
             && is_valid_continuation_byte(input[start + 3])
+            // Neither overlong encodings nor code points above U+10FFFF
+            && !(input[start] == 0xF0 && input[start + 1] < 0x90)
+            && !(input[start] == 0xF4 && input[start + 1] > 0x8F)
     }
 
-    /// Processes a 32-byte chunk with SIMD, falling back to scalar for non-ASCII
+    /// Processes a 32-byte chunk with SIMD, falling back to scalar for non-ASCII.
+    ///
+    /// Returns the position to continue at, which lies beyond the chunk when a sequence
+    /// straddles its end, or `None` if the chunk is not valid UTF-8.
     #[cfg(target_arch = "x86_64")]
     #[target_feature(enable = "avx2")]
-    unsafe fn process_simd_chunk(input: &[u8], offset: usize) -> bool {
+    unsafe fn process_simd_chunk(input: &[u8], offset: usize) -> Option<usize> {
         let data = _mm256_loadu_si256(input.as_ptr().add(offset) as *const __m256i);
 
         // Check for ASCII bytes (< 0x80) - fast path
         let ascii_mask = _mm256_cmpgt_epi8(_mm256_setzero_si256(), data);
-        let is_ascii = _mm256_movemask_epi8(ascii_mask);
+        let non_ascii = _mm256_movemask_epi8(ascii_mask);
 
-        if is_ascii == -1 {
-            return true; // All bytes are ASCII
+        if non_ascii == 0 {
+            return Some(offset + 32); // All bytes are ASCII
         }
 
         // Fall back to scalar validation for non-ASCII bytes
@@ -153,7 +162,7 @@ pub mod json {
     }
 
     /// Validates a chunk using scalar processing
-    fn validate_chunk_scalar(input: &[u8], start: usize, chunk_size: usize) -> bool {
+    fn validate_chunk_scalar(input: &[u8], start: usize, chunk_size: usize) -> Option<usize> {
         let len = input.len();
         let end = std::cmp::min(start + chunk_size, len);
 
@@ -167,14 +176,14 @@ pub mod json {
 
             // Multi-byte sequence - validate and advance
             if !validate_multibyte_sequence(input, i, byte) {
-                return false;
+                return None;
             }
 
             // Advance by the correct number of bytes for this sequence
             i += get_utf8_sequence_length(byte);
         }
 
-        true
+        Some(i)
     }
 
     /// Gets the length of a UTF-8 sequence from its first byte
@@ -219,10 +228,10 @@ pub mod json {
 
         // Process 32 bytes at a time with SIMD
         while i + 32 <= len {
-            if !process_simd_chunk(input, i) {
-                return false;
+            match process_simd_chunk(input, i) {
+                Some(next) => i = next,
+                None => return false,
             }
-            i += 32;
         }
 
         // Process remaining bytes with scalar validation
-- 
2.43.0


From e7068c92695e5918a48a769b969f71f375287a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:33 +0000
Subject: [PATCH 04/68] fix: parse_json_fast joined tokens separated by
 whitespace

---
 src/utils/json_simd.rs | 43 ++----------------------------------------
 1 file changed, 2 insertions(+), 41 deletions(-)

diff --git a/src/utils/json_simd.rs b/src/utils/json_simd.rs
index b03cbe8..12fa0c2 100644
--- a/src/utils/json_simd.rs
+++ b/src/utils/json_simd.rs
@@ -21,47 +21,8 @@ pub fn parse_json_fast<T: for<'de> Deserialize<'de>>(input: &[u8]) -> Result<T,
             }
         }
 
-        // Use optimized whitespace skipping
-        let ws_positions = unsafe { crate::simd::json::find_whitespace_simd(input) };
-
-        // If there's minimal whitespace, parse directly
-        if ws_positions.len() < input.len() / 10 {
-            serde_json::from_slice(input)
-        } else {
-            // Strip unnecessary whitespace first
-            let mut cleaned = Vec::with_capacity(input.len() - ws_positions.len());
-            let mut in_string = false;
-            let mut escape_next = false;
-
-            for (i, &byte) in input.iter().enumerate() {
-                if escape_next {
-                    escape_next = false;
-                    cleaned.push(byte);
-                    continue;
-                }
-
-                if byte == b'\\' && in_string {
-                    escape_next = true;
-                    cleaned.push(byte);
-                    continue;
-                }
-
-                if byte == b'"' && !escape_next {
-                    in_string = !in_string;
-                    cleaned.push(byte);
-                    continue;
-                }
-
-                if !in_string && ws_positions.binary_search(&i).is_ok() {
-                    // Skip whitespace outside strings
-                    continue;
-                }
-
-                cleaned.push(byte);
-            }
-
-            serde_json::from_slice(&cleaned)
-        }
+        // The parser skips whitespace itself; removing it beforehand would join separate tokens
+        serde_json::from_slice(input)
     } else {
         // Fallback to standard parsing
         serde_json::from_slice(input)
-- 
2.43.0


From 5154a41b37b778906b2e9356eba009917b3903af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:33 +0000
Subject: [PATCH 05/68] fix: pretty_print_fast corrupted non-ASCII strings

---
 src/utils/json_simd.rs | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/utils/json_simd.rs b/src/utils/json_simd.rs
index 12fa0c2..77725ac 100644
--- a/src/utils/json_simd.rs
+++ b/src/utils/json_simd.rs
@@ -81,7 +81,7 @@ pub fn pretty_print_fast(value: &Value) -> Result<String, JsonError> {
             let escapes = unsafe { crate::simd::json::find_escapes_simd(&compact) };
 
             // Allocate with estimated size
-            let mut result = String::with_capacity(compact.len() * 2);
+            let mut result: Vec<u8> = Vec::with_capacity(compact.len() * 2);
             let mut indent = 0;
             let mut in_string = false;
             let mut escape_next = false;
@@ -89,7 +89,7 @@ pub fn pretty_print_fast(value: &Value) -> Result<String, JsonError> {
             for (i, &byte) in compact.iter().enumerate() {
                 if escape_next {
                     escape_next = false;
-                    result.push(byte as char);
+                    result.push(byte);
                     continue;
                 }
 
@@ -104,38 +104,40 @@ pub fn pretty_print_fast(value: &Value) -> Result<String, JsonError> {
                 if !in_string {
                     match byte {
                         b'{' | b'[' => {
-                            result.push(byte as char);
+                            result.push(byte);
                             indent += 2;
-                            result.push('\n');
-                            result.push_str(&" ".repeat(indent));
+                            result.push(b'\n');
+                            result.extend_from_slice(" ".repeat(indent).as_bytes());
                         },
                         b'}' | b']' => {
                             indent = indent.saturating_sub(2);
-                            result.push('\n');
-                            result.push_str(&" ".repeat(indent));
-                            result.push(byte as char);
+                            result.push(b'\n');
+                            result.extend_from_slice(" ".repeat(indent).as_bytes());
+                            result.push(byte);
                         },
                         b',' => {
-                            result.push(',');
-                            result.push('\n');
-                            result.push_str(&" ".repeat(indent));
+                            result.push(b',');
+                            result.push(b'\n');
+                            result.extend_from_slice(" ".repeat(indent).as_bytes());
                         },
                         b':' => {
-                            result.push_str(": ");
+                            result.extend_from_slice(b": ");
                         },
                         b' ' | b'\t' | b'\n' | b'\r' => {
                             // Skip whitespace
                         },
                         _ => {
-                            result.push(byte as char);
+                            result.push(byte);
                         },
                     }
                 } else {
-                    result.push(byte as char);
+                    result.push(byte);
                 }
             }
 
-            return Ok(result);
+            return String::from_utf8(result).map_err(|e| {
+                serde_json::Error::io(std::io::Error::new(std::io::ErrorKind::InvalidData, e))
+            });
         }
     }
 
-- 
2.43.0


From 2bba7ac4a22a6dff01b45cd25cde7b0fbff0a025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:11 +0000
Subject: [PATCH 06/68] fix: elicitation requests were sent under a method name
 the parser does not know

---
 src/shared/protocol_helpers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shared/protocol_helpers.rs b/src/shared/protocol_helpers.rs
index 36ed2b9..33e7069 100644
--- a/src/shared/protocol_helpers.rs
+++ b/src/shared/protocol_helpers.rs
@@ -195,7 +195,7 @@ fn server_request_to_jsonrpc(req: ServerRequest) -> (String, Option<Value>) {
         ),
         ServerRequest::ListRoots => ("roots/list".to_string(), None),
         ServerRequest::ElicitInput(params) => (
-            "elicitation/input".to_string(),
+            "elicitation/elicitInput".to_string(),
             Some(serde_json::to_value(params).unwrap()),
         ),
     }
-- 
2.43.0


From 8ac9ceb1bcbbe019535df3fedcf9b2e383bd41b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:32 +0000
Subject: [PATCH 07/68] fix: SSE parser took a byte offset for a character
 offset when stripping CR

---
 src/shared/sse_parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shared/sse_parser.rs b/src/shared/sse_parser.rs
index 5a38d7f..714900b 100644
--- a/src/shared/sse_parser.rs
+++ b/src/shared/sse_parser.rs
@@ -171,7 +171,7 @@ impl SseParser {
         let mut events = Vec::new();
 
         while let Some(line_end) = self.buffer.find('\n') {
-            let line = if line_end > 0 && self.buffer.chars().nth(line_end - 1) == Some('\r') {
+            let line = if line_end > 0 && self.buffer.as_bytes()[line_end - 1] == b'\r' {
                 self.buffer[..line_end - 1].to_string()
             } else {
                 self.buffer[..line_end].to_string()
-- 
2.43.0


From cc0d84a7e245f8fd61f130acb385a37269321e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:32 +0000
Subject: [PATCH 08/68] fix: SSE parser dropped empty data lines and events
 with empty data

---
 src/shared/sse_parser.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/shared/sse_parser.rs b/src/shared/sse_parser.rs
index 714900b..594e604 100644
--- a/src/shared/sse_parser.rs
+++ b/src/shared/sse_parser.rs
@@ -217,11 +217,11 @@ impl SseParser {
                 self.current_event.event = Some(value.to_string());
             },
             "data" => {
-                if self.current_event.data.is_empty() {
-                    self.current_event.data = value.to_string();
+                if let Some(data) = &mut self.current_event.data {
+                    data.push('\n');
+                    data.push_str(value);
                 } else {
-                    self.current_event.data.push('\n');
-                    self.current_event.data.push_str(value);
+                    self.current_event.data = Some(value.to_string());
                 }
             },
             "id" => {
@@ -245,11 +245,11 @@ impl SseParser {
 
     /// Dispatch the current event if it has data.
     fn dispatch_event(&mut self) -> Option<SseEvent> {
-        if self.current_event.data.is_empty() {
+        let Some(data) = self.current_event.data.take() else {
             // No data, don't dispatch
             self.current_event = EventBuilder::new();
             return None;
-        }
+        };
 
         let event = SseEvent {
             id: self
@@ -258,7 +258,7 @@ impl SseParser {
                 .clone()
                 .or_else(|| self.last_event_id.clone()),
             event: self.current_event.event.clone(),
-            data: self.current_event.data.clone(),
+            data,
             retry: self.current_event.retry,
         };
 
@@ -289,7 +289,7 @@ impl Default for SseParser {
 struct EventBuilder {
     id: Option<String>,
     event: Option<String>,
-    data: String,
+    data: Option<String>,
     retry: Option<u64>,
 }
 
@@ -298,7 +298,7 @@ impl EventBuilder {
         Self {
             id: None,
             event: None,
-            data: String::new(),
+            data: None,
             retry: None,
         }
     }
-- 
2.43.0


From 4759925bf8e5800361647c3657943672ff19566f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:32 +0000
Subject: [PATCH 09/68] fix: SSE parser remembered the id of an event that was
 never completed

---
 src/shared/sse_parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/shared/sse_parser.rs b/src/shared/sse_parser.rs
index 594e604..ba77172 100644
--- a/src/shared/sse_parser.rs
+++ b/src/shared/sse_parser.rs
@@ -227,7 +227,6 @@ impl SseParser {
             "id" => {
                 if !value.contains('\0') {
                     self.current_event.id = Some(value.to_string());
-                    self.last_event_id = Some(value.to_string());
                 }
             },
             "retry" => {
@@ -245,6 +244,11 @@ impl SseParser {
 
     /// Dispatch the current event if it has data.
     fn dispatch_event(&mut self) -> Option<SseEvent> {
+        // An id only counts once its event is complete: resuming from the id of an event that was
+        // cut off would skip that event
+        if self.current_event.id.is_some() {
+            self.last_event_id.clone_from(&self.current_event.id);
+        }
         let Some(data) = self.current_event.data.take() else {
             // No data, don't dispatch
             self.current_event = EventBuilder::new();
-- 
2.43.0


From 296ebe3c439a4e9cf2c520ac6041626b217c0378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:32 +0000
Subject: [PATCH 10/68] fix: SSE parser accepted a signed retry value

---
 src/shared/sse_parser.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/shared/sse_parser.rs b/src/shared/sse_parser.rs
index ba77172..8e7c1b5 100644
--- a/src/shared/sse_parser.rs
+++ b/src/shared/sse_parser.rs
@@ -230,8 +230,11 @@ impl SseParser {
                 }
             },
             "retry" => {
-                if let Ok(retry) = value.parse::<u64>() {
-                    self.current_event.retry = Some(retry);
+                // Digits only (`parse` alone would also accept a sign)
+                if value.bytes().all(|b| b.is_ascii_digit()) {
+                    if let Ok(retry) = value.parse::<u64>() {
+                        self.current_event.retry = Some(retry);
+                    }
                 }
             },
             _ => {
-- 
2.43.0


From b2633778c59f20a8a07c630dc46687e4972301b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:32 +0000
Subject: [PATCH 11/68] fix: SSE rendering lost empty data and trailing
 newlines

---
 src/shared/sse_parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shared/sse_parser.rs b/src/shared/sse_parser.rs
index 8e7c1b5..0da4eed 100644
--- a/src/shared/sse_parser.rs
+++ b/src/shared/sse_parser.rs
@@ -103,7 +103,7 @@ impl fmt::Display for SseEvent {
         }
 
         // Split data by newlines and write each line
-        for line in self.data.lines() {
+        for line in self.data.split('\n') {
             writeln!(f, "data: {}", line)?;
         }
 
-- 
2.43.0


From 61503961a73cf00c49470196cde8f66bbb9f1fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:43 +0000
Subject: [PATCH 12/68] fix: URI template reserved and fragment expansion did
 not encode correctly

---
 src/shared/uri_template.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/shared/uri_template.rs b/src/shared/uri_template.rs
index 3a6d111..1dd5283 100644
--- a/src/shared/uri_template.rs
+++ b/src/shared/uri_template.rs
@@ -328,19 +328,20 @@ impl UriTemplate {
     /// Expand multiple variables with an operator
     fn expand_multiple(op: Operator, specs: &[VarSpec], vars: &HashMap<String, String>) -> String {
         let mut parts = Vec::new();
+        let allow_reserved = matches!(op, Operator::Reserved | Operator::Fragment);
 
         for spec in specs {
             if let Some(value) = vars.get(&spec.name) {
                 let encoded = match spec.modifier {
                     Some(Modifier::Prefix(len)) => {
                         let truncated = value.chars().take(len).collect::<String>();
-                        Self::encode_value(&truncated, op == Operator::Reserved)
+                        Self::encode_value(&truncated, allow_reserved)
                     },
                     Some(Modifier::Explode) => {
                         // For simplicity, treat explode as normal expansion
-                        Self::encode_value(value, op == Operator::Reserved)
+                        Self::encode_value(value, allow_reserved)
                     },
-                    None => Self::encode_value(value, op == Operator::Reserved),
+                    None => Self::encode_value(value, allow_reserved),
                 };
 
                 match op {
@@ -392,8 +393,24 @@ impl UriTemplate {
     /// Encode a value for URI inclusion
     fn encode_value(value: &str, allow_reserved: bool) -> String {
         if allow_reserved {
-            // Allow reserved characters
-            value.to_string()
+            // Allow reserved characters and existing percent-encoded triplets, encode the rest
+            let bytes = value.as_bytes();
+            let mut encoded = String::with_capacity(value.len());
+            for (i, &byte) in bytes.iter().enumerate() {
+                let is_triplet = byte == b'%'
+                    && bytes.len() > i + 2
+                    && bytes[i + 1].is_ascii_hexdigit()
+                    && bytes[i + 2].is_ascii_hexdigit();
+                if is_triplet
+                    || byte.is_ascii_alphanumeric()
+                    || b"-._~:/?#[]@!$&'()*+,;=".contains(&byte)
+                {
+                    encoded.push(byte as char);
+                } else {
+                    write!(encoded, "%{:02X}", byte).unwrap();
+                }
+            }
+            encoded
         } else {
             // Percent-encode reserved characters
             urlencoding::encode(value).into_owned()
-- 
2.43.0


From e4d06f3459e17e39f09d31dd4b666ece4e48002a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:43 +0000
Subject: [PATCH 13/68] fix: URI template path parameters kept = before an
 empty value

---
 src/shared/uri_template.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/shared/uri_template.rs b/src/shared/uri_template.rs
index 1dd5283..cf97cf7 100644
--- a/src/shared/uri_template.rs
+++ b/src/shared/uri_template.rs
@@ -354,6 +354,10 @@ impl UriTemplate {
                     Operator::PathSegment => {
                         parts.push(encoded);
                     },
+                    // RFC 6570, 3.2.7: no "=" after a path-style parameter with an empty value
+                    Operator::PathParameter if encoded.is_empty() => {
+                        parts.push(spec.name.clone());
+                    },
                     Operator::PathParameter | Operator::Query | Operator::QueryContinuation => {
                         parts.push(format!("{}={}", spec.name, encoded));
                     },
-- 
2.43.0


From 5072f72b6c6e48730f5fed36aadc66801b2dbc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:44 +0000
Subject: [PATCH 14/68] fix: matching a URI template returned values still
 percent-encoded

---
 src/shared/uri_template.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/shared/uri_template.rs b/src/shared/uri_template.rs
index cf97cf7..f4372a9 100644
--- a/src/shared/uri_template.rs
+++ b/src/shared/uri_template.rs
@@ -445,7 +445,11 @@ impl UriTemplate {
         for expr in &self.expressions {
             if let Some(var_name) = Self::get_var_name(expr) {
                 if let Some(value) = captures.get(capture_index) {
-                    vars.insert(var_name, value.as_str().to_string());
+                    // Undo the percent-encoding applied on expansion
+                    let value = value.as_str();
+                    let decoded = urlencoding::decode(value)
+                        .map_or_else(|_| value.to_string(), |v| v.into_owned());
+                    vars.insert(var_name, decoded);
                 }
                 capture_index += 1;
             }
-- 
2.43.0


From 93d87b8896a4eff13a70b5794c4511c1ae68a284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:50 +0000
Subject: [PATCH 15/68] fix: a timed-out batch item was answered under the id
 "null"

---
 src/utils/parallel_batch.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/parallel_batch.rs b/src/utils/parallel_batch.rs
index 8422dc2..cf03980 100644
--- a/src/utils/parallel_batch.rs
+++ b/src/utils/parallel_batch.rs
@@ -147,6 +147,7 @@ where
                 let _permit = semaphore.acquire().await.unwrap();
 
                 // Create the handler future
+                let request_id = request.id.clone();
                 let handler_future = handler(request);
 
                 // Apply timeout if configured
@@ -162,7 +163,7 @@ where
                             // Create timeout error response
                             JSONRPCResponse {
                                 jsonrpc: "2.0".to_string(),
-                                id: crate::types::RequestId::from("null"),
+                                id: request_id,
                                 payload: crate::types::jsonrpc::ResponsePayload::Error(
                                     crate::types::jsonrpc::JSONRPCError {
                                         code: -32603,
-- 
2.43.0


From 59f604fd5ca7f4253719a2b996fe66e3e62f8f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:50 +0000
Subject: [PATCH 16/68] fix: one undecodable message ended the server's message
 loop

---
 src/server/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/server/mod.rs b/src/server/mod.rs
index fb83de4..41f46a4 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -421,6 +421,12 @@ impl Server {
             loop {
                 let message = match Self::receive_message_from_transport(&transport).await {
                     Ok(msg) => msg,
+                    // One undecodable message must not take the whole connection down
+                    Err(Error::Transport(crate::error::TransportError::InvalidMessage(e))) => {
+                        Self::log_error(&format!("Ignoring invalid message: {}", e)).await;
+                        tokio::task::yield_now().await;
+                        continue;
+                    },
                     Err(e) => {
                         Self::log_error(&format!("Transport receive error: {}", e)).await;
                         break;
-- 
2.43.0


From c02e878bb1b6907b76249052b638b936e103d082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:50 +0000
Subject: [PATCH 17/68] fix: an empty batch turned the average processing time
 into NaN

---
 src/utils/parallel_batch.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/utils/parallel_batch.rs b/src/utils/parallel_batch.rs
index cf03980..c9c5e16 100644
--- a/src/utils/parallel_batch.rs
+++ b/src/utils/parallel_batch.rs
@@ -432,11 +432,13 @@ impl BatchProcessor {
         }
 
         // Update average processing time
-        let total_time = metrics.avg_processing_time_ms.mul_add(
-            (metrics.total_requests - request_count) as f64,
-            processing_time_ms as f64,
-        );
-        metrics.avg_processing_time_ms = total_time / metrics.total_requests as f64;
+        if request_count > 0 {
+            let total_time = metrics.avg_processing_time_ms.mul_add(
+                (metrics.total_requests - request_count) as f64,
+                processing_time_ms as f64,
+            );
+            metrics.avg_processing_time_ms = total_time / metrics.total_requests as f64;
+        }
 
         Ok(responses)
     }
-- 
2.43.0


From 9a45afc6cbc263d16374687542f06c6729e7caff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:50 +0000
Subject: [PATCH 18/68] fix: rate_limited_processor exceeded its rate by the
 square

---
 src/utils/parallel_batch.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/parallel_batch.rs b/src/utils/parallel_batch.rs
index c9c5e16..841ed9f 100644
--- a/src/utils/parallel_batch.rs
+++ b/src/utils/parallel_batch.rs
@@ -494,7 +494,8 @@ pub fn rate_limited_processor(
     max_requests_per_second: usize,
     config: ParallelBatchConfig,
 ) -> impl Fn(Vec<JSONRPCRequest>) -> BatchProcessingFuture {
-    let rate_limiter = Arc::new(tokio::sync::Semaphore::new(max_requests_per_second));
+    // One request per interval: with more permits they would run out their intervals together
+    let rate_limiter = Arc::new(tokio::sync::Semaphore::new(1));
     let interval = std::time::Duration::from_secs(1) / max_requests_per_second as u32;
 
     move |requests| {
-- 
2.43.0


From 90e260345bad96bf0c0533e2c6365ad305affd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:16 +0000
Subject: [PATCH 19/68] fix: the client refused create_message even when the
 server supports sampling

---
 src/client/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index 6fb240e..dff097b 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -1298,6 +1298,10 @@ impl<T: Transport> Client<T> {
                 .server_capabilities
                 .as_ref()
                 .is_some_and(|c| c.completions.is_some()),
+            "sampling" => self
+                .server_capabilities
+                .as_ref()
+                .is_some_and(|c| c.sampling.is_some()),
             _ => false,
         };
 
-- 
2.43.0


From 43fe33d9e8d25a38c5512e4a856c9661b139a13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:16 +0000
Subject: [PATCH 20/68] fix: the client counted a handshake as done although
 sending initialized had failed

---
 src/client/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index dff097b..f3643b7 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -275,15 +275,15 @@ impl<T: Transport> Client<T> {
                         )));
                     }
 
+                    // Send initialized notification
+                    self.send_notification(Notification::Client(ClientNotification::Initialized))
+                        .await?;
+
                     self.server_capabilities = Some(init_result.capabilities.clone());
                     self.server_version = Some(init_result.server_info.clone());
                     self.instructions.clone_from(&init_result.instructions);
                     self.initialized = true;
 
-                    // Send initialized notification
-                    self.send_notification(Notification::Client(ClientNotification::Initialized))
-                        .await?;
-
                     Ok(init_result)
                 } else {
                     Err(Error::parse("Invalid initialize result format"))
-- 
2.43.0


From 9c9296daf38f6d3c50f802b941f629e2bc66ac7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:16 +0000
Subject: [PATCH 21/68] fix: a notification from the server failed the client
 call in progress

---
 src/client/mod.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index f3643b7..3a63f4e 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -1337,18 +1337,19 @@ impl<T: Transport> Client<T> {
         self.transport.write().await.send(message).await?;
 
         // Wait for response (this would be implemented with proper response routing)
-        // For now, receive next message and assume it's our response
-        let response_message = self.transport.write().await.receive().await?;
+        // For now, receive next response and assume it's ours
+        let response = loop {
+            // Notifications may arrive at any time, also while a response is awaited
+            let message = self.transport.write().await.receive().await?;
+            if let crate::types::TransportMessage::Response(response) = message {
+                break response;
+            }
+        };
 
         // Remove from active requests
         self.active_requests.write().await.remove(&request_id);
 
-        match response_message {
-            crate::types::TransportMessage::Response(response) => Ok(response),
-            _ => Err(Error::protocol_msg(
-                "Expected response, got different message type",
-            )),
-        }
+        Ok(response)
     }
 
     /// Send a notification.
-- 
2.43.0


From a5efabd53c15d32852a6f1b71c586093b063a04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:16 +0000
Subject: [PATCH 22/68] fix: a client call could return the response to another
 request of that client

---
 src/client/mod.rs | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index 3a63f4e..d85dfbb 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -95,6 +95,8 @@ pub struct Client<T: Transport> {
     notification_tx: Option<mpsc::Sender<Notification>>,
     /// Active request tracking for cancellation
     active_requests: Arc<RwLock<HashMap<RequestId, oneshot::Sender<()>>>>,
+    /// Responses received by one call that belong to another request
+    unclaimed: Arc<RwLock<HashMap<RequestId, crate::types::JSONRPCResponse>>>,
 }
 
 impl<T: Transport> std::fmt::Debug for Client<T> {
@@ -163,6 +165,7 @@ impl<T: Transport> Client<T> {
             info: client_info,
             notification_tx: None,
             active_requests: Arc::new(RwLock::new(HashMap::new())),
+            unclaimed: Arc::new(RwLock::new(HashMap::new())),
         }
     }
 
@@ -207,6 +210,7 @@ impl<T: Transport> Client<T> {
             info: client_info,
             notification_tx: None,
             active_requests: Arc::new(RwLock::new(HashMap::new())),
+            unclaimed: Arc::new(RwLock::new(HashMap::new())),
         }
     }
 
@@ -1334,14 +1338,29 @@ impl<T: Transport> Client<T> {
             request,
         };
 
-        self.transport.write().await.send(message).await?;
+        if let Err(e) = self.transport.write().await.send(message).await {
+            self.active_requests.write().await.remove(&request_id);
+            return Err(e);
+        }
 
-        // Wait for response (this would be implemented with proper response routing)
-        // For now, receive next response and assume it's ours
+        // Wait for response
         let response = loop {
+            let mut transport = self.transport.write().await;
+            // Another call on this connection may have received our response
+            if let Some(response) = self.unclaimed.write().await.remove(&request_id) {
+                break response;
+            }
             // Notifications may arrive at any time, also while a response is awaited
-            let message = self.transport.write().await.receive().await?;
+            let message = transport.receive().await?;
             if let crate::types::TransportMessage::Response(response) = message {
+                // Leave a response to another request of this client to its caller
+                if response.id != request_id
+                    && self.active_requests.read().await.contains_key(&response.id)
+                {
+                    let id = response.id.clone();
+                    self.unclaimed.write().await.insert(id, response);
+                    continue;
+                }
                 break response;
             }
         };
@@ -1453,6 +1472,7 @@ impl<T: Transport> Clone for Client<T> {
             info: self.info.clone(),
             notification_tx: self.notification_tx.clone(),
             active_requests: self.active_requests.clone(),
+            unclaimed: self.unclaimed.clone(),
         }
     }
 }
-- 
2.43.0


From e922943d1af4c924f8ff6daed81597e1da28d306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:59 +0000
Subject: [PATCH 23/68] fix: flushing the notification debouncer empties it, so
 nothing is sent twice

---
 src/server/notification_debouncer.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/server/notification_debouncer.rs b/src/server/notification_debouncer.rs
index 0133a34..2cb26a1 100644
--- a/src/server/notification_debouncer.rs
+++ b/src/server/notification_debouncer.rs
@@ -296,15 +296,15 @@ async fn flush_all(
     pending: &Arc<RwLock<HashMap<String, PendingNotification>>>,
     output_tx: &mpsc::Sender<ServerNotification>,
 ) {
-    let pending_map = pending.write().await;
+    let mut pending_map = pending.write().await;
 
-    for (_, pending_notif) in pending_map.iter() {
+    for (_, pending_notif) in pending_map.drain() {
         // Send the main notification
-        let _ = output_tx.send(pending_notif.notification.clone()).await;
+        let _ = output_tx.send(pending_notif.notification).await;
 
         // Send any merged notifications
-        for merged in &pending_notif.mergeable {
-            let _ = output_tx.send(merged.clone()).await;
+        for merged in pending_notif.mergeable {
+            let _ = output_tx.send(merged).await;
         }
     }
 }
-- 
2.43.0


From 8ab9d1c1b92399c9ca09529d6c581c3da1128aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:01 +0000
Subject: [PATCH 24/68] fix: debounce log messages and root list changes as
 separate subjects

---
 src/server/notification_debouncer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/server/notification_debouncer.rs b/src/server/notification_debouncer.rs
index 2cb26a1..1fd1002 100644
--- a/src/server/notification_debouncer.rs
+++ b/src/server/notification_debouncer.rs
@@ -229,6 +229,8 @@ fn notification_key(notification: &ServerNotification) -> String {
         ServerNotification::ResourcesChanged => "resource_list_changed".to_string(),
         ServerNotification::ToolsChanged => "tool_list_changed".to_string(),
         ServerNotification::PromptsChanged => "prompt_list_changed".to_string(),
+        ServerNotification::RootsListChanged => "roots_list_changed".to_string(),
+        ServerNotification::LogMessage(_) => "log".to_string(),
         #[allow(unreachable_patterns)]
         _ => "unknown".to_string(),
     }
-- 
2.43.0


From 1f6706b4dc459732338d1d6dc7386be8c5ae4acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:03 +0000
Subject: [PATCH 25/68] fix: per-type debounce intervals apply to notifications
 of that type

---
 src/server/notification_debouncer.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/server/notification_debouncer.rs b/src/server/notification_debouncer.rs
index 1fd1002..68494c5 100644
--- a/src/server/notification_debouncer.rs
+++ b/src/server/notification_debouncer.rs
@@ -236,6 +236,19 @@ fn notification_key(notification: &ServerNotification) -> String {
     }
 }
 
+/// Name of a notification's type, as used in `type_intervals`.
+fn notification_type(notification: &ServerNotification) -> &'static str {
+    match notification {
+        ServerNotification::Progress(_) => "progress",
+        ServerNotification::ResourceUpdated(_) => "resources/updated",
+        ServerNotification::ResourcesChanged => "resources/list_changed",
+        ServerNotification::ToolsChanged => "tools/list_changed",
+        ServerNotification::PromptsChanged => "prompts/list_changed",
+        ServerNotification::RootsListChanged => "roots/list_changed",
+        ServerNotification::LogMessage(_) => "log",
+    }
+}
+
 /// Flush pending notifications that are ready
 #[allow(clippy::cognitive_complexity)]
 async fn flush_pending(
@@ -254,6 +267,11 @@ async fn flush_pending(
             let interval = config
                 .type_intervals
                 .get(key)
+                .or_else(|| {
+                    config
+                        .type_intervals
+                        .get(notification_type(&pending_notif.notification))
+                })
                 .copied()
                 .unwrap_or(config.default_interval);
 
-- 
2.43.0


From 4ab364043fbdb303e6a824b3a1db2c65a2f4a8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:05 +0000
Subject: [PATCH 26/68] fix: a debounced notification waiting for channel room
 is not lost by a flush

---
 src/utils/batching.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/utils/batching.rs b/src/utils/batching.rs
index bca427a..f78970c 100644
--- a/src/utils/batching.rs
+++ b/src/utils/batching.rs
@@ -356,15 +356,16 @@ impl MessageDebouncer {
         let handle = tokio::spawn(async move {
             sleep(wait_time).await;
 
-            // Send the notification
-            let notification = {
-                let mut pending = pending.lock().await;
-                pending.remove(&key_clone)
-            };
-
-            if let Some(notification) = notification {
-                debug!("Sending debounced notification: {}", key_clone);
-                let _ = tx.send(notification).await;
+            // Wait for room before taking the notification, so that a flush cannot
+            // abort this task while it holds the only copy
+            if let Ok(permit) = tx.reserve().await {
+                let notification = pending.lock().await.remove(&key_clone);
+
+                // Send the notification
+                if let Some(notification) = notification {
+                    debug!("Sending debounced notification: {}", key_clone);
+                    permit.send(notification);
+                }
             }
 
             // Remove timer handle
-- 
2.43.0


From f951c008bb6e2b3c29c97b23db15c54340e43810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:08 +0000
Subject: [PATCH 27/68] fix: looking up a session no longer revives one
 destroyed concurrently

---
 src/shared/session.rs | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/shared/session.rs b/src/shared/session.rs
index 180f3c5..3a40ec9 100644
--- a/src/shared/session.rs
+++ b/src/shared/session.rs
@@ -172,18 +172,12 @@ impl SessionManager {
 
     /// Get a session by ID.
     pub fn get_session(&self, session_id: &str) -> Option<Session> {
-        self.sessions.get(session_id).map(|entry| {
-            let mut session = entry.clone();
+        self.sessions.get_mut(session_id).map(|mut entry| {
+            // Update last activity in place, so that a session destroyed
+            // concurrently is not put back
+            entry.last_activity = Utc::now();
 
-            // Update last activity
-            session.last_activity = Utc::now();
-
-            // Update in storage
-            drop(entry);
-            self.sessions
-                .insert(session_id.to_string(), session.clone());
-
-            session
+            entry.clone()
         })
     }
 
-- 
2.43.0


From 27cebd1b8de64264ba430ab2d371dbeadba499f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:10 +0000
Subject: [PATCH 28/68] fix: concurrent session creation no longer exceeds the
 session limit

---
 src/shared/session.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/shared/session.rs b/src/shared/session.rs
index 3a40ec9..d31a73d 100644
--- a/src/shared/session.rs
+++ b/src/shared/session.rs
@@ -89,6 +89,9 @@ pub struct SessionManager {
 
     /// Session event callbacks.
     callbacks: Arc<SessionCallbacks>,
+
+    /// Serialises the limit check and insertion of new sessions
+    create_lock: parking_lot::Mutex<()>,
 }
 
 impl std::fmt::Debug for SessionManager {
@@ -134,11 +137,14 @@ impl SessionManager {
             sessions: Arc::new(DashMap::new()),
             config,
             callbacks: Arc::new(SessionCallbacks::default()),
+            create_lock: parking_lot::Mutex::new(()),
         }
     }
 
     /// Create a new session.
     pub fn create_session(&self, client_info: Option<ClientInfo>) -> Result<Session> {
+        let creating = self.create_lock.lock();
+
         // Check session limit
         if self.sessions.len() >= self.config.max_sessions {
             return Err(Error::protocol(
@@ -160,6 +166,7 @@ impl SessionManager {
         };
 
         self.sessions.insert(session.id.clone(), session.clone());
+        drop(creating);
 
         // Call creation callback
         if let Some(callback) = &self.callbacks.on_create {
-- 
2.43.0


From 755a38d44e3e76032b1b6ff5ab148dc705eef564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:34 +0000
Subject: [PATCH 29/68] fix: a later batch of messages cannot overtake an
 earlier one

---
 src/utils/batching.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/utils/batching.rs b/src/utils/batching.rs
index f78970c..753df18 100644
--- a/src/utils/batching.rs
+++ b/src/utils/batching.rs
@@ -116,13 +116,11 @@ impl MessageBatcher {
 
         if pending.len() >= self.config.max_batch_size {
             let batch = std::mem::take(&mut *pending);
-            drop(pending);
+            // Still holding the lock, so that no later batch can overtake this one
             self.tx
                 .send(batch)
                 .await
                 .map_err(|_| crate::error::Error::Internal("Failed to send batch".to_string()))?;
-        } else {
-            drop(pending);
         }
 
         Ok(())
@@ -168,7 +166,7 @@ impl MessageBatcher {
                 let mut pending_guard = pending.lock().await;
                 if !pending_guard.is_empty() {
                     let batch = std::mem::take(&mut *pending_guard);
-                    drop(pending_guard);
+                    // Still holding the lock, as in `add`
                     if tx.send(batch).await.is_err() {
                         break;
                     }
-- 
2.43.0


From 8d7c350fd5ce4400f201d15f1f930f50eae146cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:34 +0000
Subject: [PATCH 30/68] fix: a later batch of notifications cannot overtake an
 earlier one

---
 src/server/notification_debouncer.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/server/notification_debouncer.rs b/src/server/notification_debouncer.rs
index 68494c5..ab91af8 100644
--- a/src/server/notification_debouncer.rs
+++ b/src/server/notification_debouncer.rs
@@ -370,9 +370,8 @@ impl NotificationBatcher {
         // Check if batch is full
         if batch.len() >= self.max_batch_size {
             let full_batch = std::mem::take(batch);
-            drop(batches);
 
-            // Send the batch
+            // Send the batch, still holding the lock so that no later one can overtake it
             let _ = self.output_tx.send(full_batch).await;
         } else {
             // Schedule timeout for this batch
-- 
2.43.0


From f12a1f0db3e6dfc5171ec6cd405fcc675df43e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:04 +0000
Subject: [PATCH 31/68] fix: a non-ASCII traceparent header no longer panics

---
 src/shared/context.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/shared/context.rs b/src/shared/context.rs
index c7a53bb..d8c41fa 100644
--- a/src/shared/context.rs
+++ b/src/shared/context.rs
@@ -245,7 +245,7 @@ impl RequestContext {
             if parts.len() >= 4 {
                 // Restore UUIDs from hex format
                 let trace_id_hex = parts[1];
-                let trace_id = if trace_id_hex.len() == 32 {
+                let trace_id = if trace_id_hex.len() == 32 && trace_id_hex.is_ascii() {
                     format!(
                         "{}-{}-{}-{}-{}",
                         &trace_id_hex[0..8],
@@ -259,7 +259,7 @@ impl RequestContext {
                 };
 
                 let span_id_hex = parts[2];
-                let span_id = if span_id_hex.len() == 16 {
+                let span_id = if span_id_hex.len() == 16 && span_id_hex.is_ascii() {
                     format!(
                         "{}-{}-{}-{}-{}",
                         &span_id_hex[0..8],
-- 
2.43.0


From 546e6dfbbd7c75778b55c93bb77e1f3fb50f8486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:04 +0000
Subject: [PATCH 32/68] fix: a context with a short span id can be written to
 headers

---
 src/shared/context.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shared/context.rs b/src/shared/context.rs
index d8c41fa..f7c97cd 100644
--- a/src/shared/context.rs
+++ b/src/shared/context.rs
@@ -212,7 +212,7 @@ impl RequestContext {
         // Standard trace context headers
         // Trace ID should be 32 hex chars, Span ID should be 16 hex chars
         let trace_id_hex = self.trace_id.replace('-', "");
-        let span_id_hex = self.span_id.replace('-', "")[..16].to_string();
+        let span_id_hex: String = self.span_id.replace('-', "").chars().take(16).collect();
         headers.insert(
             "traceparent".to_string(),
             format!("00-{}-{}-01", trace_id_hex, span_id_hex),
-- 
2.43.0


From 697989180807d0a0c7e2c7445313ad27cf262071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:13 +0000
Subject: [PATCH 33/68] fix: string request ids survive the trip through
 headers

---
 src/shared/context.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/shared/context.rs b/src/shared/context.rs
index f7c97cd..d9e28dc 100644
--- a/src/shared/context.rs
+++ b/src/shared/context.rs
@@ -272,13 +272,13 @@ impl RequestContext {
                     span_id_hex.to_string()
                 };
 
-                let request_id = headers
-                    .get("x-request-id")
-                    .and_then(|id| id.parse::<i64>().ok())
-                    .map_or_else(
-                        || RequestId::from(uuid::Uuid::new_v4().as_u128() as i64),
-                        RequestId::from,
-                    );
+                let request_id = headers.get("x-request-id").map_or_else(
+                    || RequestId::from(uuid::Uuid::new_v4().as_u128() as i64),
+                    |id| match id.parse::<i64>() {
+                        Ok(number) if number.to_string() == *id => RequestId::from(number),
+                        _ => RequestId::from(id.clone()),
+                    },
+                );
 
                 let mut context = Self::new(request_id);
                 context.trace_id = trace_id;
-- 
2.43.0


From f18df2b8b4e1ceee7e1da04161697fadbffd8671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:17 +0000
Subject: [PATCH 34/68] fix: jitter no longer pushes a reconnection delay over
 its maximum

---
 src/shared/reconnect.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/shared/reconnect.rs b/src/shared/reconnect.rs
index 4c61f29..bddb2f3 100644
--- a/src/shared/reconnect.rs
+++ b/src/shared/reconnect.rs
@@ -272,7 +272,8 @@ impl ReconnectManager {
             let random_factor = nanos as f64 / 1_000_000_000.0; // 0.0 to 1.0
             (random_factor * jitter_range).mul_add(2.0, -jitter_range)
         };
-        let final_delay = (capped_delay + jitter).max(0.0);
+        // Jitter must not push the delay over the maximum
+        let final_delay = (capped_delay + jitter).clamp(0.0, self.config.max_delay.as_secs_f64());
 
         Duration::from_secs_f64(final_delay)
     }
-- 
2.43.0


From b720e44ea5a48063b8220badfd55f8190e775355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:23 +0000
Subject: [PATCH 35/68] fix: closing the circuit no longer lifts the limit on
 reconnection attempts

---
 src/shared/reconnect.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/shared/reconnect.rs b/src/shared/reconnect.rs
index bddb2f3..01ae13b 100644
--- a/src/shared/reconnect.rs
+++ b/src/shared/reconnect.rs
@@ -227,7 +227,7 @@ impl ReconnectManager {
                             callback();
                         }
 
-                        true
+                        self.retries_left()
                     } else {
                         false
                     }
@@ -235,17 +235,17 @@ impl ReconnectManager {
                     false
                 }
             },
-            _ => {
-                // Check retry limit
-                if let Some(max_retries) = self.config.max_retries {
-                    self.retry_count.load(Ordering::Relaxed) < max_retries
-                } else {
-                    true
-                }
-            },
+            _ => self.retries_left(),
         }
     }
 
+    /// Check retry limit.
+    fn retries_left(&self) -> bool {
+        self.config
+            .max_retries
+            .map_or(true, |max| self.retry_count.load(Ordering::Relaxed) < max)
+    }
+
     /// Calculate next retry delay with exponential backoff and jitter.
     pub fn calculate_delay(&self) -> Duration {
         let retry_count = self.retry_count.load(Ordering::Relaxed);
-- 
2.43.0


From 1d0121828f4e7c86e772077eb15cc1b9c0d5b5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:29 +0000
Subject: [PATCH 36/68] fix: a late disconnection notice no longer closes an
 open circuit

---
 src/shared/reconnect.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/shared/reconnect.rs b/src/shared/reconnect.rs
index 01ae13b..763bc01 100644
--- a/src/shared/reconnect.rs
+++ b/src/shared/reconnect.rs
@@ -354,7 +354,10 @@ impl ReconnectManager {
             }
         }
 
-        *self.state.write().await = ConnectionState::Disconnected;
+        // Losing an old connection must not close an open circuit
+        if state != ConnectionState::CircuitOpen {
+            *self.state.write().await = ConnectionState::Disconnected;
+        }
         info!("Connection lost");
     }
 
-- 
2.43.0


From 44be949bfa534201cfee5c52fd13de892d08ddf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:52 +0000
Subject: [PATCH 37/68] fix: an open circuit breaker refuses an operation
 without running it

---
 src/error/recovery.rs | 50 +++++++++++++++++--------------------------
 1 file changed, 20 insertions(+), 30 deletions(-)

diff --git a/src/error/recovery.rs b/src/error/recovery.rs
index bc438c5..415f3a7 100644
--- a/src/error/recovery.rs
+++ b/src/error/recovery.rs
@@ -464,10 +464,24 @@ impl RecoveryExecutor {
         F: Fn() -> Fut,
         Fut: Future<Output = Result<serde_json::Value>>,
     {
+        // An open circuit breaker refuses the operation without running it
+        let breaker = self.circuit_breakers.read().await.get(operation_id).cloned();
+        if let Some(cb) = &breaker {
+            if !cb.allow_request().await {
+                if self.policy.log_attempts {
+                    warn!("Circuit breaker open for operation: {}", operation_id);
+                }
+                return Err(Error::protocol(
+                    ErrorCode::INTERNAL_ERROR,
+                    "Circuit breaker is open",
+                ));
+            }
+        }
+
         match operation().await {
             Ok(result) => {
                 // Record success if using circuit breaker
-                if let Some(cb) = self.circuit_breakers.read().await.get(operation_id) {
+                if let Some(cb) = &breaker {
                     cb.record_success().await;
                 }
                 Ok(result)
@@ -510,7 +524,6 @@ impl RecoveryExecutor {
                             *failure_threshold,
                             *success_threshold,
                             *timeout,
-                            operation,
                         )
                         .await
                     },
@@ -623,19 +636,14 @@ impl RecoveryExecutor {
         }
     }
 
-    async fn circuit_breaker<F, Fut>(
+    async fn circuit_breaker(
         &self,
-        _error: Error,
+        error: Error,
         operation_id: &str,
         failure_threshold: u32,
         success_threshold: u32,
         timeout: Duration,
-        operation: F,
-    ) -> Result<serde_json::Value>
-    where
-        F: Fn() -> Fut,
-        Fut: Future<Output = Result<serde_json::Value>>,
-    {
+    ) -> Result<serde_json::Value> {
         // Get or create circuit breaker
         let cb = {
             let mut breakers = self.circuit_breakers.write().await;
@@ -651,26 +659,8 @@ impl RecoveryExecutor {
                 .clone()
         };
 
-        if !cb.allow_request().await {
-            if self.policy.log_attempts {
-                warn!("Circuit breaker open for operation: {}", operation_id);
-            }
-            return Err(Error::protocol(
-                ErrorCode::INTERNAL_ERROR,
-                "Circuit breaker is open",
-            ));
-        }
-
-        match operation().await {
-            Ok(result) => {
-                cb.record_success().await;
-                Ok(result)
-            },
-            Err(e) => {
-                cb.record_failure().await;
-                Err(e)
-            },
-        }
+        cb.record_failure().await;
+        Err(error)
     }
 }
 
-- 
2.43.0


From 53f264478652783a461668b60d0d1a8b91b133a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:56 +0000
Subject: [PATCH 38/68] fix: the first retry delay is capped like the later
 ones

---
 src/error/recovery.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/error/recovery.rs b/src/error/recovery.rs
index 415f3a7..72bc306 100644
--- a/src/error/recovery.rs
+++ b/src/error/recovery.rs
@@ -465,7 +465,12 @@ impl RecoveryExecutor {
         Fut: Future<Output = Result<serde_json::Value>>,
     {
         // An open circuit breaker refuses the operation without running it
-        let breaker = self.circuit_breakers.read().await.get(operation_id).cloned();
+        let breaker = self
+            .circuit_breakers
+            .read()
+            .await
+            .get(operation_id)
+            .cloned();
         if let Some(cb) = &breaker {
             if !cb.allow_request().await {
                 if self.policy.log_attempts {
@@ -584,7 +589,7 @@ impl RecoveryExecutor {
         Fut: Future<Output = Result<serde_json::Value>>,
     {
         let mut last_error = error;
-        let mut current_delay = initial_delay;
+        let mut current_delay = initial_delay.min(max_delay);
 
         for attempt in 1..=attempts {
             if self.policy.log_attempts {
-- 
2.43.0


From e5646f88d3f9e779bb5c1404a8338ad07764c9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:59 +0000
Subject: [PATCH 39/68] fix: OAuth refresh is atomic and refresh and revocation
 take their locks in one order

---
 src/server/auth/oauth2.rs | 34 ++++++++++++++--------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/src/server/auth/oauth2.rs b/src/server/auth/oauth2.rs
index da623e3..1e0268c 100644
--- a/src/server/auth/oauth2.rs
+++ b/src/server/auth/oauth2.rs
@@ -640,37 +640,33 @@ impl OAuthProvider for InMemoryOAuthProvider {
     }
 
     async fn refresh_token(&self, refresh_token: &str) -> Result<AccessToken> {
+        // Both maps stay locked, in the order every method takes them, until the
+        // old pair is gone: a refresh token can be used only once.
+        let mut tokens = self.tokens.write().await;
+        let mut refresh_tokens = self.refresh_tokens.write().await;
+
         // Get associated access token
-        let refresh_tokens = self.refresh_tokens.read().await;
         let old_token = refresh_tokens
             .get(refresh_token)
             .ok_or_else(|| Error::protocol(ErrorCode::INVALID_REQUEST, "Invalid refresh_token"))?
             .clone();
 
-        // Get token info
-        let tokens = self.tokens.read().await;
+        // Get token info and remove old tokens
         let token_info = tokens
-            .get(&old_token)
+            .remove(&old_token)
             .ok_or_else(|| Error::protocol(ErrorCode::INVALID_REQUEST, "Invalid refresh_token"))?;
+        refresh_tokens.remove(refresh_token);
 
-        let client_id = token_info.client_id.clone();
-        let user_id = token_info.user_id.clone();
-        let scopes = token_info.scopes.clone();
-
-        drop(tokens);
         drop(refresh_tokens);
-
-        // Remove old tokens
-        let mut tokens = self.tokens.write().await;
-        tokens.remove(&old_token);
         drop(tokens);
 
-        let mut refresh_tokens = self.refresh_tokens.write().await;
-        refresh_tokens.remove(refresh_token);
-        drop(refresh_tokens);
-
         // Create new token
-        self.create_access_token(&client_id, &user_id, scopes).await
+        self.create_access_token(
+            &token_info.client_id,
+            &token_info.user_id,
+            token_info.scopes,
+        )
+        .await
     }
 
     async fn revoke_token(&self, token: &str) -> Result<()> {
@@ -679,12 +675,10 @@ impl OAuthProvider for InMemoryOAuthProvider {
         if tokens.remove(token).is_some() {
             return Ok(());
         }
-        drop(tokens);
 
         // Try to revoke as refresh token
         let mut refresh_tokens = self.refresh_tokens.write().await;
         if let Some(access_token) = refresh_tokens.remove(token) {
-            let mut tokens = self.tokens.write().await;
             tokens.remove(&access_token);
         }
 
-- 
2.43.0


From 84b14e3ddf18bc18bcfb979f60b41d8db116f990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:52 +0000
Subject: [PATCH 40/68] fix: unregistering a root removes that registration,
 not another of the same URI

---
 src/server/roots.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/server/roots.rs b/src/server/roots.rs
index 93522b3..3fb2107 100644
--- a/src/server/roots.rs
+++ b/src/server/roots.rs
@@ -35,7 +35,7 @@ pub struct RootsListChangedParams {}
 #[derive(Clone)]
 pub struct RootsManager {
     /// The registered roots.
-    roots: Arc<RwLock<Vec<Root>>>,
+    roots: Arc<RwLock<Vec<Arc<Root>>>>,
     /// Optional callback for sending notifications.
     notification_sender: Option<Arc<dyn Fn(ServerNotification) + Send + Sync>>,
 }
@@ -103,13 +103,13 @@ impl RootsManager {
             ));
         }
 
-        let root = Root {
+        let root = Arc::new(Root {
             uri: uri.clone(),
             name,
-        };
+        });
 
         {
-            self.roots.write().await.push(root);
+            self.roots.write().await.push(root.clone());
             info!("Registered root: {}", uri);
         }
 
@@ -128,7 +128,8 @@ impl RootsManager {
 
             tokio::spawn(async move {
                 let mut roots_guard = roots.write().await;
-                if let Some(pos) = roots_guard.iter().position(|r| r.uri == uri) {
+                // The same URI may be registered more than once: remove this registration
+                if let Some(pos) = roots_guard.iter().position(|r| Arc::ptr_eq(r, &root)) {
                     roots_guard.remove(pos);
                     drop(roots_guard);
                     info!("Unregistered root: {}", uri);
@@ -144,7 +145,8 @@ impl RootsManager {
 
     /// Get a copy of all registered roots.
     pub async fn get_roots(&self) -> Vec<Root> {
-        self.roots.read().await.clone()
+        let roots = self.roots.read().await;
+        roots.iter().map(|root| (**root).clone()).collect()
     }
 
     /// Request the list of roots from the client.
-- 
2.43.0


From 349fef982aefa325f4e24e4a42520b646c0a4dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:52 +0000
Subject: [PATCH 41/68] fix: Server::cancel_request reaches the handler of a
 request in progress

---
 src/server/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/server/mod.rs b/src/server/mod.rs
index 41f46a4..829d962 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -559,7 +559,13 @@ impl Server {
         id: RequestId,
         request: ClientRequest,
     ) -> JSONRPCResponse {
+        // Lets `cancel_request` reach the handler while the request is in progress
+        let token_id = id.to_string();
+        self.cancellation_manager
+            .create_token(token_id.clone())
+            .await;
         let result = self.process_client_request(id.clone(), request).await;
+        self.cancellation_manager.remove_token(&token_id).await;
         Self::create_response(id, result)
     }
 
-- 
2.43.0


From fa323289635b1e64914c272225eee641914e4762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:33 +0000
Subject: [PATCH 42/68] fix: file completion keeps the text it completes
 (trailing dots, no base directory)

---
 src/types/completable.rs | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/src/types/completable.rs b/src/types/completable.rs
index fd9b7d1..6056546 100644
--- a/src/types/completable.rs
+++ b/src/types/completable.rs
@@ -307,23 +307,19 @@ impl CompletionProviderTrait for FileCompletionProvider {
     ) -> crate::error::Result<CompletionResponse> {
         use std::path::Path;
 
-        let partial_path = Path::new(&request.partial);
-        let (dir_path, file_prefix) = if request.partial.ends_with(std::path::MAIN_SEPARATOR) {
-            (partial_path, "")
-        } else {
-            (
-                partial_path.parent().unwrap_or_else(|| Path::new(".")),
-                partial_path
-                    .file_name()
-                    .and_then(|s| s.to_str())
-                    .unwrap_or(""),
-            )
+        // Split at the last separator: `Path` would normalize a trailing "." or ".." away.
+        let (dir_part, file_prefix) = match request.partial.rfind(std::path::is_separator) {
+            Some(i) => request.partial.split_at(i + 1),
+            None => ("", request.partial.as_str()),
         };
+        let dir_path = Path::new(dir_part);
 
         let search_dir = if dir_path.is_absolute() {
             dir_path.to_path_buf()
         } else if let Some(base) = &self.base_dir {
             base.join(dir_path)
+        } else if dir_part.is_empty() {
+            Path::new(".").to_path_buf()
         } else {
             dir_path.to_path_buf()
         };
@@ -350,11 +346,7 @@ impl CompletionProviderTrait for FileCompletionProvider {
                             }
                         }
 
-                        let value = if request.partial.is_empty() {
-                            name.to_string()
-                        } else {
-                            dir_path.join(name).to_string_lossy().to_string()
-                        };
+                        let value = format!("{}{}", dir_part, name);
 
                         completions.push(CompletionItem {
                             value,
-- 
2.43.0


From 5182e4287254c335f8adc0345fbba4555f70fe8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:16 +0000
Subject: [PATCH 43/68] fix: OIDC discovery retries connection failures, and
 only those

---
 src/client/auth.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/client/auth.rs b/src/client/auth.rs
index fbe7450..dd91771 100644
--- a/src/client/auth.rs
+++ b/src/client/auth.rs
@@ -175,9 +175,20 @@ impl OidcDiscoveryClient {
             .send()
             .await
             .map_err(|e| {
+                // `should_retry` goes by the message: say what kind of failure this is, and
+                // keep the URL, which may contain any word, out of it.
+                let kind = if e.is_connect() || e.is_timeout() || e.is_request() {
+                    "network error: "
+                } else {
+                    ""
+                };
                 Error::protocol(
                     ErrorCode::INTERNAL_ERROR,
-                    format!("Failed to fetch discovery document: {}", e),
+                    format!(
+                        "Failed to fetch discovery document: {}{}",
+                        kind,
+                        e.without_url()
+                    ),
                 )
             })?;
 
@@ -191,7 +202,7 @@ impl OidcDiscoveryClient {
         response.json::<OidcDiscoveryMetadata>().await.map_err(|e| {
             Error::protocol(
                 ErrorCode::PARSE_ERROR,
-                format!("Failed to parse discovery document: {}", e),
+                format!("Failed to parse discovery document: {}", e.without_url()),
             )
         })
     }
-- 
2.43.0


From c3d8d0e7530ab7c26d574ffc644c70e07ecb777d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:46 +0000
Subject: [PATCH 44/68] fix: streamable HTTP exchanges JSON-RPC messages, as
 MCP requires

---
 src/server/streamable_http_server.rs | 27 ++++++++++++----
 src/shared/streamable_http.rs        | 47 ++++++++++++++++++----------
 2 files changed, 51 insertions(+), 23 deletions(-)

diff --git a/src/server/streamable_http_server.rs b/src/server/streamable_http_server.rs
index d0232fa..30bb6b9 100644
--- a/src/server/streamable_http_server.rs
+++ b/src/server/streamable_http_server.rs
@@ -4,7 +4,7 @@ use crate::server::Server;
 use crate::shared::http_constants::{
     APPLICATION_JSON, LAST_EVENT_ID, MCP_PROTOCOL_VERSION, MCP_SESSION_ID, TEXT_EVENT_STREAM,
 };
-use crate::shared::TransportMessage;
+use crate::shared::{StdioTransport, TransportMessage};
 use crate::types::{ClientRequest, Request};
 use axum::{
     async_trait,
@@ -459,6 +459,21 @@ fn update_session_after_init(
     }
 }
 
+/// Encode a message as JSON-RPC.
+fn encode_message(message: &TransportMessage) -> String {
+    let bytes = StdioTransport::serialize_message(message).unwrap();
+    String::from_utf8(bytes).unwrap()
+}
+
+/// A JSON response holding one message.
+fn json_message(message: &TransportMessage) -> Response {
+    (
+        [(header::CONTENT_TYPE, APPLICATION_JSON)],
+        encode_message(message),
+    )
+        .into_response()
+}
+
 /// Build response with appropriate format (JSON or SSE)
 fn build_response(
     state: &ServerState,
@@ -467,7 +482,7 @@ fn build_response(
 ) -> Response {
     if state.config.enable_json_response {
         // JSON response mode
-        (StatusCode::OK, Json(response)).into_response()
+        json_message(&response)
     } else {
         // SSE streaming mode
         if let Some(sid) = session_id {
@@ -487,7 +502,7 @@ fn build_response(
                         Event::default()
                             .id(event_id)
                             .event("message")
-                            .data(serde_json::to_string(&msg).unwrap()),
+                            .data(encode_message(&msg)),
                     )
                 }));
 
@@ -495,7 +510,7 @@ fn build_response(
             }
         } else {
             // No session, return JSON
-            (StatusCode::OK, Json(response)).into_response()
+            json_message(&response)
         }
     }
 }
@@ -554,7 +569,7 @@ async fn handle_post_request(
     }
 
     // Parse the JSON body
-    let message: TransportMessage = match serde_json::from_str(&body) {
+    let message = match crate::shared::streamable_http::decode_message(body.as_bytes()) {
         Ok(msg) => msg,
         Err(e) => {
             return create_error_response(
@@ -770,7 +785,7 @@ async fn handle_get_sse(State(state): State<ServerState>, headers: HeaderMap) ->
             Event::default()
                 .id(event_id)
                 .event("message")
-                .data(serde_json::to_string(&msg).unwrap()),
+                .data(encode_message(&msg)),
         )
     }));
 
diff --git a/src/shared/streamable_http.rs b/src/shared/streamable_http.rs
index f54f7f7..0ab2e88 100644
--- a/src/shared/streamable_http.rs
+++ b/src/shared/streamable_http.rs
@@ -4,7 +4,7 @@ use crate::shared::http_constants::{
     MCP_SESSION_ID, TEXT_EVENT_STREAM,
 };
 use crate::shared::sse_parser::SseParser;
-use crate::shared::{Transport, TransportMessage};
+use crate::shared::{StdioTransport, Transport, TransportMessage};
 use async_trait::async_trait;
 use parking_lot::RwLock;
 use reqwest::{Client, RequestBuilder, Response};
@@ -249,7 +249,7 @@ impl StreamableHttpTransport {
 
                 // Only process "message" events or no event type
                 if event.event.as_deref() == Some("message") || event.event.is_none() {
-                    if let Ok(msg) = serde_json::from_str::<TransportMessage>(&event.data) {
+                    if let Ok(msg) = decode_message(event.data.as_bytes()) {
                         let _ = sender.send(msg);
                     }
                 }
@@ -326,8 +326,7 @@ impl StreamableHttpTransport {
             return Ok(());
         }
 
-        let body = serde_json::to_string(&message)
-            .map_err(|e| Error::Transport(TransportError::Serialization(e.to_string())))?;
+        let body = StdioTransport::serialize_message(&message)?;
 
         let url = self.config.read().url.clone();
         let builder = self.build_request(reqwest::Method::POST, url).await?;
@@ -373,18 +372,7 @@ impl StreamableHttpTransport {
                 .await
                 .map_err(|e| Error::Transport(TransportError::Request(e.to_string())))?;
 
-            // Try to parse as array first (batch response)
-            if let Ok(batch) = serde_json::from_slice::<Vec<TransportMessage>>(&response_bytes) {
-                for msg in batch {
-                    self.sender
-                        .send(msg)
-                        .map_err(|e| Error::Transport(TransportError::Send(e.to_string())))?;
-                }
-            } else {
-                // Single message
-                let message = serde_json::from_slice(&response_bytes).map_err(|e| {
-                    Error::Transport(TransportError::Deserialization(e.to_string()))
-                })?;
+            for message in decode_messages(&response_bytes)? {
                 self.sender
                     .send(message)
                     .map_err(|e| Error::Transport(TransportError::Send(e.to_string())))?;
@@ -412,7 +400,7 @@ impl StreamableHttpTransport {
 
                     // Only process "message" events
                     if event.event.as_deref() == Some("message") || event.event.is_none() {
-                        if let Ok(msg) = serde_json::from_str::<TransportMessage>(&event.data) {
+                        if let Ok(msg) = decode_message(event.data.as_bytes()) {
                             let _ = sender.send(msg);
                         }
                     }
@@ -432,6 +420,31 @@ impl StreamableHttpTransport {
     }
 }
 
+/// Decode one JSON-RPC message. Without a `jsonrpc` member it is in the encoding earlier versions of
+/// this SDK used over HTTP.
+pub(crate) fn decode_message(bytes: &[u8]) -> Result<TransportMessage> {
+    match StdioTransport::parse_message(bytes) {
+        Ok(message) => Ok(message),
+        Err(e) => match serde_json::from_slice::<serde_json::Value>(bytes) {
+            Ok(value) if value.get("jsonrpc").is_none() => {
+                serde_json::from_value(value).map_err(|_| e)
+            },
+            _ => Err(e),
+        },
+    }
+}
+
+/// Decode a body holding one message or an array of them.
+fn decode_messages(bytes: &[u8]) -> Result<Vec<TransportMessage>> {
+    match serde_json::from_slice::<Vec<Box<serde_json::value::RawValue>>>(bytes) {
+        Ok(batch) => batch
+            .iter()
+            .map(|message| decode_message(message.get().as_bytes()))
+            .collect(),
+        Err(_) => Ok(vec![decode_message(bytes)?]),
+    }
+}
+
 #[async_trait]
 impl Transport for StreamableHttpTransport {
     async fn send(&mut self, message: TransportMessage) -> Result<()> {
-- 
2.43.0


From 483f504bc7f49d920ac898d5b70b813fa373c42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:08 +0000
Subject: [PATCH 45/68] fix: HTTP transports deliver SSE messages as they
 arrive and survive characters split between chunks

---
 src/shared/http.rs            |  3 +-
 src/shared/sse_parser.rs      | 16 +++++++
 src/shared/streamable_http.rs | 86 ++++++++++++++++-------------------
 3 files changed, 57 insertions(+), 48 deletions(-)

diff --git a/src/shared/http.rs b/src/shared/http.rs
index 8e0a3a7..6367fe9 100644
--- a/src/shared/http.rs
+++ b/src/shared/http.rs
@@ -141,8 +141,7 @@ impl HttpTransport {
                     match chunk {
                         Ok(frame) => {
                             if let Some(data) = frame.data_ref() {
-                                let text = String::from_utf8_lossy(data);
-                                let events = sse_parser.feed(&text);
+                                let events = sse_parser.feed_bytes(data);
 
                                 for event in events {
                                     // Process SSE event data as JSON-RPC message
diff --git a/src/shared/sse_parser.rs b/src/shared/sse_parser.rs
index 0da4eed..7dc403c 100644
--- a/src/shared/sse_parser.rs
+++ b/src/shared/sse_parser.rs
@@ -115,6 +115,8 @@ impl fmt::Display for SseEvent {
 /// SSE parser state machine.
 #[derive(Debug)]
 pub struct SseParser {
+    /// Bytes after the last complete line, see `feed_bytes`
+    pending: Vec<u8>,
     buffer: String,
     current_event: EventBuilder,
     last_event_id: Option<String>,
@@ -133,6 +135,7 @@ impl SseParser {
     /// ```
     pub fn new() -> Self {
         Self {
+            pending: Vec::new(),
             buffer: String::new(),
             current_event: EventBuilder::new(),
             last_event_id: None,
@@ -187,6 +190,18 @@ impl SseParser {
         events
     }
 
+    /// Feed raw bytes to the parser, cut anywhere: a character split between two calls is put
+    /// together again.
+    pub fn feed_bytes(&mut self, data: &[u8]) -> Vec<SseEvent> {
+        self.pending.extend_from_slice(data);
+        let Some(end) = self.pending.iter().rposition(|b| *b == b'\n') else {
+            return Vec::new();
+        };
+        let rest = self.pending.split_off(end + 1);
+        let lines = std::mem::replace(&mut self.pending, rest);
+        self.feed(&String::from_utf8_lossy(&lines))
+    }
+
     /// Process a single line and potentially emit an event.
     fn process_line(&mut self, line: &str) -> Option<SseEvent> {
         // Empty line dispatches the event
@@ -280,6 +295,7 @@ impl SseParser {
 
     /// Reset the parser state.
     pub fn reset(&mut self) {
+        self.pending.clear();
         self.buffer.clear();
         self.current_event = EventBuilder::new();
     }
diff --git a/src/shared/streamable_http.rs b/src/shared/streamable_http.rs
index 0ab2e88..b1f417a 100644
--- a/src/shared/streamable_http.rs
+++ b/src/shared/streamable_http.rs
@@ -232,29 +232,12 @@ impl StreamableHttpTransport {
         let on_resumption = self.config.read().on_resumption_token.clone();
         let last_event_id = self.last_event_id.clone();
 
-        let handle = tokio::spawn(async move {
-            let mut sse_parser = SseParser::new();
-            let body = response.text().await.unwrap_or_default();
-
-            // For now, parse the whole body - later we can stream with hyper Body
-            let events = sse_parser.feed(&body);
-            for event in events {
-                // Update last event ID and notify callback
-                if let Some(id) = &event.id {
-                    *last_event_id.write() = Some(id.clone());
-                    if let Some(callback) = &on_resumption {
-                        callback(id.clone());
-                    }
-                }
-
-                // Only process "message" events or no event type
-                if event.event.as_deref() == Some("message") || event.event.is_none() {
-                    if let Ok(msg) = decode_message(event.data.as_bytes()) {
-                        let _ = sender.send(msg);
-                    }
-                }
-            }
-        });
+        let handle = tokio::spawn(deliver_events(
+            response,
+            sender,
+            on_resumption,
+            last_event_id,
+        ));
 
         *self.abort_handle.write() = Some(handle);
         Ok(())
@@ -383,29 +366,12 @@ impl StreamableHttpTransport {
             let on_resumption = self.config.read().on_resumption_token.clone();
             let last_event_id = self.last_event_id.clone();
 
-            tokio::spawn(async move {
-                let mut sse_parser = SseParser::new();
-                let body = response.text().await.unwrap_or_default();
-
-                // Parse the SSE body
-                let events = sse_parser.feed(&body);
-                for event in events {
-                    // Update last event ID and notify callback
-                    if let Some(id) = &event.id {
-                        *last_event_id.write() = Some(id.clone());
-                        if let Some(callback) = &on_resumption {
-                            callback(id.clone());
-                        }
-                    }
-
-                    // Only process "message" events
-                    if event.event.as_deref() == Some("message") || event.event.is_none() {
-                        if let Ok(msg) = decode_message(event.data.as_bytes()) {
-                            let _ = sender.send(msg);
-                        }
-                    }
-                }
-            });
+            tokio::spawn(deliver_events(
+                response,
+                sender,
+                on_resumption,
+                last_event_id,
+            ));
         } else if response.status().as_u16() == 202 {
             // 202 Accepted with no body is valid
             return Ok(());
@@ -420,6 +386,34 @@ impl StreamableHttpTransport {
     }
 }
 
+/// Deliver the messages of an SSE response, each as soon as its event is complete.
+async fn deliver_events(
+    mut response: Response,
+    sender: mpsc::UnboundedSender<TransportMessage>,
+    on_resumption: Option<Arc<dyn Fn(String) + Send + Sync>>,
+    last_event_id: Arc<RwLock<Option<String>>>,
+) {
+    let mut sse_parser = SseParser::new();
+    while let Ok(Some(chunk)) = response.chunk().await {
+        for event in sse_parser.feed_bytes(&chunk) {
+            // Update last event ID and notify callback
+            if let Some(id) = &event.id {
+                *last_event_id.write() = Some(id.clone());
+                if let Some(callback) = &on_resumption {
+                    callback(id.clone());
+                }
+            }
+
+            // Only process "message" events or no event type
+            if event.event.as_deref() == Some("message") || event.event.is_none() {
+                if let Ok(msg) = decode_message(event.data.as_bytes()) {
+                    let _ = sender.send(msg);
+                }
+            }
+        }
+    }
+}
+
 /// Decode one JSON-RPC message. Without a `jsonrpc` member it is in the encoding earlier versions of
 /// this SDK used over HTTP.
 pub(crate) fn decode_message(bytes: &[u8]) -> Result<TransportMessage> {
-- 
2.43.0


From d3943e61955df1d62a3d6720cee96e0a7d342cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:13 +0000
Subject: [PATCH 46/68] fix: HttpTransport sends its configured headers and
 accepts empty replies

---
 src/shared/http.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/shared/http.rs b/src/shared/http.rs
index 6367fe9..c9d1b6a 100644
--- a/src/shared/http.rs
+++ b/src/shared/http.rs
@@ -104,11 +104,15 @@ impl HttpTransport {
                 .map_err(|e| crate::error::TransportError::InvalidMessage(e.to_string()))?;
             info!("Connecting to SSE endpoint: {}", sse_url);
 
-            let req = Request::builder()
+            let mut builder = Request::builder()
                 .method(Method::GET)
                 .uri(sse_url.as_str())
                 .header("Accept", "text/event-stream")
-                .header("Cache-Control", "no-cache")
+                .header("Cache-Control", "no-cache");
+            for (name, value) in &self.config.headers {
+                builder = builder.header(name, value);
+            }
+            let req = builder
                 .body(Full::new(Bytes::new()))
                 .map_err(|e| crate::error::TransportError::InvalidMessage(e.to_string()))?;
 
@@ -187,10 +191,14 @@ impl HttpTransport {
             )))
         })?;
 
-        let req = Request::builder()
+        let mut builder = Request::builder()
             .method(Method::POST)
             .uri(self.config.base_url.as_str())
-            .header("Content-Type", "application/json")
+            .header("Content-Type", "application/json");
+        for (name, value) in &self.config.headers {
+            builder = builder.header(name, value);
+        }
+        let req = builder
             .body(Full::new(Bytes::from(json)))
             .map_err(|e| crate::error::TransportError::InvalidMessage(e.to_string()))?;
 
@@ -203,7 +211,7 @@ impl HttpTransport {
                 ))
             })?;
 
-        if response.status() != StatusCode::OK {
+        if !response.status().is_success() {
             return Err(crate::error::Error::Transport(
                 crate::error::TransportError::InvalidMessage(format!(
                     "HTTP request failed with status: {}",
@@ -222,6 +230,10 @@ impl HttpTransport {
                 ))
             })?
             .to_bytes();
+        if body_bytes.is_empty() {
+            // Nothing to say in reply, e.g. 202 Accepted to a notification
+            return Ok(());
+        }
         let response_msg = crate::shared::stdio::StdioTransport::parse_message(&body_bytes)?;
 
         // Send response through message queue
-- 
2.43.0


From 9cc8d0d97b5a71c9a07d1d362d64ac324ca0d6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:05 +0000
Subject: [PATCH 47/68] fix: HTTP server compares media types, not substrings
 of the headers

---
 src/server/streamable_http_server.rs | 29 ++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/server/streamable_http_server.rs b/src/server/streamable_http_server.rs
index 30bb6b9..ad635c0 100644
--- a/src/server/streamable_http_server.rs
+++ b/src/server/streamable_http_server.rs
@@ -284,6 +284,22 @@ impl StreamableHttpServer {
     }
 }
 
+/// Whether a header value names this media type (in any case, with or without parameters).
+fn is_media_type(value: &str, media_type: &str) -> bool {
+    let name = value.split(';').next().unwrap_or("");
+    name.trim().eq_ignore_ascii_case(media_type)
+}
+
+/// Whether the Accept headers list this media type.
+fn accepts(headers: &HeaderMap, media_type: &str) -> bool {
+    headers
+        .get_all(header::ACCEPT)
+        .iter()
+        .filter_map(|value| value.to_str().ok())
+        .flat_map(|value| value.split(','))
+        .any(|value| is_media_type(value, media_type))
+}
+
 /// Validate request headers and return appropriate error response
 fn validate_headers(headers: &HeaderMap, method: &str) -> std::result::Result<(), Response> {
     match method {
@@ -291,7 +307,7 @@ fn validate_headers(headers: &HeaderMap, method: &str) -> std::result::Result<()
             // Validate Content-Type
             if let Some(content_type) = headers.get(header::CONTENT_TYPE) {
                 let ct = content_type.to_str().unwrap_or("");
-                if !ct.contains(APPLICATION_JSON) {
+                if !is_media_type(ct, APPLICATION_JSON) {
                     return Err(create_error_response(
                         StatusCode::UNSUPPORTED_MEDIA_TYPE,
                         -32700,
@@ -307,10 +323,8 @@ fn validate_headers(headers: &HeaderMap, method: &str) -> std::result::Result<()
             }
 
             // Validate Accept
-            if let Some(accept) = headers.get(header::ACCEPT) {
-                let accept_str = accept.to_str().unwrap_or("");
-                if !accept_str.contains(APPLICATION_JSON) && !accept_str.contains(TEXT_EVENT_STREAM)
-                {
+            if headers.contains_key(header::ACCEPT) {
+                if !accepts(headers, APPLICATION_JSON) && !accepts(headers, TEXT_EVENT_STREAM) {
                     return Err(create_error_response(
                         StatusCode::NOT_ACCEPTABLE,
                         -32700,
@@ -327,9 +341,8 @@ fn validate_headers(headers: &HeaderMap, method: &str) -> std::result::Result<()
         },
         "GET" => {
             // Validate Accept for SSE
-            if let Some(accept) = headers.get(header::ACCEPT) {
-                let accept_str = accept.to_str().unwrap_or("");
-                if !accept_str.contains(TEXT_EVENT_STREAM) {
+            if headers.contains_key(header::ACCEPT) {
+                if !accepts(headers, TEXT_EVENT_STREAM) {
                     return Err(create_error_response(
                         StatusCode::NOT_ACCEPTABLE,
                         -32700,
-- 
2.43.0


From b6aa6e7c78aa1664f3d04d1c60ff907025e2003f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:20 +0000
Subject: [PATCH 48/68] fix: HTTP session ids are only ever the server's: no
 init under an unknown one, none in stateless mode

---
 src/server/streamable_http_server.rs | 46 ++++++++++++++++++----------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/src/server/streamable_http_server.rs b/src/server/streamable_http_server.rs
index ad635c0..792333b 100644
--- a/src/server/streamable_http_server.rs
+++ b/src/server/streamable_http_server.rs
@@ -373,15 +373,24 @@ fn process_init_session(
         // Stateful mode
         if let Some(sid) = session_id {
             // Check if session already exists and is initialized
-            if let Some(session_info) = state.sessions.read().get(&sid) {
-                if session_info.initialized {
+            match state.sessions.read().get(&sid) {
+                Some(session_info) if session_info.initialized => {
                     // Session already initialized - reject re-initialization
                     return Err(create_error_response(
                         StatusCode::BAD_REQUEST,
                         -32600,
                         "Session already initialized",
                     ));
-                }
+                },
+                Some(_) => {},
+                // Session IDs are only ever assigned by the server
+                None => {
+                    return Err(create_error_response(
+                        StatusCode::NOT_FOUND,
+                        -32600,
+                        "Unknown session ID",
+                    ));
+                },
             }
             // Use existing session ID
             Ok((Some(sid), false))
@@ -659,7 +668,8 @@ async fn handle_post_request(
             }
 
             // Build response with headers
-            let mut response = build_response(&state, response, session_id.as_ref());
+            let stream_session = response_session_id.as_ref().filter(|_| !is_init_request);
+            let mut response = build_response(&state, response, stream_session);
 
             // Always add session header in stateful mode
             if let Some(sid) = &response_session_id {
@@ -717,14 +727,21 @@ async fn handle_get_sse(State(state): State<ServerState>, headers: HeaderMap) ->
         .map(|s| s.to_string());
 
     // Validate or generate session ID
+    let Some(generator) = &state.config.session_id_generator else {
+        // Stateless mode, no SSE
+        return create_error_response(
+            StatusCode::METHOD_NOT_ALLOWED,
+            -32601,
+            "SSE not supported in stateless mode",
+        );
+    };
     let session_id = if let Some(sid) = session_id {
         // Validate session exists
-        if state.config.session_id_generator.is_some() && !state.sessions.read().contains_key(&sid)
-        {
+        if !state.sessions.read().contains_key(&sid) {
             return create_error_response(StatusCode::NOT_FOUND, -32600, "Unknown session ID");
         }
         sid
-    } else if let Some(generator) = &state.config.session_id_generator {
+    } else {
         // Generate new session for GET SSE
         let new_id = generator();
         state.sessions.write().insert(
@@ -738,13 +755,6 @@ async fn handle_get_sse(State(state): State<ServerState>, headers: HeaderMap) ->
             callback(&new_id);
         }
         new_id
-    } else {
-        // Stateless mode, no SSE
-        return create_error_response(
-            StatusCode::METHOD_NOT_ALLOWED,
-            -32601,
-            "SSE not supported in stateless mode",
-        );
     };
 
     // Check if stream already exists for this session
@@ -846,11 +856,13 @@ async fn handle_delete_session(
         state.sse_streams.write().remove(&sid);
 
         // Remove session from tracking
-        state.sessions.write().remove(&sid);
+        let removed = state.sessions.write().remove(&sid).is_some();
 
         // Notify callback
-        if let Some(callback) = &state.config.on_session_closed {
-            callback(&sid);
+        if removed {
+            if let Some(callback) = &state.config.on_session_closed {
+                callback(&sid);
+            }
         }
 
         (StatusCode::OK, Json(json!({"status": "ok"}))).into_response()
-- 
2.43.0


From 172c6fd2bdeda190411f53f0631c2d0bedbadde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:25 +0000
Subject: [PATCH 49/68] fix: HTTP resume replays exactly the session's later
 events, and a dropped SSE stream loses no response

---
 src/server/streamable_http_server.rs | 186 ++++++++++++++-------------
 1 file changed, 94 insertions(+), 92 deletions(-)

diff --git a/src/server/streamable_http_server.rs b/src/server/streamable_http_server.rs
index 792333b..791ba37 100644
--- a/src/server/streamable_http_server.rs
+++ b/src/server/streamable_http_server.rs
@@ -17,7 +17,7 @@ use axum::{
 use futures_util::StreamExt;
 use parking_lot::RwLock;
 use serde_json::json;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::convert::Infallible;
 use std::net::SocketAddr;
 use std::sync::Arc;
@@ -204,13 +204,24 @@ struct SessionInfo {
     protocol_version: Option<String>,
 }
 
+/// A message on its way to an SSE stream, with the event ID it is sent and stored under.
+type SseMessage = (String, TransportMessage);
+
+/// The SSE event for a message.
+fn sse_event((event_id, message): SseMessage) -> std::result::Result<Event, Infallible> {
+    Ok(Event::default()
+        .id(event_id)
+        .event("message")
+        .data(encode_message(&message)))
+}
+
 /// Server state shared across routes
 #[derive(Clone)]
 struct ServerState {
     server: Arc<tokio::sync::Mutex<Server>>,
     config: Arc<StreamableHttpServerConfig>,
     /// Active SSE streams by session ID
-    sse_streams: Arc<RwLock<HashMap<String, mpsc::UnboundedSender<TransportMessage>>>>,
+    sse_streams: Arc<RwLock<HashMap<String, mpsc::UnboundedSender<SseMessage>>>>,
     /// Session tracking (session ID -> session info)
     sessions: Arc<RwLock<HashMap<String, SessionInfo>>>,
 }
@@ -497,44 +508,38 @@ fn json_message(message: &TransportMessage) -> Response {
 }
 
 /// Build response with appropriate format (JSON or SSE)
-fn build_response(
+async fn build_response(
     state: &ServerState,
     response: TransportMessage,
     session_id: Option<&String>,
 ) -> Response {
-    if state.config.enable_json_response {
-        // JSON response mode
-        json_message(&response)
-    } else {
-        // SSE streaming mode
-        if let Some(sid) = session_id {
-            if let Some(sender) = state.sse_streams.read().get(sid) {
-                // Send to existing SSE stream
-                let _ = sender.send(response);
-                StatusCode::ACCEPTED.into_response()
-            } else {
-                // Return as SSE stream
-                let (tx, rx) = mpsc::unbounded_channel();
-                tx.send(response).unwrap();
-
-                let stream = UnboundedReceiverStream::new(rx);
-                let sse = Sse::new(stream.map(|msg| {
-                    let event_id = Uuid::new_v4().to_string();
-                    Ok::<_, Infallible>(
-                        Event::default()
-                            .id(event_id)
-                            .event("message")
-                            .data(encode_message(&msg)),
-                    )
-                }));
-
-                sse.into_response()
-            }
-        } else {
-            // No session, return JSON
-            json_message(&response)
-        }
+    let sid = match session_id {
+        Some(sid) if !state.config.enable_json_response => sid,
+        // JSON response mode, or no session
+        _ => return json_message(&response),
+    };
+
+    // SSE streaming mode: the event is stored under the ID it is sent with, so that a client can
+    // resume after it
+    let event_id = Uuid::new_v4().to_string();
+    if let Some(event_store) = &state.config.event_store {
+        let _ = event_store.store_event(sid, &event_id, &response).await;
     }
+
+    // Send to the session's SSE stream if its client is still there
+    let message = {
+        let streams = state.sse_streams.read();
+        match streams.get(sid) {
+            Some(sender) => match sender.send((event_id, response)) {
+                Ok(()) => return StatusCode::ACCEPTED.into_response(),
+                Err(mpsc::error::SendError(message)) => message,
+            },
+            None => (event_id, response),
+        }
+    };
+
+    // Return as SSE stream
+    Sse::new(futures_util::stream::iter([sse_event(message)])).into_response()
 }
 
 /// Validate protocol version for non-init requests
@@ -659,17 +664,9 @@ async fn handle_post_request(
                 None
             };
 
-            // Store event if we have an event store
-            if let Some(event_store) = &state.config.event_store {
-                if let Some(sid) = &response_session_id {
-                    let event_id = Uuid::new_v4().to_string();
-                    let _ = event_store.store_event(sid, &event_id, &response).await;
-                }
-            }
-
             // Build response with headers
             let stream_session = response_session_id.as_ref().filter(|_| !is_init_request);
-            let mut response = build_response(&state, response, stream_session);
+            let mut response = build_response(&state, response, stream_session).await;
 
             // Always add session header in stateful mode
             if let Some(sid) = &response_session_id {
@@ -713,6 +710,31 @@ async fn handle_post_request(
     }
 }
 
+/// The events of one session after the given one; none if that is not an event of the session.
+async fn session_events_after(
+    event_store: &dyn EventStore,
+    session_id: &str,
+    last_event_id: &str,
+) -> Vec<SseMessage> {
+    let mut events = Vec::new();
+    if !is_session_event(event_store, session_id, last_event_id).await {
+        return events;
+    }
+    let stored = event_store.replay_events_after(last_event_id).await;
+    for (event_id, message) in stored.unwrap_or_default() {
+        if is_session_event(event_store, session_id, &event_id).await {
+            events.push((event_id, message));
+        }
+    }
+    events
+}
+
+/// Whether an event belongs to a session.
+async fn is_session_event(event_store: &dyn EventStore, session_id: &str, event_id: &str) -> bool {
+    let stream = event_store.get_stream_for_event(event_id).await;
+    matches!(stream, Ok(Some(stream)) if stream == session_id)
+}
+
 /// Handle GET requests for SSE streams
 async fn handle_get_sse(State(state): State<ServerState>, headers: HeaderMap) -> impl IntoResponse {
     // Validate headers
@@ -757,67 +779,47 @@ async fn handle_get_sse(State(state): State<ServerState>, headers: HeaderMap) ->
         new_id
     };
 
-    // Check if stream already exists for this session
-    if state.sse_streams.read().contains_key(&session_id) {
-        return create_error_response(
-            StatusCode::CONFLICT,
-            -32600,
-            "SSE stream already exists for this session",
-        );
-    }
-
-    // Create SSE stream
+    // Create SSE stream, unless the session has one that is still connected
     let (tx, rx) = mpsc::unbounded_channel();
-    state
-        .sse_streams
-        .write()
-        .insert(session_id.clone(), tx.clone());
-
-    // Check for Last-Event-ID for resumability
-    if let Some(last_event_id) = headers.get(LAST_EVENT_ID) {
-        if let Ok(last_id) = last_event_id.to_str() {
-            if let Some(event_store) = &state.config.event_store {
-                // Replay events after the last event ID
-                if let Ok(events) = event_store.replay_events_after(last_id).await {
-                    for (_event_id, msg) in events {
-                        let _ = tx.send(msg);
-                    }
-                }
-            }
+    {
+        let mut streams = state.sse_streams.write();
+        if streams.get(&session_id).is_some_and(|s| !s.is_closed()) {
+            return create_error_response(
+                StatusCode::CONFLICT,
+                -32600,
+                "SSE stream already exists for this session",
+            );
         }
+        streams.insert(session_id.clone(), tx);
     }
 
-    let stream = UnboundedReceiverStream::new(rx);
-    let session_id_header = session_id.clone();
-
-    let sse = Sse::new(stream.map(move |msg| {
-        let event_id = Uuid::new_v4().to_string();
-
-        // Store event if we have an event store
+    // Check for Last-Event-ID for resumability: replay this session's events after that one
+    let mut replay = Vec::new();
+    if let Some(Ok(last_id)) = headers.get(LAST_EVENT_ID).map(HeaderValue::to_str) {
         if let Some(event_store) = &state.config.event_store {
-            let sid = session_id.clone();
-            let msg_clone = msg.clone();
-            let store = event_store.clone();
-            let event_id_clone = event_id.clone();
-            tokio::spawn(async move {
-                let _ = store.store_event(&sid, &event_id_clone, &msg_clone).await;
-            });
+            replay = session_events_after(event_store.as_ref(), &session_id, last_id).await;
         }
+    }
 
-        Ok::<_, Infallible>(
-            Event::default()
-                .id(event_id)
-                .event("message")
-                .data(encode_message(&msg)),
-        )
-    }));
+    // What arrived on the new stream while the replay was read is not sent twice
+    let replayed: HashSet<String> = replay
+        .iter()
+        .map(|(event_id, _)| event_id.clone())
+        .collect();
+    let live = UnboundedReceiverStream::new(rx)
+        .filter(move |(event_id, _)| futures_util::future::ready(!replayed.contains(event_id)));
+    let sse = Sse::new(
+        futures_util::stream::iter(replay)
+            .chain(live)
+            .map(sse_event),
+    );
 
     let mut response = sse.into_response();
 
     // Add session ID header
     response
         .headers_mut()
-        .insert(MCP_SESSION_ID, session_id_header.parse().unwrap());
+        .insert(MCP_SESSION_ID, session_id.parse().unwrap());
 
     // Add SSE-specific headers for hardening
     response.headers_mut().insert(
-- 
2.43.0


From 61f6b5c59aadf1ab8b36c0f84e096357149a3ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:22 +0000
Subject: [PATCH 50/68] fix: answer initialize with the protocol version the
 client asked for when it is supported

---
 src/server/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/server/mod.rs b/src/server/mod.rs
index 829d962..9eca3ca 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -525,8 +525,16 @@ impl Server {
                 *self.client_capabilities.write().await = Some(init_req.capabilities.clone());
                 *self.initialized.write().await = true;
 
+                // Agree to the version asked for if it is supported, else offer the latest
+                let requested = init_req.protocol_version.as_str();
+                let version = if crate::SUPPORTED_PROTOCOL_VERSIONS.contains(&requested) {
+                    requested
+                } else {
+                    crate::LATEST_PROTOCOL_VERSION
+                };
+
                 let result = InitializeResult {
-                    protocol_version: ProtocolVersion("2024-11-05".to_string()),
+                    protocol_version: ProtocolVersion(version.to_string()),
                     capabilities: self.capabilities.clone(),
                     server_info: self.info.clone(),
                     instructions: None,
-- 
2.43.0


From a6739fbad3672cd88b4c5b3a02a6483bf24f8535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:11 +0000
Subject: [PATCH 51/68] fix: refuse GET and DELETE requests with an unsupported
 protocol version

---
 src/server/streamable_http_server.rs | 29 +++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/server/streamable_http_server.rs b/src/server/streamable_http_server.rs
index 791ba37..e3f9341 100644
--- a/src/server/streamable_http_server.rs
+++ b/src/server/streamable_http_server.rs
@@ -542,6 +542,14 @@ async fn build_response(
     Sse::new(futures_util::stream::iter([sse_event(message)])).into_response()
 }
 
+/// Extract protocol version from headers
+fn protocol_version_header(headers: &HeaderMap) -> Option<String> {
+    headers
+        .get(MCP_PROTOCOL_VERSION)
+        .and_then(|v| v.to_str().ok())
+        .map(|s| s.to_string())
+}
+
 /// Validate protocol version for non-init requests
 fn validate_protocol_version(
     state: &ServerState,
@@ -613,11 +621,7 @@ async fn handle_post_request(
         .and_then(|v| v.to_str().ok())
         .map(|s| s.to_string());
 
-    // Extract protocol version from headers
-    let protocol_version = headers
-        .get(MCP_PROTOCOL_VERSION)
-        .and_then(|v| v.to_str().ok())
-        .map(|s| s.to_string());
+    let protocol_version = protocol_version_header(&headers);
 
     // Check if this is an initialization request
     let is_init_request = matches!(
@@ -757,6 +761,13 @@ async fn handle_get_sse(State(state): State<ServerState>, headers: HeaderMap) ->
             "SSE not supported in stateless mode",
         );
     };
+    if let Err(error_response) = validate_protocol_version(
+        &state,
+        session_id.as_ref(),
+        protocol_version_header(&headers).as_ref(),
+    ) {
+        return error_response;
+    }
     let session_id = if let Some(sid) = session_id {
         // Validate session exists
         if !state.sessions.read().contains_key(&sid) {
@@ -854,6 +865,14 @@ async fn handle_delete_session(
             return create_error_response(StatusCode::NOT_FOUND, -32600, "Unknown session ID");
         }
 
+        if let Err(error_response) = validate_protocol_version(
+            &state,
+            Some(&sid),
+            protocol_version_header(&headers).as_ref(),
+        ) {
+            return error_response;
+        }
+
         // Remove SSE stream if exists
         state.sse_streams.write().remove(&sid);
 
-- 
2.43.0


From bf8014dd9def393ae9e2c9adf482f1757807f646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:21 +0000
Subject: [PATCH 52/68] fix: WebSocket server enforces its configured frame and
 message limits

---
 src/server/transport/websocket.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/server/transport/websocket.rs b/src/server/transport/websocket.rs
index 1f5b1b7..c3342e6 100644
--- a/src/server/transport/websocket.rs
+++ b/src/server/transport/websocket.rs
@@ -8,7 +8,10 @@ use std::net::SocketAddr;
 use std::sync::Arc;
 use tokio::net::TcpListener;
 use tokio::sync::{mpsc, Mutex};
-use tokio_tungstenite::{accept_async, tungstenite::protocol::Message};
+use tokio_tungstenite::{
+    accept_async_with_config,
+    tungstenite::protocol::{Message, WebSocketConfig},
+};
 use tracing::{error, info, warn};
 
 /// Configuration for WebSocket server transport.
@@ -92,7 +95,11 @@ impl WebSocketServerTransport {
         info!("Accepting WebSocket connection from {}", peer_addr);
 
         // Accept the WebSocket handshake
-        let ws_stream = accept_async(tcp_stream)
+        let limits = WebSocketConfig::default()
+            .max_frame_size(self.config.max_frame_size)
+            .max_message_size(self.config.max_message_size)
+            .accept_unmasked_frames(self.config.accept_unmasked_frames);
+        let ws_stream = accept_async_with_config(tcp_stream, Some(limits))
             .await
             .map_err(|e| Error::internal(format!("WebSocket handshake failed: {}", e)))?;
 
-- 
2.43.0


From 5cbd4f89e9e9d8548a9dbdb0bd99a58e60e7dc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:25 +0000
Subject: [PATCH 53/68] fix: closing the WebSocket server transport closes its
 connection

---
 src/server/transport/websocket.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/server/transport/websocket.rs b/src/server/transport/websocket.rs
index c3342e6..ca47c2d 100644
--- a/src/server/transport/websocket.rs
+++ b/src/server/transport/websocket.rs
@@ -122,7 +122,12 @@ impl WebSocketServerTransport {
         tokio::spawn(async move {
             loop {
                 tokio::select! {
-                    Some(msg) = outgoing_rx.recv() => {
+                    msg = outgoing_rx.recv() => {
+                        // The transport was closed and everything queued has been sent
+                        let Some(msg) = msg else {
+                            let _ = ws_sink.close().await;
+                            break;
+                        };
                         let json_bytes = match crate::shared::stdio::StdioTransport::serialize_message(&msg)
                         {
                             Ok(bytes) => bytes,
@@ -151,7 +156,6 @@ impl WebSocketServerTransport {
                             break;
                         }
                     }
-                    else => break,
                 }
             }
         });
-- 
2.43.0


From e3d51c9089d4f6417093cafa07639db00e075a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:29 +0000
Subject: [PATCH 54/68] fix: WebSocket client sends messages and closes its
 connection

---
 src/shared/websocket.rs | 53 +++++++++++++++++++++++++----------------
 1 file changed, 33 insertions(+), 20 deletions(-)

diff --git a/src/shared/websocket.rs b/src/shared/websocket.rs
index 7be0a17..ca8eea4 100644
--- a/src/shared/websocket.rs
+++ b/src/shared/websocket.rs
@@ -51,7 +51,8 @@ impl Default for WebSocketConfig {
 pub struct WebSocketTransport {
     config: WebSocketConfig,
     state: Arc<RwLock<ConnectionState>>,
-    message_tx: mpsc::Sender<TransportMessage>,
+    /// Writer of the current connection, if any
+    message_tx: Arc<RwLock<Option<mpsc::Sender<Message>>>>,
     message_rx: Arc<AsyncMutex<mpsc::Receiver<TransportMessage>>>,
 }
 
@@ -75,11 +76,12 @@ impl std::fmt::Debug for WebSocketTransport {
 impl WebSocketTransport {
     /// Create a new WebSocket transport with the given configuration.
     pub fn new(config: WebSocketConfig) -> Self {
-        let (tx, rx) = mpsc::channel(100);
+        // Nothing can be received before the transport is connected
+        let (_, rx) = mpsc::channel(1);
         Self {
             config,
             state: Arc::new(RwLock::new(ConnectionState::Disconnected)),
-            message_tx: tx,
+            message_tx: Arc::new(RwLock::new(None)),
             message_rx: Arc::new(AsyncMutex::new(rx)),
         }
     }
@@ -138,15 +140,11 @@ impl WebSocketTransport {
             .map_err(crate::error::TransportError::from)?;
         let (sink, stream) = ws_stream.split();
 
-        {
-            let mut state = self.state.write();
-            *state = ConnectionState::Connected;
-        }
-
         info!("WebSocket connected");
 
-        // Spawn reader task
-        let message_tx = self.message_tx.clone();
+        // Spawn reader task; the queue ends when the connection does
+        let (message_tx, message_rx) = mpsc::channel(100);
+        *self.message_rx.lock().await = message_rx;
         let _reader_handle = tokio::spawn(async move {
             let mut stream = stream;
             while let Some(result) = stream.next().await {
@@ -208,14 +206,19 @@ impl WebSocketTransport {
                     break;
                 }
             }
+            let _ = sink.close().await;
         });
 
         // Spawn ping task if configured
         if let Some(ping_interval) = self.config.ping_interval {
+            let write_tx = write_tx.downgrade();
             tokio::spawn(async move {
                 let mut ticker = interval(ping_interval);
                 loop {
                     ticker.tick().await;
+                    let Some(write_tx) = write_tx.upgrade() else {
+                        break;
+                    };
                     if write_tx.send(Message::Ping(vec![].into())).await.is_err() {
                         break;
                     }
@@ -224,7 +227,8 @@ impl WebSocketTransport {
         }
 
         // Store the writer channel for sending messages
-        // This is a simplified approach - in production you'd want better state management
+        *self.message_tx.write() = Some(write_tx);
+        *self.state.write() = ConnectionState::Connected;
 
         Ok(())
     }
@@ -241,17 +245,21 @@ impl Transport for WebSocketTransport {
             )))
         })?;
 
-        // In a real implementation, we'd need to store the write channel
-        // This is simplified for the example
-        match &*self.state.read() {
-            ConnectionState::Connected => {
-                debug!("Sending WebSocket message: {}", json);
-                Ok(())
-            },
-            _ => Err(crate::error::Error::Transport(
+        if !self.is_connected() {
+            return Err(crate::error::Error::Transport(
                 crate::error::TransportError::ConnectionClosed,
-            )),
+            ));
+        }
+
+        debug!("Sending WebSocket message: {}", json);
+        let writer = self.message_tx.read().clone();
+        if let Some(writer) = writer {
+            writer
+                .send(Message::Text(json.into()))
+                .await
+                .map_err(|_| crate::error::TransportError::ConnectionClosed)?;
         }
+        Ok(())
     }
 
     async fn receive(&mut self) -> Result<TransportMessage> {
@@ -269,6 +277,11 @@ impl Transport for WebSocketTransport {
 
         info!("Closing WebSocket connection");
 
+        // The writer sends what is queued and then closes the connection
+        *self.message_tx.write() = None;
+        let (_, rx) = mpsc::channel(1);
+        *self.message_rx.lock().await = rx;
+
         {
             let mut state = self.state.write();
             *state = ConnectionState::Disconnected;
-- 
2.43.0


From d890fdb1fa66e1fb540c933659f54d4bf2fa4f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:32 +0000
Subject: [PATCH 55/68] fix: WebSocket ends answer the peer's close frame

---
 src/server/transport/websocket.rs | 2 +-
 src/shared/websocket.rs           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/server/transport/websocket.rs b/src/server/transport/websocket.rs
index ca47c2d..f32da07 100644
--- a/src/server/transport/websocket.rs
+++ b/src/server/transport/websocket.rs
@@ -181,8 +181,8 @@ impl WebSocketServerTransport {
                         warn!("Received binary message, ignoring");
                     },
                     Ok(Message::Close(_)) => {
+                        // Reading on sends the close reply and ends the stream
                         info!("WebSocket closed by peer");
-                        break;
                     },
                     Ok(Message::Ping(data)) => {
                         // Queue pong response
diff --git a/src/shared/websocket.rs b/src/shared/websocket.rs
index ca8eea4..7b42eb2 100644
--- a/src/shared/websocket.rs
+++ b/src/shared/websocket.rs
@@ -173,8 +173,8 @@ impl WebSocketTransport {
                         }
                     },
                     Ok(Message::Close(_)) => {
+                        // Reading on sends the close reply and ends the stream
                         info!("WebSocket closed by remote");
-                        break;
                     },
                     Ok(Message::Ping(data)) => {
                         debug!("Received ping: {:?}", data);
-- 
2.43.0


From 44cea63a6af9040693db8cfa22c366e03f91dc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:35 +0000
Subject: [PATCH 56/68] fix: stdio does not allocate by an untrusted declared
 length

---
 src/shared/stdio.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/shared/stdio.rs b/src/shared/stdio.rs
index 72fdc56..abaa146 100644
--- a/src/shared/stdio.rs
+++ b/src/shared/stdio.rs
@@ -205,12 +205,20 @@ impl StdioTransport {
     /// Read message body with specified content length.
     async fn read_message_body(&self, content_length: usize) -> Result<Vec<u8>> {
         let mut stdin = self.stdin.lock().await;
-        let mut buffer = vec![0u8; content_length];
-        stdin
-            .read_exact(&mut buffer)
+        // The declared length is not trusted: memory grows only with what arrives
+        let mut buffer = Vec::new();
+        (&mut *stdin)
+            .take(content_length as u64)
+            .read_to_end(&mut buffer)
             .await
             .map_err(TransportError::from)?;
         drop(stdin);
+        if buffer.len() < content_length {
+            return Err(TransportError::from(std::io::Error::from(
+                std::io::ErrorKind::UnexpectedEof,
+            ))
+            .into());
+        }
         Ok(buffer)
     }
 
-- 
2.43.0


From 8badab0fb2b2a167b8a611bf5f8b84ed0a50ba37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:39 +0000
Subject: [PATCH 57/68] fix: resource watcher keeps every event of a burst

---
 src/server/resource_watcher.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/server/resource_watcher.rs b/src/server/resource_watcher.rs
index 7866e79..62ab303 100644
--- a/src/server/resource_watcher.rs
+++ b/src/server/resource_watcher.rs
@@ -283,13 +283,14 @@ impl ResourceWatcher {
         {
             use notify::{Config, EventKind, RecommendedWatcher, RecursiveMode, Watcher};
 
-            let (tx, mut rx) = mpsc::channel(1000);
+            // Unbounded, so that no event of a burst is dropped
+            let (tx, mut rx) = mpsc::unbounded_channel();
 
             // Create watcher
             let mut watcher = RecommendedWatcher::new(
                 move |res| {
                     if let Ok(event) = res {
-                        let _ = tx.try_send(event);
+                        let _ = tx.send(event);
                     }
                 },
                 Config::default(),
-- 
2.43.0


From f637bd0bdda8c495d37d16145c4deae7fa96fbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:42 +0000
Subject: [PATCH 58/68] fix: resource watcher works with a relative base
 directory

---
 src/server/resource_watcher.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/server/resource_watcher.rs b/src/server/resource_watcher.rs
index 62ab303..24f7f69 100644
--- a/src/server/resource_watcher.rs
+++ b/src/server/resource_watcher.rs
@@ -195,7 +195,9 @@ impl ResourceWatcher {
         self.shutdown_tx = Some(shutdown_tx);
 
         // Start file system watcher
-        let base_dir = self.base_dir.clone();
+        // Events carry absolute paths
+        let base_dir =
+            std::path::absolute(&self.base_dir).unwrap_or_else(|_| self.base_dir.clone());
         let patterns = self.config.patterns.clone();
         let ignore_patterns = self.config.ignore_patterns.clone();
 
-- 
2.43.0


From 57d97c0d17ddc2cb672e8e85c3c02a91e03e25ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:46 +0000
Subject: [PATCH 59/68] fix: resource watcher start waits for the watch and
 reports its failure

---
 src/server/resource_watcher.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/server/resource_watcher.rs b/src/server/resource_watcher.rs
index 24f7f69..d811020 100644
--- a/src/server/resource_watcher.rs
+++ b/src/server/resource_watcher.rs
@@ -6,7 +6,7 @@ use std::collections::HashMap;
 use std::path::{Path, PathBuf};
 use std::sync::Arc;
 use std::time::Duration;
-use tokio::sync::{mpsc, RwLock};
+use tokio::sync::{mpsc, oneshot, RwLock};
 use tokio::time::{interval, Instant};
 use tracing::{debug, error, info, warn};
 
@@ -203,6 +203,7 @@ impl ResourceWatcher {
 
         // Spawn file watcher task
         let event_tx_clone = event_tx.clone();
+        let (ready_tx, ready_rx) = oneshot::channel();
         tokio::spawn(async move {
             if let Err(e) = Self::watch_filesystem(
                 base_dir,
@@ -210,6 +211,7 @@ impl ResourceWatcher {
                 ignore_patterns,
                 event_tx_clone,
                 &mut shutdown_rx,
+                ready_tx,
             )
             .await
             {
@@ -217,6 +219,14 @@ impl ResourceWatcher {
             }
         });
 
+        // Changes are watched for from here on
+        ready_rx.await.map_err(|_| {
+            Error::protocol(
+                ErrorCode::INTERNAL_ERROR,
+                "File system watcher failed to start",
+            )
+        })?;
+
         // Start event processor
         let resources = self.resources.clone();
         let pending_events = self.pending_events.clone();
@@ -280,6 +290,7 @@ impl ResourceWatcher {
         ignore_patterns: Vec<String>,
         event_tx: mpsc::Sender<FileEvent>,
         shutdown_rx: &mut mpsc::Receiver<()>,
+        ready_tx: oneshot::Sender<()>,
     ) -> Result<()> {
         #[cfg(feature = "resource-watcher")]
         {
@@ -314,6 +325,8 @@ impl ResourceWatcher {
                     )
                 })?;
 
+            let _ = ready_tx.send(());
+
             loop {
                 tokio::select! {
                     _ = shutdown_rx.recv() => {
@@ -355,6 +368,7 @@ impl ResourceWatcher {
         #[cfg(not(feature = "resource-watcher"))]
         {
             warn!("Resource watching is not enabled (requires 'resource-watcher' feature)");
+            let _ = ready_tx.send(());
             Ok(())
         }
     }
-- 
2.43.0


From 364c7ba47c6b719a6f08ba0b2eddaed9ce00d277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:54 +0000
Subject: [PATCH 60/68] fix: server answers completion/complete with a valid
 result

---
 src/server/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/server/mod.rs b/src/server/mod.rs
index 9eca3ca..97058d2 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -597,9 +597,16 @@ impl Server {
             ClientRequest::ListResourceTemplates(req) => {
                 Self::handle_list_resource_templates(self, req)
             },
+            // No completion handlers can be registered, so there is nothing to suggest
+            ClientRequest::Complete(_) => Ok(serde_json::to_value(crate::types::CompleteResult {
+                completion: crate::types::CompletionResult {
+                    values: vec![],
+                    total: None,
+                    has_more: false,
+                },
+            })?),
             ClientRequest::Subscribe(_)
             | ClientRequest::Unsubscribe(_)
-            | ClientRequest::Complete(_)
             | ClientRequest::SetLoggingLevel { level: _ }
             | ClientRequest::Ping => Ok(serde_json::json!({})),
             ClientRequest::CreateMessage(req) => self.handle_create_message(request_id, req).await,
-- 
2.43.0


From d0b629e6e7472b15e0083cd186fc3d8c245492a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:54 +0000
Subject: [PATCH 61/68] fix: tool macro generates code that compiles against
 pmcp

---
 pmcp-macros/src/tool.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pmcp-macros/src/tool.rs b/pmcp-macros/src/tool.rs
index 3a2fdac..5b29370 100644
--- a/pmcp-macros/src/tool.rs
+++ b/pmcp-macros/src/tool.rs
@@ -109,11 +109,11 @@ pub fn expand_tool(args: TokenStream, input: ItemFn) -> syn::Result<TokenStream>
 
         impl #wrapper_name {
             /// Get tool definition
-            pub fn definition() -> pmcp::types::Tool {
-                pmcp::types::Tool {
+            pub fn definition() -> pmcp::types::ToolInfo {
+                pmcp::types::ToolInfo {
                     name: #tool_name.to_string(),
                     description: Some(#description.to_string()),
-                    input_schema: Some(Self::input_schema()),
+                    input_schema: Self::input_schema(),
                 }
             }
 
@@ -192,7 +192,7 @@ fn generate_param_extraction(params: &[ParamInfo]) -> syn::Result<TokenStream> {
             extractions.push(quote! {
                 let #name: #ty = args.get(#name_str)
                     .and_then(|v| serde_json::from_value(v.clone()).ok())
-                    .ok_or_else(|| pmcp::Error::InvalidParams(
+                    .ok_or_else(|| pmcp::Error::invalid_params(
                         format!("Missing required parameter: {}", #name_str)
                     ))?;
             });
@@ -212,16 +212,16 @@ fn generate_result_conversion(return_type: &Type) -> syn::Result<TokenStream> {
             match result {
                 Ok(value) => {
                     let json_value = serde_json::to_value(value)
-                        .map_err(|e| pmcp::Error::InternalError(e.to_string()))?;
+                        .map_err(|e| pmcp::Error::internal(e.to_string()))?;
                     Ok(json_value)
                 }
-                Err(e) => Err(pmcp::Error::ToolError(e.to_string()))
+                Err(e) => Err(pmcp::Error::internal(e.to_string()))
             }
         })
     } else {
         Ok(quote! {
             let json_value = serde_json::to_value(result)
-                .map_err(|e| pmcp::Error::InternalError(e.to_string()))?;
+                .map_err(|e| pmcp::Error::internal(e.to_string()))?;
             Ok(json_value)
         })
     }
-- 
2.43.0


From 39bff1a5754393f3031510318fa2fed3f35ed799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:54 +0000
Subject: [PATCH 62/68] fix: tool macro accepts functions and parameters with
 raw names, and ones named args

---
 pmcp-macros/src/tool.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pmcp-macros/src/tool.rs b/pmcp-macros/src/tool.rs
index 5b29370..f566e8f 100644
--- a/pmcp-macros/src/tool.rs
+++ b/pmcp-macros/src/tool.rs
@@ -6,6 +6,7 @@
 use darling::FromMeta;
 use proc_macro2::{Ident, TokenStream};
 use quote::quote;
+use syn::ext::IdentExt;
 use syn::parse::Parser;
 use syn::{parse_quote, FnArg, ItemFn, Pat, PatType, ReturnType, Type, TypePath};
 
@@ -55,7 +56,7 @@ pub fn expand_tool(args: TokenStream, input: ItemFn) -> syn::Result<TokenStream>
         .map_err(|e| syn::Error::new_spanned(&input.sig.ident, e.to_string()))?;
 
     let fn_name = &input.sig.ident;
-    let tool_name = args.name.unwrap_or_else(|| fn_name.to_string());
+    let tool_name = args.name.unwrap_or_else(|| fn_name.unraw().to_string());
     let description = args.description;
 
     // Extract function parameters
@@ -66,7 +67,10 @@ pub fn expand_tool(args: TokenStream, input: ItemFn) -> syn::Result<TokenStream>
 
     // Generate the wrapper struct and implementation
     let wrapper_name = Ident::new(
-        &format!("{}ToolHandler", to_pascal_case(&fn_name.to_string())),
+        &format!(
+            "{}ToolHandler",
+            to_pascal_case(&fn_name.unraw().to_string())
+        ),
         fn_name.span(),
     );
 
@@ -93,7 +97,7 @@ pub fn expand_tool(args: TokenStream, input: ItemFn) -> syn::Result<TokenStream>
         impl pmcp::ToolHandler for #wrapper_name {
             async fn handle(
                 &self,
-                args: serde_json::Value,
+                __tool_args: serde_json::Value,
                 _extra: pmcp::RequestHandlerExtra,
             ) -> pmcp::Result<serde_json::Value> {
                 // Extract parameters from JSON
@@ -179,18 +183,18 @@ fn generate_param_extraction(params: &[ParamInfo]) -> syn::Result<TokenStream> {
 
     for param in params {
         let name = &param.name;
-        let name_str = name.to_string();
+        let name_str = name.unraw().to_string();
         let ty = &param.ty;
 
         if param.optional {
             extractions.push(quote! {
-                let #name: #ty = args.get(#name_str)
+                let #name: #ty = __tool_args.get(#name_str)
                     .and_then(|v| serde_json::from_value(v.clone()).ok())
                     .unwrap_or_default();
             });
         } else {
             extractions.push(quote! {
-                let #name: #ty = args.get(#name_str)
+                let #name: #ty = __tool_args.get(#name_str)
                     .and_then(|v| serde_json::from_value(v.clone()).ok())
                     .ok_or_else(|| pmcp::Error::invalid_params(
                         format!("Missing required parameter: {}", #name_str)
-- 
2.43.0


From 15a2d9fa2cf659e19d8ef67c16a732d947755f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:54 +0000
Subject: [PATCH 63/68] fix: tool macro refuses ill-typed optional arguments

---
 pmcp-macros/src/tool.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pmcp-macros/src/tool.rs b/pmcp-macros/src/tool.rs
index f566e8f..e1d94d4 100644
--- a/pmcp-macros/src/tool.rs
+++ b/pmcp-macros/src/tool.rs
@@ -188,9 +188,14 @@ fn generate_param_extraction(params: &[ParamInfo]) -> syn::Result<TokenStream> {
 
         if param.optional {
             extractions.push(quote! {
-                let #name: #ty = __tool_args.get(#name_str)
-                    .and_then(|v| serde_json::from_value(v.clone()).ok())
-                    .unwrap_or_default();
+                let #name: #ty = match __tool_args.get(#name_str) {
+                    Some(v) => serde_json::from_value(v.clone()).map_err(|e| {
+                        pmcp::Error::invalid_params(
+                            format!("Invalid parameter {}: {}", #name_str, e)
+                        )
+                    })?,
+                    None => None,
+                };
             });
         } else {
             extractions.push(quote! {
-- 
2.43.0


From d87593eecef593bb4fbbb99b9b7b2640d847976b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:47 +0000
Subject: [PATCH 64/68] fix: the late response of a cancelled request is not
 taken for another request's answer

---
 src/client/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index d85dfbb..1805b73 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -1221,10 +1221,11 @@ impl<T: Transport> Client<T> {
         }))
         .await?;
 
-        // Cancel any local tracking
-        let sender = self.active_requests.write().await.remove(request_id);
-        if let Some(sender) = sender {
-            let _ = sender.send(());
+        // Signal the request, but keep tracking it: its response may already be on the
+        // way and must not be taken for the answer to another request
+        if let Some(sender) = self.active_requests.write().await.get_mut(request_id) {
+            let (closed, _) = oneshot::channel();
+            let _ = std::mem::replace(sender, closed).send(());
         }
 
         Ok(())
-- 
2.43.0


From bd65b7b7dc1bae40d31fa04d043a3d335b155da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:23 +0000
Subject: [PATCH 65/68] fix: a session renewed while expired ones are removed
 is kept

---
 src/shared/session.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/shared/session.rs b/src/shared/session.rs
index d31a73d..9802de6 100644
--- a/src/shared/session.rs
+++ b/src/shared/session.rs
@@ -190,20 +190,23 @@ impl SessionManager {
 
     /// Validate and refresh a session.
     pub fn validate_session(&self, session_id: &str) -> Result<Session> {
-        let session = self
-            .get_session(session_id)
-            .ok_or_else(|| Error::protocol(ErrorCode::INVALID_REQUEST, "Invalid session ID"))?;
-
-        // Check if expired
-        if session.expires_at < Utc::now() {
-            self.destroy_session(session_id)?;
+        // Check if expired, and remove it in the same step: it may be renewed concurrently
+        let now = Utc::now();
+        let expired = self
+            .sessions
+            .remove_if(session_id, |_, session| session.expires_at < now);
+        if let Some((_, session)) = expired {
+            if let Some(callback) = &self.callbacks.on_destroy {
+                callback(&session);
+            }
             return Err(Error::protocol(
                 ErrorCode::INVALID_REQUEST,
                 "Session expired",
             ));
         }
 
-        Ok(session)
+        self.get_session(session_id)
+            .ok_or_else(|| Error::protocol(ErrorCode::INVALID_REQUEST, "Invalid session ID"))
     }
 
     /// Update session data.
@@ -261,7 +264,11 @@ impl SessionManager {
             .collect();
 
         for session_id in expired {
-            if let Some((_, session)) = self.sessions.remove(&session_id) {
+            // It may have been renewed in the meantime
+            let expired = self
+                .sessions
+                .remove_if(&session_id, |_, session| session.expires_at < now);
+            if let Some((_, session)) = expired {
                 // Call expiry callback
                 if let Some(callback) = &self.callbacks.on_expire {
                     callback(&session);
-- 
2.43.0


From 02a0aa47942bb53b6100972a13eba0d7685d026a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:21 +0000
Subject: [PATCH 66/68] fix: a flush of debounced notifications cannot overtake
 one under way

---
 src/server/notification_debouncer.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/server/notification_debouncer.rs b/src/server/notification_debouncer.rs
index ab91af8..e331aca 100644
--- a/src/server/notification_debouncer.rs
+++ b/src/server/notification_debouncer.rs
@@ -9,7 +9,7 @@ use crate::types::protocol::ServerNotification;
 use std::collections::HashMap;
 use std::sync::Arc;
 use std::time::Duration;
-use tokio::sync::{mpsc, RwLock};
+use tokio::sync::{mpsc, Mutex, RwLock};
 use tokio::time::{interval, sleep, Instant};
 use tracing::{debug, trace, warn};
 
@@ -57,7 +57,9 @@ impl Default for NotificationDebouncerConfig {
 pub struct NotificationDebouncer {
     config: NotificationDebouncerConfig,
     pending: Arc<RwLock<HashMap<String, PendingNotification>>>,
-    output_tx: mpsc::Sender<ServerNotification>,
+    // Locked before notifications leave `pending` until they are sent, so that a later
+    // flush cannot overtake them
+    output_tx: Arc<Mutex<mpsc::Sender<ServerNotification>>>,
     shutdown_tx: Option<mpsc::Sender<()>>,
 }
 
@@ -89,7 +91,7 @@ impl NotificationDebouncer {
         Self {
             config,
             pending: Arc::new(RwLock::new(HashMap::new())),
-            output_tx,
+            output_tx: Arc::new(Mutex::new(output_tx)),
             shutdown_tx: None,
         }
     }
@@ -253,9 +255,10 @@ fn notification_type(notification: &ServerNotification) -> &'static str {
 #[allow(clippy::cognitive_complexity)]
 async fn flush_pending(
     pending: &Arc<RwLock<HashMap<String, PendingNotification>>>,
-    output_tx: &mpsc::Sender<ServerNotification>,
+    output_tx: &Mutex<mpsc::Sender<ServerNotification>>,
     config: &NotificationDebouncerConfig,
 ) {
+    let output_tx = output_tx.lock().await;
     let now = Instant::now();
     let mut to_flush = Vec::new();
 
@@ -314,8 +317,9 @@ async fn flush_pending(
 /// Flush all pending notifications immediately
 async fn flush_all(
     pending: &Arc<RwLock<HashMap<String, PendingNotification>>>,
-    output_tx: &mpsc::Sender<ServerNotification>,
+    output_tx: &Mutex<mpsc::Sender<ServerNotification>>,
 ) {
+    let output_tx = output_tx.lock().await;
     let mut pending_map = pending.write().await;
 
     for (_, pending_notif) in pending_map.drain() {
-- 
2.43.0


From 9d0b4a0eefed367fbfbc01c3d7cc9e5be24a02b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:20 +0000
Subject: [PATCH 67/68] fix: asking the WebSocket server transport whether it
 is connected cannot block its thread

---
 src/server/transport/websocket.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/server/transport/websocket.rs b/src/server/transport/websocket.rs
index f32da07..49f942a 100644
--- a/src/server/transport/websocket.rs
+++ b/src/server/transport/websocket.rs
@@ -251,8 +251,9 @@ impl Transport for WebSocketServerTransport {
     }
 
     fn is_connected(&self) -> bool {
-        // Check if we have active channels
-        futures::executor::block_on(async { self.outgoing_tx.lock().await.is_some() })
+        // Check if we have active channels. Waiting for the lock would block the
+        // thread; it is only held elsewhere while a message is sent over them.
+        self.outgoing_tx.try_lock().map_or(true, |tx| tx.is_some())
     }
 
     fn transport_type(&self) -> &'static str {
-- 
2.43.0


From d6b339a1338d208333d592bc6204258c57024e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:22 +0000
Subject: [PATCH 68/68] fix: the first wait of a WebSocket client between
 attempts is bounded like the others

---
 src/shared/websocket.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/shared/websocket.rs b/src/shared/websocket.rs
index 7b42eb2..82b3657 100644
--- a/src/shared/websocket.rs
+++ b/src/shared/websocket.rs
@@ -101,7 +101,10 @@ impl WebSocketTransport {
 
     async fn connect_with_retry(&self) -> Result<()> {
         let mut attempts = 0;
-        let mut delay = self.config.reconnect_delay;
+        let mut delay = self
+            .config
+            .reconnect_delay
+            .min(self.config.max_reconnect_delay);
 
         loop {
             match self.connect_once().await {
-- 
2.43.0

