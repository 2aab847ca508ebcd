From aaa61a16f94d75b38cb82c4e601055b85d40c66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:11 +0000
Subject: [PATCH 01/35] fix: const_utf8_char_next must read the bytes following
 the first one and reject invalid code points

---
 src/lib.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ce74d1c..96ab23d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -539,25 +539,26 @@ pub const fn const_utf8_char_next(data: &[u8]) -> (u32, u32) {
     };
     let first = *first;
     let mut value;
-    let len = if first & 0b1000_0000 == 0 {
+    // the number of continuation bytes following the first byte
+    let extra = if first & 0b1000_0000 == 0 {
         return (first as u32, 1);
     } else if first & 0b1110_0000 == 0b1100_0000 {
         value = (first & 0b0001_1111) as u32;
-        2
+        1
     } else if first & 0b1111_0000 == 0b1110_0000 {
         value = (first & 0b0000_1111) as u32;
-        3
+        2
     } else if first & 0b1111_1000 == 0b1111_0000 {
         value = (first & 0b0000_0111) as u32;
-        4
+        3
     } else {
         return (0, 0);
     };
-    if data.len() < len {
+    if data.len() < extra {
         return (0, 0);
     }
-    let mut i = 1;
-    while i < len {
+    let mut i = 0;
+    while i < extra {
         let byte = data[i];
         if byte & 0b1100_0000 != 0b1000_0000 {
             return (0, 0);
@@ -565,8 +566,13 @@ pub const fn const_utf8_char_next(data: &[u8]) -> (u32, u32) {
         value = (value << 6_u8) | (byte & 0b0011_1111) as u32;
         i += 1;
     }
+    // reject overlong encodings, surrogates, and values outside of the unicode range
+    match core::char::from_u32(value) {
+        Some(ch) if ch.len_utf8() == extra + 1 => {}
+        Some(_) | None => return (0, 0),
+    }
     #[allow(clippy::cast_possible_truncation)]
-    (value, len as u32)
+    (value, extra as u32 + 1)
 }
 
 #[cfg(test)]
-- 
2.43.0


From e8da810bad4aa2bae08c8c94584ef036d5d458a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:33 +0000
Subject: [PATCH 02/35] fix: const_slice_str must accept the empty range at the
 end of the string

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 96ab23d..ea1135c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -380,7 +380,7 @@ pub const fn const_slice_str(data: &'_ str, range: core::ops::Range<usize>) -> S
     if start > end || end > data.len() {
         return StrSliceResult::OutOfBounds;
     }
-    if start != 0 && data[start] & 0b1100_0000 == 0b1000_0000 {
+    if start != 0 && start != data.len() && data[start] & 0b1100_0000 == 0b1000_0000 {
         return StrSliceResult::InvalidUtf8;
     }
     if end != data.len() && data[end] & 0b1100_0000 == 0b1000_0000 {
-- 
2.43.0


From 3e192db597c722420329d43066516a4557bfbd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:34 +0000
Subject: [PATCH 03/35] fix: SharedBytesBuilder::with_aligned_capacity must use
 the requested alignment

---
 src/shared_bytes_builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shared_bytes_builder.rs b/src/shared_bytes_builder.rs
index f6f01bb..2264595 100644
--- a/src/shared_bytes_builder.rs
+++ b/src/shared_bytes_builder.rs
@@ -107,7 +107,7 @@ impl SharedBytesBuilder {
             return Self::with_alignment(alignment);
         }
         assert!(alignment <= 512, "SharedBytesBuilder::with_aligned_capacity: alignment must be less than or equal to 512");
-        let align = Self::cap_check(cap, core::mem::align_of::<SharedBytesMeta>());
+        let align = Self::cap_check(cap, alignment);
         let align2 = alignment.next_power_of_two();
         assert!(
             align2 == alignment,
-- 
2.43.0


From 7e78f741ef084401ede8f7e8a9e1ee532db41ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:34 +0000
Subject: [PATCH 04/35] fix: SharedBytesBuilder::apply_borrowed_buf must
 advance the written length, not the capacity

---
 src/shared_bytes_builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shared_bytes_builder.rs b/src/shared_bytes_builder.rs
index 2264595..e33ca86 100644
--- a/src/shared_bytes_builder.rs
+++ b/src/shared_bytes_builder.rs
@@ -627,7 +627,7 @@ impl SharedBytesBuilder {
         let ret = fun(&mut bb);
         #[allow(clippy::cast_possible_truncation)]
         let len = bb.len() as u32;
-        self.len += len;
+        self.off += len;
         ret
     }
 }
-- 
2.43.0


From 7dfddc51c4cb7b2607b2b4f3960d04f479742b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:35 +0000
Subject: [PATCH 05/35] fix: SharedBytesBuilder::truncate must not wrap lengths
 above 4 GiB

---
 src/shared_bytes_builder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/shared_bytes_builder.rs b/src/shared_bytes_builder.rs
index e33ca86..18dbe69 100644
--- a/src/shared_bytes_builder.rs
+++ b/src/shared_bytes_builder.rs
@@ -285,6 +285,9 @@ impl SharedBytesBuilder {
         if self.len == 0 {
             return;
         }
+        if len >= self.len() {
+            return;
+        }
         #[allow(clippy::cast_possible_truncation)]
         let data_off = SharedBytesMeta::compute_start_offset(self.align).saturating_add(len as u32);
         if self.off > data_off {
-- 
2.43.0


From a2c48aac08f2a483ee44ba7fd8ec31b5012e745a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:36 +0000
Subject: [PATCH 06/35] fix: slicing SharedBytes must panic on out of bounds
 ranges whose end wraps around

---
 src/shared_bytes.rs | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/shared_bytes.rs b/src/shared_bytes.rs
index d2b9553..0b534b4 100644
--- a/src/shared_bytes.rs
+++ b/src/shared_bytes.rs
@@ -255,7 +255,7 @@ impl SharedBytes {
             "SharedBytes::sliced: offset out of bounds"
         );
         assert!(
-            offset + len <= self.len as usize,
+            len <= self.len as usize - offset,
             "SharedBytes::sliced: offset + len out of bounds"
         );
         if len == 0 {
@@ -288,11 +288,15 @@ impl SharedBytes {
     pub fn sliced_range<R: RangeBounds<usize>>(&self, range: R) -> Self {
         let start = match range.start_bound() {
             Bound::Included(start) => *start,
-            Bound::Excluded(start) => *start + 1,
+            Bound::Excluded(start) => start
+                .checked_add(1)
+                .unwrap_or_else(|| panic!("SharedBytes: range out of bounds")),
             Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            Bound::Included(end) => end + 1,
+            Bound::Included(end) => end
+                .checked_add(1)
+                .unwrap_or_else(|| panic!("SharedBytes: range out of bounds")),
             Bound::Excluded(end) => *end,
             Bound::Unbounded => self.len as usize,
         };
@@ -314,7 +318,7 @@ impl SharedBytes {
             "SharedBytes::into_sliced: offset out of bounds"
         );
         assert!(
-            offset + len <= self.len as usize,
+            len <= self.len as usize - offset,
             "SharedBytes::into_sliced: offset + len out of bounds"
         );
         self.len = len as u32;
@@ -335,7 +339,7 @@ impl SharedBytes {
             "SharedBytes::make_sliced: offset out of bounds"
         );
         assert!(
-            offset + len <= self.len as usize,
+            len <= self.len as usize - offset,
             "SharedBytes::make_sliced: offset + len out of bounds"
         );
         self.len = len as u32;
@@ -354,14 +358,19 @@ impl SharedBytes {
     pub fn into_sliced_range<R: RangeBounds<usize>>(self, range: R) -> Self {
         let start = match range.start_bound() {
             Bound::Included(start) => *start,
-            Bound::Excluded(start) => *start + 1,
+            Bound::Excluded(start) => start
+                .checked_add(1)
+                .unwrap_or_else(|| panic!("SharedBytes: range out of bounds")),
             Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            Bound::Included(end) => end + 1,
+            Bound::Included(end) => end
+                .checked_add(1)
+                .unwrap_or_else(|| panic!("SharedBytes: range out of bounds")),
             Bound::Excluded(end) => *end,
             Bound::Unbounded => self.len as usize,
         };
+        assert!(end >= start, "SharedBytes::into_sliced_range: end < start");
         self.into_sliced(start, end - start)
     }
 
@@ -375,14 +384,19 @@ impl SharedBytes {
     pub fn make_sliced_range<R: RangeBounds<usize>>(&mut self, range: R) -> &mut Self {
         let start = match range.start_bound() {
             Bound::Included(start) => *start,
-            Bound::Excluded(start) => *start + 1,
+            Bound::Excluded(start) => start
+                .checked_add(1)
+                .unwrap_or_else(|| panic!("SharedBytes: range out of bounds")),
             Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            Bound::Included(end) => end + 1,
+            Bound::Included(end) => end
+                .checked_add(1)
+                .unwrap_or_else(|| panic!("SharedBytes: range out of bounds")),
             Bound::Excluded(end) => *end,
             Bound::Unbounded => self.len as usize,
         };
+        assert!(end >= start, "SharedBytes::make_sliced_range: end < start");
         self.make_sliced(start, end - start)
     }
 
-- 
2.43.0


From 7548dc17b32a41c80e8e6cf69166459be3da18d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:52 +0000
Subject: [PATCH 07/35] fix: slicing inline, external and string data must
 panic when an inclusive end wraps around

---
 src/byte_chunk.rs | 24 ++++++++++++++++++------
 src/external.rs   | 16 ++++++++++++----
 src/stringdata.rs |  8 ++++++--
 3 files changed, 36 insertions(+), 12 deletions(-)

diff --git a/src/byte_chunk.rs b/src/byte_chunk.rs
index cabffe3..c9e6adb 100644
--- a/src/byte_chunk.rs
+++ b/src/byte_chunk.rs
@@ -129,11 +129,15 @@ impl ByteChunk {
     ) -> Self {
         let start = match range.start_bound() {
             core::ops::Bound::Included(&start) => start,
-            core::ops::Bound::Excluded(&start) => start + 1,
+            core::ops::Bound::Excluded(&start) => start
+                .checked_add(1)
+                .unwrap_or_else(|| panic!("ByteData: range out of bounds")),
             core::ops::Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            core::ops::Bound::Included(&end) => end + 1,
+            core::ops::Bound::Included(&end) => end
+                .checked_add(1)
+                .unwrap_or_else(|| panic!("ByteData: range out of bounds")),
             core::ops::Bound::Excluded(&end) => end,
             core::ops::Bound::Unbounded => self.len as usize,
         };
@@ -151,11 +155,15 @@ impl ByteChunk {
     ) -> Self {
         let start = match range.start_bound() {
             core::ops::Bound::Included(&start) => start,
-            core::ops::Bound::Excluded(&start) => start + 1,
+            core::ops::Bound::Excluded(&start) => start
+                .checked_add(1)
+                .unwrap_or_else(|| panic!("ByteData: range out of bounds")),
             core::ops::Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            core::ops::Bound::Included(&end) => end + 1,
+            core::ops::Bound::Included(&end) => end
+                .checked_add(1)
+                .unwrap_or_else(|| panic!("ByteData: range out of bounds")),
             core::ops::Bound::Excluded(&end) => end,
             core::ops::Bound::Unbounded => self.len as usize,
         };
@@ -171,11 +179,15 @@ impl ByteChunk {
     ) {
         let start = match range.start_bound() {
             core::ops::Bound::Included(&start) => start,
-            core::ops::Bound::Excluded(&start) => start + 1,
+            core::ops::Bound::Excluded(&start) => start
+                .checked_add(1)
+                .unwrap_or_else(|| panic!("ByteData: range out of bounds")),
             core::ops::Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            core::ops::Bound::Included(&end) => end + 1,
+            core::ops::Bound::Included(&end) => end
+                .checked_add(1)
+                .unwrap_or_else(|| panic!("ByteData: range out of bounds")),
             core::ops::Bound::Excluded(&end) => end,
             core::ops::Bound::Unbounded => self.len as usize,
         };
diff --git a/src/external.rs b/src/external.rs
index ed01151..bbb3294 100644
--- a/src/external.rs
+++ b/src/external.rs
@@ -242,11 +242,15 @@ impl ExtBytes {
         let len = dd.len();
         let start = match range.start_bound() {
             core::ops::Bound::Included(&st) => st,
-            core::ops::Bound::Excluded(&st) => st + 1,
+            core::ops::Bound::Excluded(&st) => st
+                .checked_add(1)
+                .unwrap_or_else(|| panic!("ByteData: range out of bounds")),
             core::ops::Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            core::ops::Bound::Included(&end) => end + 1,
+            core::ops::Bound::Included(&end) => end
+                .checked_add(1)
+                .unwrap_or_else(|| panic!("ByteData: range out of bounds")),
             core::ops::Bound::Excluded(&end) => end,
             core::ops::Bound::Unbounded => len,
         };
@@ -275,11 +279,15 @@ impl ExtBytes {
         let len = dd.len();
         let start = match range.start_bound() {
             core::ops::Bound::Included(&start) => start,
-            core::ops::Bound::Excluded(&start) => start + 1,
+            core::ops::Bound::Excluded(&start) => start
+                .checked_add(1)
+                .unwrap_or_else(|| panic!("ByteData: range out of bounds")),
             core::ops::Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            core::ops::Bound::Included(&end) => end + 1,
+            core::ops::Bound::Included(&end) => end
+                .checked_add(1)
+                .unwrap_or_else(|| panic!("ByteData: range out of bounds")),
             core::ops::Bound::Excluded(&end) => end,
             core::ops::Bound::Unbounded => len,
         };
diff --git a/src/stringdata.rs b/src/stringdata.rs
index d434ee9..4bdc695 100644
--- a/src/stringdata.rs
+++ b/src/stringdata.rs
@@ -284,11 +284,15 @@ impl<'a> StringData<'a> {
         let by = self.data.as_slice();
         let start = match range.start_bound() {
             Bound::Included(start) => *start,
-            Bound::Excluded(start) => *start + 1,
+            Bound::Excluded(start) => start
+                .checked_add(1)
+                .unwrap_or_else(|| panic!("StringData: range out of bounds")),
             Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            Bound::Included(end) => end + 1,
+            Bound::Included(end) => end
+                .checked_add(1)
+                .unwrap_or_else(|| panic!("StringData: range out of bounds")),
             Bound::Excluded(end) => *end,
             Bound::Unbounded => self.len(),
         };
-- 
2.43.0


From 2511f6d03a94dfa9d5143d1df6320814c0cfa17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:53 +0000
Subject: [PATCH 08/35] fix: ByteQueue range checks must panic when an excluded
 start wraps around

---
 src/queue/byte_queue.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/queue/byte_queue.rs b/src/queue/byte_queue.rs
index 8fbdb8d..30aafc8 100644
--- a/src/queue/byte_queue.rs
+++ b/src/queue/byte_queue.rs
@@ -180,7 +180,9 @@ impl<'a> ByteQueue<'a> {
         };
         let start = match range.start_bound() {
             core::ops::Bound::Included(vv) => *vv,
-            core::ops::Bound::Excluded(vv) => *vv + 1,
+            core::ops::Bound::Excluded(vv) => vv
+                .checked_add(1)
+                .unwrap_or_else(|| panic!("slicing outside of bounds")),
             core::ops::Bound::Unbounded => 0,
         };
         assert!(
-- 
2.43.0


From 98dd570dfdbdf4539ae63ad26d52c6feb6f98bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:09 +0000
Subject: [PATCH 09/35] fix: ByteData::into_shared_range must not leave a short
 or empty external slice

---
 src/bytedata.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bytedata.rs b/src/bytedata.rs
index cf853eb..1f75df9 100644
--- a/src/bytedata.rs
+++ b/src/bytedata.rs
@@ -766,6 +766,12 @@ impl<'a> ByteData<'a> {
                 unsafe {
                     (*self.external).make_sliced_range(range);
                 };
+                // SAFETY: External state has been checked.
+                let data = unsafe { (*self.external).as_slice() };
+                if data.len() <= crate::byte_chunk::ByteChunk::LEN {
+                    // external data is never shorter than this, `self` is dropped as usual
+                    return ByteData::from_chunk_slice(data);
+                }
                 // SAFETY: the External state is owned, so it can be transformed to any lifetime.
                 unsafe { core::mem::transmute::<ByteData<'a>, ByteData<'s>>(self) }
             }
-- 
2.43.0


From 7c4c206e48f8dd251128eb8496ef08bf4dcce0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:20 +0000
Subject: [PATCH 10/35] fix: ByteData::split_on must skip the separator instead
 of yielding empty pieces forever

---
 src/bytedata.rs | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/bytedata.rs b/src/bytedata.rs
index 1f75df9..422840d 100644
--- a/src/bytedata.rs
+++ b/src/bytedata.rs
@@ -858,7 +858,7 @@ impl<'a> ByteData<'a> {
     where
         'a: 'b,
     {
-        struct It<'a, 'b>(ByteData<'a>, &'b [u8], bool);
+        struct It<'a, 'b>(ByteData<'a>, &'b [u8]);
         impl<'a> Iterator for It<'a, '_> {
             type Item = ByteData<'a>;
 
@@ -866,19 +866,13 @@ impl<'a> ByteData<'a> {
                 if self.0.is_empty() {
                     return None;
                 }
-                let aa = if let Some((aa, _)) =
-                    crate::const_split_once_bytes(self.0.as_slice(), self.1)
-                {
-                    aa.len()
-                } else {
-                    return Some(core::mem::replace(&mut self.0, ByteData::empty()));
+                let aa = match crate::const_split_once_bytes(self.0.as_slice(), self.1) {
+                    Some((aa, _)) if !self.1.is_empty() => aa.len(),
+                    _ => return Some(core::mem::replace(&mut self.0, ByteData::empty())),
                 };
-                if aa == 0 && self.2 {
-                    self.2 = false;
-                    return Some(ByteData::empty());
-                }
-                self.2 = false;
                 let aa = self.0.take_bytes(aa);
+                // the separator is not part of any of the pieces
+                self.0.make_sliced(self.1.len()..);
                 Some(aa)
             }
 
@@ -894,7 +888,7 @@ impl<'a> ByteData<'a> {
                 }
             }
         }
-        It(self, needle, true)
+        It(self, needle)
     }
 }
 
-- 
2.43.0


From ffeb388d29edd17a1dd030a3ffa4e4c256762d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:21 +0000
Subject: [PATCH 11/35] fix: StringData::take_line must include the newline

---
 src/stringdata.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/stringdata.rs b/src/stringdata.rs
index 4bdc695..993e778 100644
--- a/src/stringdata.rs
+++ b/src/stringdata.rs
@@ -371,6 +371,7 @@ impl<'a> StringData<'a> {
         let Some(position) = self.as_str().find('\n') else {
             return core::mem::replace(self, Self::empty());
         };
+        let position = position + 1;
         let av = self.sliced(0..position);
         self.make_sliced(position..);
         av
-- 
2.43.0


From bcb8f9d202544aa0981fe6dd6d08391045ca1d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:34 +0000
Subject: [PATCH 12/35] fix: LinkedRoot::append must count the chambered item
 when it is moved into a node

---
 src/queue/linked_root.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/queue/linked_root.rs b/src/queue/linked_root.rs
index 91962b3..a901bc9 100644
--- a/src/queue/linked_root.rs
+++ b/src/queue/linked_root.rs
@@ -272,8 +272,10 @@ impl<'a> LinkedRoot<'a> {
             other.count -= 1;
             // SAFETY: if the pointer is non-null it points to a valid `LinkedNodeLeaf`.
             if let Some(fst) = unsafe { other.first.as_mut() } {
-                if let Err(val) = fst.data.push_front(chamber) {
-                    self.push_back(val);
+                match fst.data.push_front(chamber) {
+                    // the item is still part of `other`
+                    Ok(()) => other.count += 1,
+                    Err(val) => self.push_back(val),
                 }
             } else {
                 self.push_back(chamber);
-- 
2.43.0


From bdae4dd86585c2fef25a962d844735247de444d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:03 +0000
Subject: [PATCH 13/35] fix: ByteQueue::find_slice must handle matches in later
 chunks, partial matches, and empty needles

---
 src/queue/byte_queue.rs | 91 ++++++++++++++++-------------------------
 1 file changed, 36 insertions(+), 55 deletions(-)

diff --git a/src/queue/byte_queue.rs b/src/queue/byte_queue.rs
index 30aafc8..eae62eb 100644
--- a/src/queue/byte_queue.rs
+++ b/src/queue/byte_queue.rs
@@ -301,7 +301,10 @@ impl<'a> ByteQueue<'a> {
         start_byte: usize,
     ) -> Option<(usize, usize, usize)> {
         if data.is_empty() {
-            return Some((0, 0, 0));
+            if start_byte > self.len() {
+                return None;
+            }
+            return Some((start_byte, start_chunk, start_offset));
         }
         self.find_slice_pos_nonempty(data, start_chunk, start_offset, start_byte)
     }
@@ -318,66 +321,44 @@ impl<'a> ByteQueue<'a> {
         // the first byte in the sequence to match possible sequences
         let first_byte = data[0];
 
-        'outer: loop {
-            let mut chunks = self.chunks().skip(start_chunk);
-            let mut sect = chunks.next()?;
-            let len = sect.len();
-            if start_offset >= len {
-                start_offset -= len;
+        let mut chunks = self.chunks().skip(start_chunk);
+        let mut sect = chunks.next()?.as_slice();
+        loop {
+            // move to the chunk containing the candidate position
+            while start_offset >= sect.len() {
+                start_offset -= sect.len();
                 start_chunk += 1;
-                continue;
+                sect = chunks.next()?.as_slice();
             }
-            let marked_byte = loop {
-                let sl = &sect.as_slice()[start_offset..];
-                let Some(av) = sl.iter().position(|x| *x == first_byte) else {
-                    sect = match chunks.next() {
-                        Some(vv) => vv,
-                        _ => return None,
-                    };
-                    start_offset = 0;
-                    start_chunk += 1;
-                    continue;
-                };
-                start_offset += av;
-                start_byte += av;
-                break start_byte;
+            let sl = &sect[start_offset..];
+            let Some(av) = sl.iter().position(|x| *x == first_byte) else {
+                start_byte += sl.len();
+                start_offset = sect.len();
+                continue;
             };
-            let marked_chunk = start_chunk;
-            let marked_offset = start_offset;
-            let mut found_in = false;
-            let mut skipped_bytes = 0;
-            let data = data.iter().skip(1);
-            let mut sl = sect.as_slice()[(start_offset + 1)..].iter();
-            for av in data {
-                let bv = loop {
-                    let nxt = sl.next();
-                    let Some(bv) = nxt else {
-                        sect = match chunks.next() {
-                            Some(vv) => vv,
-                            _ => return None,
-                        };
-                        sl = sect.as_slice().iter();
-                        continue;
-                    };
-                    break *bv;
-                };
-                if !found_in && bv == first_byte {
-                    found_in = true;
-                    start_byte += skipped_bytes;
-                    start_offset += skipped_bytes;
-                    start_offset -= 1;
+            start_offset += av;
+            start_byte += av;
+
+            // compare the sequence with the chunks from the candidate position
+            let mut rest = self.chunks().skip(start_chunk + 1);
+            let mut hay = &sl[av..];
+            let mut left = data;
+            loop {
+                let len = hay.len().min(left.len());
+                if hay[..len] != left[..len] {
+                    break;
                 }
-                if bv == *av {
-                    skipped_bytes += 1;
-                    continue;
+                left = &left[len..];
+                if left.is_empty() {
+                    return Some((start_byte, start_chunk, start_offset));
                 }
-                if !found_in {
-                    start_byte += skipped_bytes;
-                    start_offset += skipped_bytes;
-                }
-                continue 'outer;
+                let Some(next) = rest.next() else {
+                    break;
+                };
+                hay = next.as_slice();
             }
-            return Some((marked_byte, marked_chunk, marked_offset));
+            start_offset += 1;
+            start_byte += 1;
         }
     }
 
-- 
2.43.0


From 4432dd7f3f17a9d6f1ae3116792c54d7bb882ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:04 +0000
Subject: [PATCH 14/35] fix: SplitOn must skip the separator and use the found
 position as a byte index

---
 src/queue/split.rs | 45 +++++++++++++++------------------------------
 1 file changed, 15 insertions(+), 30 deletions(-)

diff --git a/src/queue/split.rs b/src/queue/split.rs
index 4eedbdf..4486240 100644
--- a/src/queue/split.rs
+++ b/src/queue/split.rs
@@ -31,37 +31,22 @@ impl<'a> Iterator for SplitOn<'a, '_> {
     #[inline]
     fn next(&mut self) -> Option<Self::Item> {
         fn inner<'a>(this: &mut SplitOn<'a, '_>) -> super::ByteQueue<'a> {
-            let val = this.queue.find_slice_pos(
-                this.needle,
-                this.start_chunk,
-                this.start_offset,
-                this.start_byte,
-            );
-            if let Some((chunk, offset, byte)) = val {
-                let mut chunks = this.queue.chunks().skip(this.start_chunk);
-                let new_q = if this.start_chunk == chunk {
-                    #[allow(clippy::unwrap_used)]
-                    let chunk_next = chunks.next().unwrap();
-                    super::ByteQueue::with_item(chunk_next.sliced(this.start_offset..offset))
-                } else {
-                    let mut new_q = super::ByteQueue::new();
-                    #[allow(clippy::unwrap_used)]
-                    let chunk_next = chunks.next().unwrap();
-                    new_q.push_back(chunk_next.sliced(this.start_offset..));
-                    for chunkdata in chunks.take(chunk - this.start_chunk - 1) {
-                        new_q.push_back(chunkdata.clone());
-                    }
-                    if offset != 0 {
-                        chunks = this.queue.chunks().skip(chunk);
-                        #[allow(clippy::unwrap_used)]
-                        let chunk_nexter = chunks.next().unwrap();
-                        new_q.push_back(chunk_nexter.sliced(..offset));
-                    }
-                    new_q
-                };
+            let val = if this.needle.is_empty() {
+                None
+            } else {
+                this.queue.find_slice_pos(
+                    this.needle,
+                    this.start_chunk,
+                    this.start_offset,
+                    this.start_byte,
+                )
+            };
+            if let Some((byte, chunk, offset)) = val {
+                let new_q = this.queue.slice(this.start_byte..byte);
+                // the separator is not part of any of the pieces
                 this.start_chunk = chunk;
-                this.start_offset = offset;
-                this.start_byte = byte;
+                this.start_offset = offset + this.needle.len();
+                this.start_byte = byte + this.needle.len();
                 if this.max != 0 {
                     this.max -= 1;
                 }
-- 
2.43.0


From 598de41092ccdd4585c7ea579b90f3dc2f35e6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:04 +0000
Subject: [PATCH 15/35] fix: extending a ByteQueue with strings must update its
 length

---
 src/queue/byte_queue.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/queue/byte_queue.rs b/src/queue/byte_queue.rs
index eae62eb..1828ba2 100644
--- a/src/queue/byte_queue.rs
+++ b/src/queue/byte_queue.rs
@@ -682,7 +682,7 @@ impl<'a> Extend<crate::StringData<'a>> for ByteQueue<'a> {
     #[inline]
     fn extend<T: IntoIterator<Item = crate::StringData<'a>>>(&mut self, iter: T) {
         for i in iter {
-            self.queue.push_back(i.into_bytedata());
+            self.push_back(i.into_bytedata());
         }
     }
 }
@@ -691,7 +691,7 @@ impl<'a> Extend<&'a str> for ByteQueue<'a> {
     #[inline]
     fn extend<T: IntoIterator<Item = &'a str>>(&mut self, iter: T) {
         for i in iter {
-            self.queue.push_back(ByteData::from_borrowed(i.as_bytes()));
+            self.push_back(ByteData::from_borrowed(i.as_bytes()));
         }
     }
 }
@@ -703,7 +703,7 @@ impl Extend<alloc::string::String> for ByteQueue<'_> {
     #[inline]
     fn extend<T: IntoIterator<Item = alloc::string::String>>(&mut self, iter: T) {
         for i in iter {
-            self.queue.push_back(ByteData::from_owned(i.into_bytes()));
+            self.push_back(ByteData::from_owned(i.into_bytes()));
         }
     }
 }
-- 
2.43.0


From fe1dbd739dbb8958d4e7e32fc14bbdf774aa22bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:05 +0000
Subject: [PATCH 16/35] fix: OwnedByteIter::take must keep the first bytes of
 the last chunk

---
 src/queue/byte_iter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/queue/byte_iter.rs b/src/queue/byte_iter.rs
index 9005032..576684c 100644
--- a/src/queue/byte_iter.rs
+++ b/src/queue/byte_iter.rs
@@ -186,7 +186,7 @@ impl<'a> OwnedByteIter<'a> {
             if self.len() >= n {
                 continue;
             }
-            av.make_sliced(..av.len() - n);
+            av.make_sliced(..n - self.len());
             self.inner.push_back(av);
             break;
         }
-- 
2.43.0


From 2f41969cdc609c7c684de6225a60459bd7050abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:36 +0000
Subject: [PATCH 17/35] fix: hashing a ByteQueue must not depend on its chunk
 boundaries

---
 src/queue/byte_queue.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/queue/byte_queue.rs b/src/queue/byte_queue.rs
index 1828ba2..8c68a9e 100644
--- a/src/queue/byte_queue.rs
+++ b/src/queue/byte_queue.rs
@@ -878,8 +878,12 @@ impl Eq for ByteQueue<'_> {}
 impl core::hash::Hash for ByteQueue<'_> {
     #[inline]
     fn hash<H: core::hash::Hasher>(&self, state: &mut H) {
+        // the chunk boundaries must not influence the hash, as they do not influence equality
+        state.write_usize(self.len());
         for chunk in self.chunks() {
-            chunk.as_slice().hash(state);
+            for byte in chunk.as_slice() {
+                state.write_u8(*byte);
+            }
         }
     }
 }
-- 
2.43.0


From d7476bc1c42e340e99f4e4253bcbab54c0533d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:37 +0000
Subject: [PATCH 18/35] fix: read_vectored must not read past the end of the
 data

---
 src/std.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/std.rs b/src/std.rs
index 2731f71..c16266e 100644
--- a/src/std.rs
+++ b/src/std.rs
@@ -28,7 +28,7 @@ fn read_vectored_inner(mut slic: *const u8, len: usize, bufs: &mut [IoSliceMut<'
             continue;
         }
 
-        let blen = buf.len().min(len);
+        let blen = buf.len().min(left);
         // SAFETY: we know that the buffer is large enough as we checked it before
         unsafe { core::ptr::copy_nonoverlapping(slic, buf.as_mut_ptr(), blen) };
         // SAFETY: the pointer gets moved by `blen` which is guaranteed to be in bounds
-- 
2.43.0


From 7af69ffc0dc2e3f34513663ef4c42acdd6e0dd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:37 +0000
Subject: [PATCH 19/35] fix: Read::read must support buffers larger than the
 remaining data

---
 src/std.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/std.rs b/src/std.rs
index c16266e..e6fe767 100644
--- a/src/std.rs
+++ b/src/std.rs
@@ -44,7 +44,7 @@ impl Read for ByteData<'_> {
     #[inline]
     fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
         let len = buf.len().min(self.len());
-        buf.copy_from_slice(&self.as_slice()[..len]);
+        buf[..len].copy_from_slice(&self.as_slice()[..len]);
         self.make_sliced(len..);
         Ok(len)
     }
@@ -111,7 +111,7 @@ impl Read for SharedBytes {
     #[inline]
     fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
         let len = buf.len().min(self.len());
-        buf.copy_from_slice(&self.as_slice()[..len]);
+        buf[..len].copy_from_slice(&self.as_slice()[..len]);
         self.make_sliced(len, self.len() - len);
         Ok(len)
     }
-- 
2.43.0


From dc23b7b64c8533608759038eb60c5872cb6d1d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:43 +0000
Subject: [PATCH 20/35] fix: nom split_at_position1 must return a recoverable
 error

---
 src/nom_7/bytedata.rs    | 4 ++--
 src/nom_7/bytequeue.rs   | 4 ++--
 src/nom_7/stringdata.rs  | 4 ++--
 src/nom_7/stringqueue.rs | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/nom_7/bytedata.rs b/src/nom_7/bytedata.rs
index 93b5719..709e31f 100644
--- a/src/nom_7/bytedata.rs
+++ b/src/nom_7/bytedata.rs
@@ -214,7 +214,7 @@ impl nom::InputTakeAtPosition for crate::ByteData<'_> {
         for (i, bv) in av.iter().enumerate() {
             if predicate(*bv) {
                 if i == 0 {
-                    return Err(nom::Err::Failure(E::from_error_kind(self.clone(), e)));
+                    return Err(nom::Err::Error(E::from_error_kind(self.clone(), e)));
                 }
                 return Ok((self.sliced(i..), self.sliced(..i)));
             }
@@ -253,7 +253,7 @@ impl nom::InputTakeAtPosition for crate::ByteData<'_> {
         for (i, bv) in av.iter().enumerate() {
             if predicate(*bv) {
                 if i == 0 {
-                    return Err(nom::Err::Failure(E::from_error_kind(self.clone(), e)));
+                    return Err(nom::Err::Error(E::from_error_kind(self.clone(), e)));
                 }
                 return Ok((self.sliced(i..), self.sliced(..i)));
             }
diff --git a/src/nom_7/bytequeue.rs b/src/nom_7/bytequeue.rs
index e9d8469..17c4c92 100644
--- a/src/nom_7/bytequeue.rs
+++ b/src/nom_7/bytequeue.rs
@@ -277,7 +277,7 @@ impl nom::InputTakeAtPosition for crate::ByteQueue<'_> {
     {
         match self.find_byte(predicate) {
             None => Err(nom::Err::Incomplete(nom::Needed::new(1))),
-            Some(0) => Err(nom::Err::Failure(E::from_error_kind(self.clone(), e))),
+            Some(0) => Err(nom::Err::Error(E::from_error_kind(self.clone(), e))),
             Some(aa) => Ok((self.slice(aa..), self.slice(..aa))),
         }
     }
@@ -310,7 +310,7 @@ impl nom::InputTakeAtPosition for crate::ByteQueue<'_> {
     {
         match self.find_byte(predicate) {
             None => Ok((Self::new(), self.clone())),
-            Some(0) => Err(nom::Err::Failure(E::from_error_kind(self.clone(), e))),
+            Some(0) => Err(nom::Err::Error(E::from_error_kind(self.clone(), e))),
             Some(aa) => Ok((self.slice(aa..), self.slice(..aa))),
         }
     }
diff --git a/src/nom_7/stringdata.rs b/src/nom_7/stringdata.rs
index fe9114e..e9a81b0 100644
--- a/src/nom_7/stringdata.rs
+++ b/src/nom_7/stringdata.rs
@@ -254,7 +254,7 @@ impl nom::InputTakeAtPosition for crate::StringData<'_> {
         for (i, b) in self.as_str().char_indices() {
             if predicate(b) {
                 if i == 0 {
-                    return Err(nom::Err::Failure(E::from_error_kind(self.clone(), e)));
+                    return Err(nom::Err::Error(E::from_error_kind(self.clone(), e)));
                 }
                 return Ok((self.sliced(i..), self.sliced(..i)));
             }
@@ -291,7 +291,7 @@ impl nom::InputTakeAtPosition for crate::StringData<'_> {
         for (i, b) in self.as_str().char_indices() {
             if predicate(b) {
                 if i == 0 {
-                    return Err(nom::Err::Failure(E::from_error_kind(self.clone(), e)));
+                    return Err(nom::Err::Error(E::from_error_kind(self.clone(), e)));
                 }
                 return Ok((self.sliced(i..), self.sliced(..i)));
             }
diff --git a/src/nom_7/stringqueue.rs b/src/nom_7/stringqueue.rs
index 3be4e80..50b1609 100644
--- a/src/nom_7/stringqueue.rs
+++ b/src/nom_7/stringqueue.rs
@@ -261,7 +261,7 @@ impl nom::InputTakeAtPosition for crate::StringQueue<'_> {
             .map(|(i, _)| i);
         match a {
             None => Err(nom::Err::Incomplete(nom::Needed::new(1))),
-            Some(0) => Err(nom::Err::Failure(E::from_error_kind(self.clone(), e))),
+            Some(0) => Err(nom::Err::Error(E::from_error_kind(self.clone(), e))),
             Some(a) => Ok((self.slice(a..), self.slice(..a))),
         }
     }
@@ -302,7 +302,7 @@ impl nom::InputTakeAtPosition for crate::StringQueue<'_> {
             .map(|(i, _)| i);
         match a {
             None => Ok((Self::new(), self.clone())),
-            Some(0) => Err(nom::Err::Failure(E::from_error_kind(self.clone(), e))),
+            Some(0) => Err(nom::Err::Error(E::from_error_kind(self.clone(), e))),
             Some(a) => Ok((self.slice(a..), self.slice(..a))),
         }
     }
-- 
2.43.0


From f9e91cf84f425cf6fc574fdfc9a6ec5bdc6a312f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:43 +0000
Subject: [PATCH 21/35] fix: nom split_at_position1_complete must fail on empty
 input

---
 src/nom_7/bytedata.rs    | 3 +++
 src/nom_7/bytequeue.rs   | 1 +
 src/nom_7/stringdata.rs  | 3 +++
 src/nom_7/stringqueue.rs | 1 +
 4 files changed, 8 insertions(+)

diff --git a/src/nom_7/bytedata.rs b/src/nom_7/bytedata.rs
index 709e31f..44b00c1 100644
--- a/src/nom_7/bytedata.rs
+++ b/src/nom_7/bytedata.rs
@@ -258,6 +258,9 @@ impl nom::InputTakeAtPosition for crate::ByteData<'_> {
                 return Ok((self.sliced(i..), self.sliced(..i)));
             }
         }
+        if self.is_empty() {
+            return Err(nom::Err::Error(E::from_error_kind(self.clone(), e)));
+        }
         Ok((Self::empty(), self.clone()))
     }
 }
diff --git a/src/nom_7/bytequeue.rs b/src/nom_7/bytequeue.rs
index 17c4c92..ab90cae 100644
--- a/src/nom_7/bytequeue.rs
+++ b/src/nom_7/bytequeue.rs
@@ -309,6 +309,7 @@ impl nom::InputTakeAtPosition for crate::ByteQueue<'_> {
         P: Fn(Self::Item) -> bool,
     {
         match self.find_byte(predicate) {
+            None if self.is_empty() => Err(nom::Err::Error(E::from_error_kind(self.clone(), e))),
             None => Ok((Self::new(), self.clone())),
             Some(0) => Err(nom::Err::Error(E::from_error_kind(self.clone(), e))),
             Some(aa) => Ok((self.slice(aa..), self.slice(..aa))),
diff --git a/src/nom_7/stringdata.rs b/src/nom_7/stringdata.rs
index e9a81b0..6f4ef33 100644
--- a/src/nom_7/stringdata.rs
+++ b/src/nom_7/stringdata.rs
@@ -296,6 +296,9 @@ impl nom::InputTakeAtPosition for crate::StringData<'_> {
                 return Ok((self.sliced(i..), self.sliced(..i)));
             }
         }
+        if self.is_empty() {
+            return Err(nom::Err::Error(E::from_error_kind(self.clone(), e)));
+        }
         Ok((Self::empty(), self.clone()))
     }
 }
diff --git a/src/nom_7/stringqueue.rs b/src/nom_7/stringqueue.rs
index 50b1609..920b065 100644
--- a/src/nom_7/stringqueue.rs
+++ b/src/nom_7/stringqueue.rs
@@ -301,6 +301,7 @@ impl nom::InputTakeAtPosition for crate::StringQueue<'_> {
             .find(|&(_, ch)| predicate(ch))
             .map(|(i, _)| i);
         match a {
+            None if self.is_empty() => Err(nom::Err::Error(E::from_error_kind(self.clone(), e))),
             None => Ok((Self::new(), self.clone())),
             Some(0) => Err(nom::Err::Error(E::from_error_kind(self.clone(), e))),
             Some(a) => Ok((self.slice(a..), self.slice(..a))),
-- 
2.43.0


From 21d1623d7efbd75eb191c6a04ff8d6e35717e09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:44 +0000
Subject: [PATCH 22/35] fix: nom positions in a StringQueue must be byte
 offsets, and slice_index must count characters

---
 src/nom_7/stringqueue.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/nom_7/stringqueue.rs b/src/nom_7/stringqueue.rs
index 920b065..1db42a6 100644
--- a/src/nom_7/stringqueue.rs
+++ b/src/nom_7/stringqueue.rs
@@ -190,16 +190,24 @@ impl<'a> nom::InputIter for crate::StringQueue<'a> {
     where
         P: Fn(Self::Item) -> bool,
     {
-        self.chars().position(predicate)
+        self.chars_indecies()
+            .find(|&(_, ch)| predicate(ch))
+            .map(|(i, _)| i)
     }
 
     #[inline]
     fn slice_index(&self, count: usize) -> Result<usize, nom::Needed> {
-        if self.len() >= count {
-            Ok(count)
-        } else {
-            Err(nom::Needed::new(count - self.len()))
+        let mut cnt = 0;
+        for (index, _) in self.chars_indecies() {
+            if cnt == count {
+                return Ok(index);
+            }
+            cnt += 1;
+        }
+        if cnt == count {
+            return Ok(self.len());
         }
+        Err(nom::Needed::Unknown)
     }
 }
 
-- 
2.43.0


From 10ace2205813a87e9caa278a80ee12858b2575bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:45 +0000
Subject: [PATCH 23/35] fix: nom iter_indices of string inputs must yield byte
 offsets

---
 src/nom_7/mod.rs         | 31 +++++++++++++++++++++++++++++++
 src/nom_7/stringdata.rs  |  4 ++--
 src/nom_7/stringqueue.rs |  4 ++--
 3 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/src/nom_7/mod.rs b/src/nom_7/mod.rs
index 99a944b..80c656a 100644
--- a/src/nom_7/mod.rs
+++ b/src/nom_7/mod.rs
@@ -8,3 +8,34 @@ mod stringqueue;
 
 #[cfg(test)]
 mod tests;
+
+/// An iterator over characters and their byte offsets.
+#[allow(missing_debug_implementations)]
+pub struct CharOffsets<I> {
+    chars: I,
+    offset: usize,
+}
+
+impl<I> CharOffsets<I> {
+    #[inline]
+    const fn new(chars: I) -> Self {
+        Self { chars, offset: 0 }
+    }
+}
+
+impl<I: Iterator<Item = char>> Iterator for CharOffsets<I> {
+    type Item = (usize, char);
+
+    #[inline]
+    fn next(&mut self) -> Option<Self::Item> {
+        let ch = self.chars.next()?;
+        let offset = self.offset;
+        self.offset += ch.len_utf8();
+        Some((offset, ch))
+    }
+
+    #[inline]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.chars.size_hint()
+    }
+}
diff --git a/src/nom_7/stringdata.rs b/src/nom_7/stringdata.rs
index 6f4ef33..d0b0d04 100644
--- a/src/nom_7/stringdata.rs
+++ b/src/nom_7/stringdata.rs
@@ -176,12 +176,12 @@ impl nom::HexDisplay for crate::StringData<'_> {
 
 impl nom::InputIter for crate::StringData<'_> {
     type Item = char;
-    type Iter = core::iter::Enumerate<Self>;
+    type Iter = super::CharOffsets<Self>;
     type IterElem = Self;
 
     #[inline]
     fn iter_indices(&self) -> Self::Iter {
-        Iterator::enumerate(self.clone())
+        super::CharOffsets::new(self.clone())
     }
 
     #[inline]
diff --git a/src/nom_7/stringqueue.rs b/src/nom_7/stringqueue.rs
index 1db42a6..b5ddcc3 100644
--- a/src/nom_7/stringqueue.rs
+++ b/src/nom_7/stringqueue.rs
@@ -172,12 +172,12 @@ impl nom::HexDisplay for crate::StringQueue<'_> {
 
 impl<'a> nom::InputIter for crate::StringQueue<'a> {
     type Item = char;
-    type Iter = core::iter::Enumerate<crate::queue::OwnedCharIter<'a>>;
+    type Iter = super::CharOffsets<crate::queue::OwnedCharIter<'a>>;
     type IterElem = crate::queue::OwnedCharIter<'a>;
 
     #[inline]
     fn iter_indices(&self) -> Self::Iter {
-        Iterator::enumerate(self.clone().into_chars())
+        super::CharOffsets::new(self.clone().into_chars())
     }
 
     #[inline]
-- 
2.43.0


From e517aedcef38bac82121e6601932450e5b457654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:09 +0000
Subject: [PATCH 24/35] fix: Utf8CharIndices must reject overlong encodings

---
 src/char_indicies.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/char_indicies.rs b/src/char_indicies.rs
index 865180b..d46532c 100644
--- a/src/char_indicies.rs
+++ b/src/char_indicies.rs
@@ -81,10 +81,10 @@ impl<'a> Utf8CharIndices<'a> {
                 i += 1;
             }
 
-            if let Some(char) = core::char::from_u32(char) {
-                Ok((char, width))
-            } else {
-                Err(width)
+            match core::char::from_u32(char) {
+                // overlong encodings are not valid UTF-8
+                Some(char) if char.len_utf8() == width as usize => Ok((char, width)),
+                _ => Err(width),
             }
         }
 
-- 
2.43.0


From 455cc609a553216065b2a1973b60fe41db1b9003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:09 +0000
Subject: [PATCH 25/35] fix: converting a shared Bytes to a Vec or BytesMut
 must release its reference

---
 src/bytes_1/shared_bytes.rs | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/bytes_1/shared_bytes.rs b/src/bytes_1/shared_bytes.rs
index 2b186a7..0c07502 100644
--- a/src/bytes_1/shared_bytes.rs
+++ b/src/bytes_1/shared_bytes.rs
@@ -23,7 +23,9 @@ static SHARED_BYTES_BVT: super::SBytesVtable = super::SBytesVtable {
         }
         .into_bytes()
     },
-    to_vec: |_data, ptr, len| {
+    to_vec: |data, ptr, len| {
+        // `to_vec` takes over the reference held by the `Bytes`
+        let _guard = BytesRef(data.load(Ordering::Relaxed) as *mut u8);
         if len == 0 {
             return Vec::new();
         }
@@ -34,7 +36,9 @@ static SHARED_BYTES_BVT: super::SBytesVtable = super::SBytesVtable {
         }
         vec
     },
-    to_mut: |_data, ptr, len| {
+    to_mut: |data, ptr, len| {
+        // `to_mut` takes over the reference held by the `Bytes`
+        let _guard = BytesRef(data.load(Ordering::Relaxed) as *mut u8);
         if len == 0 {
             return bytes::BytesMut::new();
         }
@@ -50,17 +54,28 @@ static SHARED_BYTES_BVT: super::SBytesVtable = super::SBytesVtable {
         let meta = &*(p as *const crate::SharedBytesMeta);
         meta.refcnt.load(Ordering::Relaxed) == 1
     },
-    drop: |data, _ptr, _len| unsafe {
-        let p = data.load(Ordering::Relaxed) as *mut u8;
-        let meta = &*(p as *const crate::SharedBytesMeta);
+    drop: |data, _ptr, _len| {
+        let _guard = BytesRef(data.load(Ordering::Relaxed) as *mut u8);
+    },
+};
+
+#[cfg(not(feature = "bytes_1_safe"))]
+/// A reference to the shared allocation, which is released on drop.
+struct BytesRef(*mut u8);
+
+#[cfg(not(feature = "bytes_1_safe"))]
+impl Drop for BytesRef {
+    fn drop(&mut self) {
+        let p = self.0;
+        let meta = unsafe { &*(p as *const crate::SharedBytesMeta) };
         if meta.refcnt.fetch_sub(1, Ordering::Relaxed) != 1 {
             return;
         }
         let layout =
             alloc::alloc::Layout::from_size_align(meta.len as usize, meta.align()).unwrap();
-        alloc::alloc::dealloc(p, layout);
-    },
-};
+        unsafe { alloc::alloc::dealloc(p, layout) };
+    }
+}
 
 #[cfg(feature = "bytes_1_safe")]
 #[cfg_attr(docsrs, doc(cfg(feature = "bytes_1")))]
-- 
2.43.0


From 350c1cf3807eb64d69a17aaa5605801d7b14ba56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:10 +0000
Subject: [PATCH 26/35] fix: SharedBytesBuilder::put_bytes must not offset the
 null pointer of an empty builder

---
 src/bytes_1/shared_bytes_builder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bytes_1/shared_bytes_builder.rs b/src/bytes_1/shared_bytes_builder.rs
index d6a0fca..9eb0944 100644
--- a/src/bytes_1/shared_bytes_builder.rs
+++ b/src/bytes_1/shared_bytes_builder.rs
@@ -67,6 +67,9 @@ unsafe impl bytes::BufMut for SharedBytesBuilder {
             cnt <= self.remaining_mut(),
             "SharedBytesBuilder::put_bytes: index out of bounds"
         );
+        if cnt == 0 {
+            return;
+        }
         self.reserve(cnt);
         // SAFETY: `off` is within bounds.
         let ptr = unsafe { self.dat.add(self.off as usize) };
-- 
2.43.0


From 1a1c1c736f46fdd4b7ac5cbdcab6a9d0eac8e685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:28 +0000
Subject: [PATCH 27/35] fix: skipping in a ByteIter must not overflow

---
 src/queue/byte_iter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/queue/byte_iter.rs b/src/queue/byte_iter.rs
index 576684c..9a6f7d8 100644
--- a/src/queue/byte_iter.rs
+++ b/src/queue/byte_iter.rs
@@ -26,7 +26,7 @@ impl<'a, 'b> ByteIter<'a, 'b> {
     #[inline]
     #[must_use]
     pub const fn skip(mut self, n: usize) -> Self {
-        self.offset += n;
+        self.offset = self.offset.saturating_add(n);
         if self.offset >= self.len {
             self.chunk = None;
             self.offset = 0;
@@ -38,7 +38,7 @@ impl<'a, 'b> ByteIter<'a, 'b> {
     /// Skip the next `n` bytes.
     #[inline]
     pub(crate) fn skip_mut(&mut self, n: usize) -> &mut Self {
-        self.offset += n;
+        self.offset = self.offset.saturating_add(n);
         if self.offset >= self.len {
             self.chunk = None;
             self.offset = 0;
-- 
2.43.0


From 30465fb137e9979670b14970a5263e81f35a1ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:48 +0000
Subject: [PATCH 28/35] fix: deserializing ByteData without alloc must compile

---
 src/serde_1/bytedata.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serde_1/bytedata.rs b/src/serde_1/bytedata.rs
index 0bad6f7..0a6f73f 100644
--- a/src/serde_1/bytedata.rs
+++ b/src/serde_1/bytedata.rs
@@ -87,7 +87,7 @@ impl<'de> serde::de::DeserializeSeed<'de> for StaticByteDataVisitor {
         }
         #[cfg(not(feature = "alloc"))]
         {
-            deserializer.deserialize_byte(self)
+            deserializer.deserialize_bytes(self)
         }
     }
 }
@@ -193,7 +193,7 @@ impl<'de: 'a, 'a> serde::de::Deserialize<'de> for ByteData<'a> {
         }
         #[cfg(not(feature = "alloc"))]
         {
-            deserializer.deserialize_byte(ByteDataVisitor)
+            deserializer.deserialize_bytes(ByteDataVisitor)
         }
     }
 }
-- 
2.43.0


From b773c5b322115b566406fdddca99f75c6e58de22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:19 +0000
Subject: [PATCH 29/35] fix: a ByteQueue without alloc must not count an empty
 item

---
 src/queue/linked_root.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/queue/linked_root.rs b/src/queue/linked_root.rs
index a901bc9..bb17f24 100644
--- a/src/queue/linked_root.rs
+++ b/src/queue/linked_root.rs
@@ -36,9 +36,12 @@ impl<'a> LinkedRoot<'a> {
 
     #[inline]
     pub(super) const fn with_item(item: ByteData<'a>) -> Self {
-        Self {
-            data: super::linked_node_data::LinkedNodeData::with_item(item),
+        let is_empty = item.is_empty();
+        let mut data = super::linked_node_data::LinkedNodeData::with_item(item);
+        if is_empty {
+            data.len = 0;
         }
+        Self { data }
     }
 
     #[inline]
-- 
2.43.0


From 857d5c02f1ff654622d5da7bd9ee3e508b18cfaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:38 +0000
Subject: [PATCH 30/35] hook: access to the private state of the queue for the
 contract harnesses

---
 src/queue/mod.rs   |   5 ++
 src/queue/verif.rs | 176 +++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 181 insertions(+)
 create mode 100644 src/queue/verif.rs

diff --git a/src/queue/mod.rs b/src/queue/mod.rs
index ca26ee1..97dbbd5 100644
--- a/src/queue/mod.rs
+++ b/src/queue/mod.rs
@@ -4,6 +4,8 @@
 //!
 //! The queue is a list of byte slices, which allows for efficient appending and consuming of byte data.
 
+#![allow(unexpected_cfgs)]
+
 mod byte_queue;
 mod string_queue;
 
@@ -19,6 +21,9 @@ mod linked_node_data;
 mod linked_node_leaf;
 mod linked_root;
 
+#[cfg(all(bytedata_verif, feature = "alloc"))]
+pub mod verif;
+
 pub use byte_iter::{ByteIter, OwnedByteIter};
 pub use byte_queue::ByteQueue;
 pub use char_iter::{CharIndecies, CharIter, OwnedCharIter};
diff --git a/src/queue/verif.rs b/src/queue/verif.rs
new file mode 100644
index 0000000..199c27c
--- /dev/null
+++ b/src/queue/verif.rs
@@ -0,0 +1,176 @@
+//! Access to the private state of the queue for the contract harnesses, which build arbitrary
+//! well-formed states and look into the results. Compiled only with `--cfg bytedata_verif`.
+#![allow(missing_docs, clippy::all, clippy::pedantic, clippy::restriction)]
+#![allow(missing_debug_implementations, single_use_lifetimes, unreachable_pub)]
+
+use super::linked_node_data::LinkedNodeData;
+use super::linked_node_leaf::LinkedNodeLeaf;
+use super::linked_root::LinkedRoot;
+use crate::{ByteData, ByteQueue};
+use core::mem::{ManuallyDrop, MaybeUninit};
+
+/// A ring of slots.
+#[repr(transparent)]
+pub struct Ring<'a>(LinkedNodeData<'a>);
+
+impl<'a> Ring<'a> {
+    /// A ring in which the occupied slots are `beg..beg + len`, wrapped, filled by `item` in order.
+    pub fn new(beg: u8, len: u8, mut item: impl FnMut(usize) -> ByteData<'a>) -> Self {
+        let mut ring = LinkedNodeData::with_item(ByteData::empty());
+        let n = ring.data.len();
+        let mut i = 0;
+        while i < n {
+            // the position of slot `i` in the order of the ring
+            let pos = if i >= beg as usize { i - beg as usize } else { i + n - beg as usize };
+            if pos < len as usize {
+                ring.data[i] = MaybeUninit::new(item(pos));
+            }
+            i += 1;
+        }
+        ring.beg = beg;
+        ring.len = len;
+        Self(ring)
+    }
+    pub const fn slots(&self) -> usize {
+        self.0.data.len()
+    }
+    pub const fn beg(&self) -> usize {
+        self.0.beg as usize
+    }
+    pub const fn len(&self) -> usize {
+        self.0.len as usize
+    }
+    pub fn slot(&self, i: usize) -> &ByteData<'a> {
+        // SAFETY: only asked for occupied slots
+        unsafe { self.0.data[i].assume_init_ref() }
+    }
+    pub fn push_back(&mut self, data: ByteData<'a>) -> Result<(), ByteData<'a>> {
+        self.0.push_back(data)
+    }
+    pub fn push_front(&mut self, data: ByteData<'a>) -> Result<(), ByteData<'a>> {
+        self.0.push_front(data)
+    }
+    pub fn pop_back(&mut self) -> Option<ByteData<'a>> {
+        self.0.pop_back()
+    }
+    pub fn pop_front(&mut self) -> Option<ByteData<'a>> {
+        self.0.pop_front()
+    }
+    pub fn front(&self) -> Option<&ByteData<'a>> {
+        self.0.front()
+    }
+    pub fn back(&self) -> Option<&ByteData<'a>> {
+        self.0.back()
+    }
+}
+
+/// A block of the list, at its address.
+#[derive(Clone, Copy, PartialEq, Eq)]
+pub struct Block<'a>(*mut LinkedNodeLeaf<'a>);
+
+impl<'a> Block<'a> {
+    pub const NULL: Self = Self(core::ptr::null_mut());
+    pub fn new(ring: Ring<'a>) -> Self {
+        let mut leaf = LinkedNodeLeaf::with_item(ByteData::empty());
+        leaf.data = ring.0;
+        Self(alloc::boxed::Box::into_raw(alloc::boxed::Box::new(leaf)))
+    }
+    /// A block that must not be touched: the address is not that of any object.
+    pub fn forbidden() -> Self {
+        Self(core::ptr::without_provenance_mut(16))
+    }
+    pub fn ring(self) -> &'static Ring<'a> {
+        // SAFETY: only asked for live blocks, and `Ring` is transparent
+        unsafe { &*core::ptr::addr_of!((*self.0).data).cast::<Ring<'a>>() }
+    }
+    pub fn prev(self) -> Self {
+        // SAFETY: only asked for live blocks
+        Self(unsafe { (*self.0).prev })
+    }
+    pub fn next(self) -> Self {
+        // SAFETY: only asked for live blocks
+        Self(unsafe { (*self.0).next })
+    }
+    pub fn set(self, prev: Self, next: Self) {
+        // SAFETY: only asked for live blocks
+        unsafe {
+            (*self.0).prev = prev.0;
+            (*self.0).next = next.0;
+        }
+    }
+    pub fn is_null(self) -> bool {
+        self.0.is_null()
+    }
+}
+
+/// Stands in for dropping a list where only the chunks that stay matter.
+#[allow(private_interfaces)]
+pub fn no_drop<'a>(_: &mut LinkedRoot<'a>)
+where
+    'a: 'a,
+{
+}
+
+/// The list of chunks; never dropped by itself.
+pub struct List<'a>(ManuallyDrop<LinkedRoot<'a>>);
+
+impl<'a> List<'a> {
+    pub fn from_parts(chamber: ByteData<'a>, first: Block<'a>, last: Block<'a>, count: usize) -> Self {
+        let mut root = LinkedRoot::new();
+        root.chamber = chamber;
+        root.first = first.0;
+        root.last = last.0;
+        root.count = count;
+        Self(ManuallyDrop::new(root))
+    }
+    pub fn chamber(&self) -> &ByteData<'a> {
+        &self.0.chamber
+    }
+    pub fn first(&self) -> Block<'a> {
+        Block(self.0.first)
+    }
+    pub fn last(&self) -> Block<'a> {
+        Block(self.0.last)
+    }
+    pub fn count(&self) -> usize {
+        self.0.len()
+    }
+    pub fn push_back(&mut self, data: ByteData<'a>) {
+        self.0.push_back(data);
+    }
+    pub fn push_front(&mut self, data: ByteData<'a>) {
+        self.0.push_front(data);
+    }
+    pub fn pop_back(&mut self) -> Option<ByteData<'a>> {
+        self.0.pop_back()
+    }
+    pub fn pop_front(&mut self) -> Option<ByteData<'a>> {
+        self.0.pop_front()
+    }
+    pub fn front(&self) -> Option<&ByteData<'a>> {
+        self.0.front()
+    }
+    pub fn back(&self) -> Option<&ByteData<'a>> {
+        self.0.back()
+    }
+    pub fn append(&mut self, other: Self) {
+        self.0.append(ManuallyDrop::into_inner(other.0));
+    }
+    pub fn iter(&self) -> super::LinkedIter<'a, '_> {
+        self.0.iter()
+    }
+    pub fn release(self) {
+        drop(ManuallyDrop::into_inner(self.0));
+    }
+    /// The queue over this list.
+    pub fn into_queue(self, remain: usize) -> ByteQueue<'a> {
+        ByteQueue {
+            queue: ManuallyDrop::into_inner(self.0),
+            remain,
+        }
+    }
+    pub fn of_queue(queue: ByteQueue<'a>) -> (Self, usize) {
+        let ByteQueue { queue, remain } = queue;
+        (Self(ManuallyDrop::new(queue)), remain)
+    }
+}
-- 
2.43.0


From 0b51c7d107d567b0bd1e509beb157c2efba37f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:59 +0000
Subject: [PATCH 31/35] fix: SharedBytes::from_slice_aligned refuses alignments
 it cannot represent

---
 src/shared_bytes.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/shared_bytes.rs b/src/shared_bytes.rs
index 0b534b4..8c23f67 100644
--- a/src/shared_bytes.rs
+++ b/src/shared_bytes.rs
@@ -114,6 +114,10 @@ impl SharedBytes {
     pub fn from_slice_aligned(dat: &[u8], align: usize) -> Self {
         fn from_slice_aligned_inner(dat: &[u8], align: usize) -> SharedBytes {
             let align = core::mem::align_of::<SharedBytesMeta>().max(align);
+            assert!(
+                align <= 0x8000_0000,
+                "SharedBytes::from_slice_aligned: alignment too large"
+            );
             let off = SharedBytesMeta::compute_start_offset(align) as usize;
             let max_size: usize = 0xFFFF_FFFF - off;
             assert!(
-- 
2.43.0


From 390d5519067cdcef8a670bfa3bc219a0d78d84c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:59 +0000
Subject: [PATCH 32/35] fix: turning shared bytes with a large alignment into a
 builder must not panic

---
 src/shared_bytes.rs         | 3 ++-
 src/shared_bytes_builder.rs | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/shared_bytes.rs b/src/shared_bytes.rs
index 8c23f67..1b30d96 100644
--- a/src/shared_bytes.rs
+++ b/src/shared_bytes.rs
@@ -585,7 +585,8 @@ impl From<SharedBytes> for SharedBytesBuilder {
                 dat: dataptr,
             }
         } else {
-            let mut ret = Self::with_alignment(align);
+            // the alignment may be larger than what `with_alignment` accepts
+            let mut ret = Self::with_capacity_u32(dat.len, align);
             ret.extend_from_slice(dat.as_slice());
             ret
         }
diff --git a/src/shared_bytes_builder.rs b/src/shared_bytes_builder.rs
index 18dbe69..e7051a8 100644
--- a/src/shared_bytes_builder.rs
+++ b/src/shared_bytes_builder.rs
@@ -118,7 +118,7 @@ impl SharedBytesBuilder {
         Self::with_capacity_u32(cap, align)
     }
 
-    fn with_capacity_u32(cap: u32, align: usize) -> Self {
+    pub(crate) fn with_capacity_u32(cap: u32, align: usize) -> Self {
         let off = SharedBytesMeta::compute_start_offset(align);
         let len = cap + off;
         #[allow(clippy::unwrap_used)]
-- 
2.43.0


From 82ea68249d2c10ce0c3c8e9fe7458931c32aff6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:59 +0000
Subject: [PATCH 33/35] fix: dropping the last handle of shared bytes
 synchronizes with the other handles

---
 src/bytes_1/shared_bytes.rs | 4 +++-
 src/shared_bytes.rs         | 7 +++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/bytes_1/shared_bytes.rs b/src/bytes_1/shared_bytes.rs
index 0c07502..629ea99 100644
--- a/src/bytes_1/shared_bytes.rs
+++ b/src/bytes_1/shared_bytes.rs
@@ -68,9 +68,11 @@ impl Drop for BytesRef {
     fn drop(&mut self) {
         let p = self.0;
         let meta = unsafe { &*(p as *const crate::SharedBytesMeta) };
-        if meta.refcnt.fetch_sub(1, Ordering::Relaxed) != 1 {
+        if meta.refcnt.fetch_sub(1, Ordering::Release) != 1 {
             return;
         }
+        // everything done through the other handles happens before the data is freed
+        core::sync::atomic::fence(Ordering::Acquire);
         let layout =
             alloc::alloc::Layout::from_size_align(meta.len as usize, meta.align()).unwrap();
         unsafe { alloc::alloc::dealloc(p, layout) };
diff --git a/src/shared_bytes.rs b/src/shared_bytes.rs
index 1b30d96..883fdec 100644
--- a/src/shared_bytes.rs
+++ b/src/shared_bytes.rs
@@ -453,7 +453,9 @@ impl Drop for SharedBytes {
             // SAFETY: `dat` should point to a `SharedBytesMeta`.
             let meta = unsafe { &*dat.cast::<SharedBytesMeta>() };
             let refcnt = &meta.refcnt;
-            if refcnt.fetch_sub(1, core::sync::atomic::Ordering::Relaxed) == 1 {
+            if refcnt.fetch_sub(1, core::sync::atomic::Ordering::Release) == 1 {
+                // everything done through the other handles happens before the data is freed
+                core::sync::atomic::fence(core::sync::atomic::Ordering::Acquire);
                 #[allow(clippy::unwrap_used)]
                 let layout =
                     core::alloc::Layout::from_size_align(meta.len as usize, meta.align()).unwrap();
@@ -559,7 +561,8 @@ impl From<SharedBytes> for SharedBytesBuilder {
         #[allow(clippy::cast_ptr_alignment)]
         let meta = unsafe { &*dat_dat.cast::<SharedBytesMeta>() };
         let align = meta.align();
-        if meta.refcnt.load(core::sync::atomic::Ordering::Relaxed) == 1 {
+        // everything done through dropped handles happens before the data is reused
+        if meta.refcnt.load(core::sync::atomic::Ordering::Acquire) == 1 {
             let len = meta.len;
             let dat_len = dat.len;
             let dataptr = dat_dat.cast_mut();
-- 
2.43.0


From 055d44bb791ea410db3c4d39fe6ddb6cae11d60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:59 +0000
Subject: [PATCH 34/35] fix: dropping the last handle of external bytes
 synchronizes with the other handles

---
 src/external.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/external.rs b/src/external.rs
index bbb3294..3354271 100644
--- a/src/external.rs
+++ b/src/external.rs
@@ -369,7 +369,7 @@ impl ExtBytes {
         // SAFETY: `ExtBytesRef.data` is a valid pointer to `ExtBytesWrapper`.
         let ee = unsafe { &*dd.data };
         if ee.kind != core::any::TypeId::of::<T>()
-            || ee.ref_count.load(core::sync::atomic::Ordering::Relaxed) != 1
+            || ee.ref_count.load(core::sync::atomic::Ordering::Acquire) != 1
         {
             return Err(self);
         }
@@ -408,8 +408,10 @@ impl Drop for ExtBytes {
         let header = unsafe { &*ext_ref.data };
         let ref_count = header
             .ref_count
-            .fetch_sub(1, core::sync::atomic::Ordering::Relaxed);
+            .fetch_sub(1, core::sync::atomic::Ordering::Release);
         if ref_count == 1 {
+            // everything done through the other handles happens before the owner is dropped
+            core::sync::atomic::fence(core::sync::atomic::Ordering::Acquire);
             if let Some(drop) = header.drop {
                 let mut offset = core::mem::size_of::<ExtBytesWrapper>();
                 let align_mod = offset % header.align as usize;
-- 
2.43.0


From ae2a6456691f456517fc5bdb5877428cc27f2cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:48 +0000
Subject: [PATCH 35/35] fix: generating a StringData from the rest of an
 exhausted source never ended

`char::arbitrary` does not fail when the source is exhausted, so the loop over
`while let Ok(ch)` kept appending characters until the builder's size limit.
---
 src/arbitrary_1/stringdata.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/arbitrary_1/stringdata.rs b/src/arbitrary_1/stringdata.rs
index 8e93ad4..266d09b 100644
--- a/src/arbitrary_1/stringdata.rs
+++ b/src/arbitrary_1/stringdata.rs
@@ -107,7 +107,9 @@ impl<'a> Arbitrary<'a> for StringData<'a> {
             #[cfg(feature = "alloc")]
             &Choice::Shared => {
                 let mut buffer = crate::SharedBytesBuilder::new();
-                while let Ok(ch) = <char as Arbitrary>::arbitrary(&mut u) {
+                // an exhausted source keeps giving characters, so its end has to be checked for
+                while !u.is_empty() {
+                    let ch = <char as Arbitrary>::arbitrary(&mut u)?;
                     buffer.reserve(4);
                     buffer.apply_unfilled(|buf| {
                         // SAFETY: The bytes may be uninitialized, but we are about to fill them.
-- 
2.43.0

