From 53516a18ec019cba4f5e6c84b543a90d6908b547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:19 +0000
Subject: [PATCH 01/30] fix: DltStorageEntry::max_len includes the storage
 header

The length field counts the message without its storage header: an entry of
65535 + 16 bytes was not found by the backward search of contained_by, and
partitions could split it.
---
 rapiddlt/src/dlt_v1.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rapiddlt/src/dlt_v1.rs b/rapiddlt/src/dlt_v1.rs
index 68d285d..bccaa35 100644
--- a/rapiddlt/src/dlt_v1.rs
+++ b/rapiddlt/src/dlt_v1.rs
@@ -331,7 +331,7 @@ impl<'bytes> FromBytesReadableTrait<'bytes> for DltStorageEntry<'bytes> {
     }
 
     fn max_len() -> usize {
-        u16::MAX as usize
+        u16::MAX as usize + mem::size_of::<DltStorageHeader>()
     }
 }
 
-- 
2.43.0


From 4b87b2cf8afadafd1f74b1825db9147a2145aae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:19 +0000
Subject: [PATCH 02/30] fix: ecu_id, extended_header, payload return None
 instead of panicking

A message that is shorter than the header fields it announces made these
accessors slice out of bounds.
---
 rapiddlt/src/dlt_v1.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rapiddlt/src/dlt_v1.rs b/rapiddlt/src/dlt_v1.rs
index bccaa35..4b3c9d1 100644
--- a/rapiddlt/src/dlt_v1.rs
+++ b/rapiddlt/src/dlt_v1.rs
@@ -345,7 +345,7 @@ impl<'bytes> DltEntry<'bytes> {
     #[inline(always)]
     pub fn ecu_id(&self) -> Option<u32> {
         if self.header.header_type.is_with_ecu_id() {
-            Some(U32::ref_from_prefix(&self.tail[..4])?.get())
+            Some(U32::ref_from_prefix(self.tail)?.get())
         } else {
             None
         }
@@ -385,7 +385,7 @@ impl<'bytes> DltEntry<'bytes> {
         if self.header.header_type.is_with_timestamp() {
             offset += 4;
         }
-        DltExtendedHeader::ref_from_prefix(&self.tail[offset..])
+        DltExtendedHeader::ref_from_prefix(self.tail.get(offset..)?)
     }
 
     #[inline(always)]
@@ -401,7 +401,7 @@ impl<'bytes> DltEntry<'bytes> {
             offset += 4;
         }
         if self.header.header_type.is_extended_header() {
-            DltExtendedHeader::ref_from_prefix(&self.tail[offset..])?;
+            DltExtendedHeader::ref_from_prefix(self.tail.get(offset..)?)?;
             offset += DltExtendedHeader::size();
         }
         if offset > self.tail.len() {
-- 
2.43.0


From ffc9553061d3e6d5ef95a27ff0e6c8e207e49b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:19 +0000
Subject: [PATCH 03/30] fix: message type info mask covers all four bits

0x15 << 4 drops bits 5 and 7: warn was read and written as fatal, verbose as
info, CAN not at all.
---
 rapiddlt/src/dlt_v1.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rapiddlt/src/dlt_v1.rs b/rapiddlt/src/dlt_v1.rs
index 4b3c9d1..5d06e50 100644
--- a/rapiddlt/src/dlt_v1.rs
+++ b/rapiddlt/src/dlt_v1.rs
@@ -204,7 +204,7 @@ pub enum DltControlMessageTypeInfo {
 enum DltMessageInfoMask {
     Verbose = 0x1,
     MessageType = 0x7 << 1,
-    MessageTypeInfo = 0x15 << 4,
+    MessageTypeInfo = 0xf << 4,
 }
 
 #[derive(AsBytes,FromBytes,FromZeroes)]
-- 
2.43.0


From 65d5371d29fc778f8ba010d8fcaa5f5f61dc7a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:19 +0000
Subject: [PATCH 04/30] fix: create_message_type writes the message type

DltMessageType::X of a tuple variant is a function: the cast to u8 took a byte
of its address, not the discriminant, and all types were written as log.
---
 rapiddlt/src/dlt_v1.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rapiddlt/src/dlt_v1.rs b/rapiddlt/src/dlt_v1.rs
index 5d06e50..2cfad4b 100644
--- a/rapiddlt/src/dlt_v1.rs
+++ b/rapiddlt/src/dlt_v1.rs
@@ -239,19 +239,19 @@ impl MessageType {
         }
         match typ {
             DltMessageType::DltTypeLog(mtin) => {
-                msin |= ((DltMessageType::DltTypeLog as u8) << 1) & (DltMessageInfoMask::MessageType as u8);
+                msin |= (0x0u8 << 1) & (DltMessageInfoMask::MessageType as u8);
                 msin |= ((mtin as u8) << 4) & (DltMessageInfoMask::MessageTypeInfo as u8);
             },
             DltMessageType::DltTypeAppTrace(mtin) => {
-                msin |= ((DltMessageType::DltTypeAppTrace as u8) << 1) & (DltMessageInfoMask::MessageType as u8);
+                msin |= (0x1u8 << 1) & (DltMessageInfoMask::MessageType as u8);
                 msin |= ((mtin as u8) << 4) & (DltMessageInfoMask::MessageTypeInfo as u8);
             },
             DltMessageType::DltTypeNwTrace(mtin) => {
-                msin |= ((DltMessageType::DltTypeNwTrace as u8) << 1) & (DltMessageInfoMask::MessageType as u8);
+                msin |= (0x2u8 << 1) & (DltMessageInfoMask::MessageType as u8);
                 msin |= ((mtin as u8) << 4) & (DltMessageInfoMask::MessageTypeInfo as u8);
             },
             DltMessageType::DltTypeControl(mtin) => {
-                msin |= ((DltMessageType::DltTypeControl as u8) << 1) & (DltMessageInfoMask::MessageType as u8);
+                msin |= (0x3u8 << 1) & (DltMessageInfoMask::MessageType as u8);
                 msin |= ((mtin as u8) << 4) & (DltMessageInfoMask::MessageTypeInfo as u8);
             },
         }
-- 
2.43.0


From 015b16214d4433e18db8831a57089fd7be4da507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:19 +0000
Subject: [PATCH 05/30] fix: ReadFallbackIterator goes on behind a corrupted
 message

The iterator is meant to fall back to the search for the next marker in case of
a corrupted type (CHANGELOG 0.1.0), and SearchIterator and partition_from do.
It ended for good instead: all later messages of the file were dropped, and
par_count counted other messages than count.
---
 matchit/src/searchable/readfallbackit.rs | 47 +++++++++---------------
 1 file changed, 17 insertions(+), 30 deletions(-)

diff --git a/matchit/src/searchable/readfallbackit.rs b/matchit/src/searchable/readfallbackit.rs
index 90e0836..6001ecc 100644
--- a/matchit/src/searchable/readfallbackit.rs
+++ b/matchit/src/searchable/readfallbackit.rs
@@ -45,38 +45,25 @@ impl<'bytes, T> Iterator for ReadFallbackIterator<'bytes, T>
 
     #[inline(always)]
     fn next(&mut self) -> Option<WithOffset<T>> {
-        if self.offset + T::marker().len() >= self.bytes.len() {
-            return None
-        }
-        if &self.bytes[self.offset..self.offset+T::marker().len()] == T::marker() {
-            // a valid T at offset
-            match T::try_read_valid_marker(&self.bytes[self.offset..]) {
-                Some((bytes_read, val)) => {
-                    let _off = self.offset;
-                    self.offset += bytes_read;
-                    Some((_off, val))
-                },
-                None => {
-                    None
-                }
-            }
-        } else {
-                // no valid T at offset, searching for a marker
-                match search_marker::<T>(&self.bytes[self.offset..]) {
-                    Some(position) => {
-                        if position == 0 {
-                            // a match with offset = 0 indicates a slice starting with a valid marker
-                            // without containing a valid result
-                            None
-                        } else {
-                            self.offset += position;
-                            self.next()
-                        }
-                    }
-                    None => {
-                        None
+        while self.offset + T::marker().len() < self.bytes.len() {
+            if &self.bytes[self.offset..self.offset+T::marker().len()] == T::marker() {
+                // a valid T at offset
+                match T::try_read_valid_marker(&self.bytes[self.offset..]) {
+                    Some((bytes_read, val)) => {
+                        let _off = self.offset;
+                        self.offset += bytes_read;
+                        return Some((_off, val))
                     },
+                    None => {
+                        // a corrupted T, searching for the next marker behind this one
+                        self.offset += T::marker().len();
+                    }
                 }
+            } else {
+                // no valid T at offset, searching for a marker
+                self.offset += search_marker::<T>(&self.bytes[self.offset..])?;
+            }
         }
+        None
     }
 }
-- 
2.43.0


From 171707635285a69fc75bde634ccef7fffd1f3ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:19 +0000
Subject: [PATCH 06/30] fix: search iterators end on any input, and stay ended

SearchIterator and RevSearchIterator recursed once per 4 bytes without a
readable message: some 100 kB of other data overflowed the stack. Another
next() on an ended RevSearchIterator did not return.
---
 matchit/src/searchable/searchit.rs | 43 ++++++++++++++----------------
 1 file changed, 20 insertions(+), 23 deletions(-)

diff --git a/matchit/src/searchable/searchit.rs b/matchit/src/searchable/searchit.rs
index e543534..087e2a4 100644
--- a/matchit/src/searchable/searchit.rs
+++ b/matchit/src/searchable/searchit.rs
@@ -51,19 +51,19 @@ impl<'bytes, T> Iterator for SearchIterator<'bytes, T>
 
     #[inline(always)]
     fn next(&mut self) -> Option<Self::Item> {
-        match self.search(self.bytes, self.offset) {
-            Some((offset, t)) => {
-                self.offset = offset + t.len();
-                Some((offset, t))
-            }
-            None => {
-                self.offset += T::marker().len();
-                if self.offset >= self.bytes.len() {
-                    return None
+        while self.offset < self.bytes.len() {
+            let candidate = self.offset + self.finder.find(&self.bytes[self.offset..])?;
+            match self.search(self.bytes, candidate) {
+                Some((offset, t)) => {
+                    self.offset = offset + t.len();
+                    return Some((offset, t))
+                }
+                None => {
+                    self.offset = candidate + T::marker().len();
                 }
-                self.next()
             }
         }
+        None
     }
 }
 
@@ -107,20 +107,17 @@ impl<'bytes, T> Iterator for RevSearchIterator<'bytes, T>
 
     #[inline(always)]
     fn next(&mut self) -> Option<Self::Item> {
-        match self.search(self.bytes, self.offset) {
-            Some((offset, t)) => {
-                self.offset = offset;
-                Some((self.offset, t))
-            }
-            None => {
-                match self.offset.checked_sub(T::marker().len()) {
-                    Some(sub) => self.offset = sub,
-                    None => self.offset = usize::MAX,
-                };
-                if self.offset == usize::MAX {
-                    return None
+        self.offset = self.offset.min(self.bytes.len());
+        loop {
+            let candidate = self.finder.rfind(&self.bytes[..self.offset])?;
+            match self.search(self.bytes, self.offset) {
+                Some((offset, t)) => {
+                    self.offset = offset;
+                    return Some((self.offset, t))
+                }
+                None => {
+                    self.offset = candidate;
                 }
-                self.next()
             }
         }
     }
-- 
2.43.0


From ad5e890577ce5a62752561dd5887e5a3dfbca565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:53 +0000
Subject: [PATCH 07/30] fix: contained_by ends on any input, and finds the
 outermost message

The recursion visited overlapping messages again and again: partitioning 2 kB
of crafted input took minutes, 10 kB never ended. Long chains of overlapping
messages overflowed the stack. A message whose marker reaches beyond the end of
its container was not recognized as contained, and the last byte of the buffer
never was: partitions could split a message there.
---
 matchit/src/lib.rs | 52 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 15 deletions(-)

diff --git a/matchit/src/lib.rs b/matchit/src/lib.rs
index 753bb5a..e8a305e 100644
--- a/matchit/src/lib.rs
+++ b/matchit/src/lib.rs
@@ -66,22 +66,50 @@ where
         Self(Finder::new(T::marker()), PhantomData)
     }
 
-    /// Recursively searches for a valid ``T``that contains the slice ``(payload.0 .. payload.1)``.
+    /// Searches for a valid ``T``that contains the slice ``(payload.0 .. payload.1)``.
     /// 
     /// Let's assume ``T(payload)`` denotes that ``payload`` is contained by ``T``.
     /// If a valid ``T0(payload)`` is found, the algorithm makes sure this is in turn not
     /// contained by a previous ``T1(T0(payload))``.
-    /// This validity check is performed recursively until no containing ``T_n(...(T1(payload))`` 
-    /// is found anymore.
+    /// This validity check is performed until no containing ``T_n(...(T1(payload))`` is found anymore:
+    /// the search goes back to the start of a chain of overlapping ``T``s, and reads forward from there.
     #[inline(always)]
     pub fn contained_by(&self, bytes: &'bytes [u8], payload: (usize, usize)) -> Option<(usize, T)> 
     {
-        if payload.0 >= bytes.len() || payload.1 >= bytes.len() || payload.0 >= payload.1 || payload.1 == 0 {
+        if payload.0 >= bytes.len() || payload.1 > bytes.len() || payload.0 >= payload.1 || payload.1 == 0 {
             return None
         }
-        
+
+        // go back to a position that no valid T before it reaches beyond
+        let mut start = payload.0;
+        while let Some(candidate_idx) = self.covered_by(bytes, start) {
+            start = candidate_idx;
+        }
+
+        // read forward from there, everything in a container is skipped
+        while start < payload.0 {
+            start += self.0.find(&bytes[start..])?;
+            if start >= payload.0 {
+                return None
+            }
+            match T::try_read(&bytes[start..]) {
+                Some((_, container)) if start + container.len() > payload.0 => {
+                    // needs to contain payload.1
+                    return if start + container.len() >= payload.1 { Some((start, container)) } else { None }
+                },
+                Some((_, container)) => start += container.len(),
+                None => start += T::marker().len(),
+            }
+        }
+        None
+    }
+
+    /// Searches for the first valid ``T`` that starts before ``pos`` and reaches beyond it.
+    #[inline(always)]
+    fn covered_by(&self, bytes: &'bytes [u8], pos: usize) -> Option<usize>
+    {
         // go back max payload size
-        let backwards_offset = match payload.0.checked_sub(T::max_len()) {
+        let backwards_offset = match pos.checked_sub(T::max_len()) {
             Some(val) => val,
             None => 0,
         };
@@ -89,18 +117,12 @@ where
         let iter = self.0.find_iter(&bytes[backwards_offset..]);
         
         for candidate_idx in iter.map(|x| x + backwards_offset) {
-            if candidate_idx >= payload.0 {
+            if candidate_idx >= pos {
                 return None
             }
             if let Some((_, container)) = T::try_read(&bytes[candidate_idx..]) {
-
-                // needs to contain payload.1
-                if candidate_idx + container.len() >= payload.1 {
-                    // recursively check whether the current container is contained in another container
-                    return match self.contained_by(bytes, (candidate_idx, candidate_idx + T::marker().len())) {
-                        Some(_) => continue,
-                        None => Some((candidate_idx, container)),
-                    };
+                if candidate_idx + container.len() > pos {
+                    return Some(candidate_idx)
                 }
             }
         }
-- 
2.43.0


From 74cfab6476edca2715a4804390c2fc58250dff8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:53 +0000
Subject: [PATCH 08/30] fix: partition_from does not lose bytes

Splits move back to the start of a message. After some of them the last split
was behind the end of the buffer, and the remaining bytes (up to a partition)
were dropped. With a message larger than a partition, or more partitions than
bytes, all bytes from there on were dropped: par_count of ten 80 byte messages
was 9 on 8 cores, and 0 on 11.
---
 matchit/src/lib.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/matchit/src/lib.rs b/matchit/src/lib.rs
index e8a305e..f213e58 100644
--- a/matchit/src/lib.rs
+++ b/matchit/src/lib.rs
@@ -136,19 +136,24 @@ where
 pub fn partition_from<'bytes, T: SearchableMarkerTrait<'bytes>>(bytes: &'bytes [u8], num: usize) -> Vec<&'bytes [u8]> {
     let mut result: Vec<&[u8]> = vec![];
 
-    let size = bytes.len() / num;
+    let size = std::cmp::max(bytes.len() / num, 1);
     let mut candidate = (0, size);
 
     let search = ContainedBySearch::<T>::new();
     loop {
         // out of bounds checks: canidates may not exceed ``bytes`` slice and
         if candidate.0 > bytes.len() || candidate.1 > bytes.len() {
+            // the remaining bytes are smaller than ``size``
+            if candidate.0 < bytes.len() {
+                result.push(&bytes[candidate.0..]);
+            }
             break;
         }
         candidate.1 = match search.contained_by(bytes, (candidate.1, candidate.1+1)) {
-            Some((container ,_)) => {
+            Some((container, t)) => {
                 // in ~99 percent of the cases, candidate.1 points to a valid T.
-                container
+                // a T that starts at candidate.0 is larger than ``size``: split behind it
+                if container > candidate.0 { container } else { container + t.len() }
             },
             None => {
                 // if no containing T was found, candidate.1 points to invalid raw data,
-- 
2.43.0


From 70ac0fe6ce86f0710dc68eade49b24651f76af10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:53 +0000
Subject: [PATCH 09/30] fix: GrepIterator finds all messages that match, and
 ends

A match that started in one message (or in front of it) and reached into others
was dropped together with the matches it covered: 94031 instead of 100000
messages of test_gen/11b_hello_ten_lcs.dlt match H.* World. A pattern that
matches the empty string, or many matches outside of messages, overflowed the
stack.
---
 matchit/src/searchable/grepit.rs | 42 +++++++++++++++-----------------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/matchit/src/searchable/grepit.rs b/matchit/src/searchable/grepit.rs
index a23914d..190f0e5 100644
--- a/matchit/src/searchable/grepit.rs
+++ b/matchit/src/searchable/grepit.rs
@@ -3,7 +3,7 @@ use std::marker::PhantomData;
 use regex::bytes::Regex;
 use crate::{TIterator, WithOffset};
 
-use super::{searchit::RevSearchIterator, SearchableMarkerTrait};
+use super::{search_marker, searchit::RevSearchIterator, SearchableMarkerTrait};
 
 #[derive(Debug)]
 pub struct GrepIterator<'bytes, T>
@@ -31,29 +31,27 @@ impl<'bytes, T> GrepIterator<'bytes, T>
     where T: SearchableMarkerTrait<'bytes>
 {
     #[inline(always)]
-    pub fn search(&self, bytes: &'bytes [u8], offset: usize) -> Option<WithOffset<T>> {
-        if offset >= bytes.len() {
-            return None
-        }
-        let foundit = self.finder.find_at(bytes, offset)?.range();
-
-        match self.iter.search(bytes, foundit.start) {
-            Some((_off, val)) => {
-                if _off < foundit.start &&  _off + val.len() < foundit.end {
+    pub fn search(&self, bytes: &'bytes [u8], mut offset: usize) -> Option<WithOffset<T>> {
+        while offset < bytes.len() {
+            let foundit = self.finder.find_at(bytes, offset)?.range();
+
+            match self.iter.search(bytes, foundit.start) {
+                Some((_off, val)) if foundit.start < _off + val.len() => {
+                    let end = _off + val.len();
+                    // a match that reaches beyond the message can hide a match that does not
+                    if foundit.end <= end || self.finder.find_at(&bytes[..end], foundit.start).is_some() {
+                        return Some((_off, val))
+                    }
                     // match not included
-                    self.search(bytes, foundit.end)
-                } else {
-                    Some((_off, val))
-                }
-            },
-            None => {
-                if foundit.end >= bytes.len() {
-                    return None
-                }
-                self.search(bytes, foundit.end)
-            },
+                    offset = end;
+                },
+                _ => {
+                    // match between messages, it can hide matches in messages behind the next marker
+                    offset = foundit.start + search_marker::<T>(&bytes[foundit.start..])? + T::marker().len();
+                },
+            }
         }
-
+        None
     }
 }
 
-- 
2.43.0


From dc6d5ca8410543955c3325bac242f01da6e82eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:53 +0000
Subject: [PATCH 10/30] fix: RegExMatcherIterator finds all messages that
 match, and ends

next() added the end of the capture, an offset in the buffer, to the offset of
the message: matches behind the first message were skipped. A match without the
group ended the iterator. Matches that reach beyond a message, empty matches:
see GrepIterator.
---
 matchit/src/searchable/grepit.rs | 53 +++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 22 deletions(-)

diff --git a/matchit/src/searchable/grepit.rs b/matchit/src/searchable/grepit.rs
index 190f0e5..73daad0 100644
--- a/matchit/src/searchable/grepit.rs
+++ b/matchit/src/searchable/grepit.rs
@@ -98,31 +98,39 @@ where
     T: SearchableMarkerTrait<'bytes>
 {
     #[inline(always)]
-    pub fn capture(&self, bytes: &'bytes [u8], offset: usize) -> Option<WithOffset<(usize,usize)>> {
-        if offset >= bytes.len() {
-            return None
-        }
+    pub fn capture(&self, bytes: &'bytes [u8], mut offset: usize) -> Option<WithOffset<(usize,usize)>> {
         let mut locs = self.finder.capture_locations();
-        let captures = self.finder.captures_read_at(&mut locs, bytes, offset)?;
 
-        let foundit = captures.range();
+        while offset < bytes.len() {
+            let mut foundit = self.finder.captures_read_at(&mut locs, bytes, offset)?.range();
 
-        match self.iter.search(bytes, foundit.start) {
-            Some((_off, val)) => {
-                if _off < foundit.start &&  _off + val.len() < foundit.end {
-                    // match not included
-                    self.capture(bytes, foundit.end)
-                } else {
-                    Some((_off, locs.get(1)?))
-                }
-            },
-            None => {
-                if foundit.end >= bytes.len() {
-                    return None
-                }
-                self.capture(bytes, foundit.end)
-            },
+            match self.iter.search(bytes, foundit.start) {
+                Some((_off, val)) if foundit.start < _off + val.len() => {
+                    let end = _off + val.len();
+                    if foundit.end > end {
+                        // a match that reaches beyond the message can hide a match that does not
+                        foundit = match self.finder.captures_read_at(&mut locs, &bytes[..end], foundit.start) {
+                            Some(captures) => captures.range(),
+                            None => {
+                                // match not included
+                                offset = end;
+                                continue
+                            },
+                        };
+                    }
+                    if let Some(group) = locs.get(1) {
+                        return Some((_off, group))
+                    }
+                    // the group is not part of this match
+                    offset = std::cmp::max(foundit.end, foundit.start + 1);
+                },
+                _ => {
+                    // match between messages, it can hide matches in messages behind the next marker
+                    offset = foundit.start + search_marker::<T>(&bytes[foundit.start..])? + T::marker().len();
+                },
+            }
         }
+        None
     }
 }
 
@@ -138,7 +146,8 @@ where
 
         // we need to go at the end of a DLT entry in order
         // not to emit the same DLT entry twice
-        self.offset = offset + val.1;
+        let (_, entry) = T::try_read_valid_marker(&self.bytes[offset..])?;
+        self.offset = offset + entry.len();
 
         Some((offset, val))
     }
-- 
2.43.0


From b5c1b15c8f2a9359693960e33ef83ca945daa470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:53 +0000
Subject: [PATCH 11/30] fix: groupby does not drop values of relations that are
 not reflexive

A value that neither relates to itself nor to its successor stayed the start of
the next group, and its successor was dropped: 3 1 2 5 grouped by < gave (3,5),
which do not follow each other, instead of (1,5).
---
 matchit/src/generator/groupby.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/matchit/src/generator/groupby.rs b/matchit/src/generator/groupby.rs
index f1fc265..841d7e8 100644
--- a/matchit/src/generator/groupby.rs
+++ b/matchit/src/generator/groupby.rs
@@ -47,6 +47,7 @@ where
                     self.1 = GroupByState::Consumed(next);
                     ControlFlow::Continue(Some((prev.clone(), prev.clone())))
                 } else {
+                    self.1 = GroupByState::Consumed(next);
                     ControlFlow::Continue(None)
                 }
             },
-- 
2.43.0


From d5f6772795c8ed50a27af0c457b9589f69c1d9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:53 +0000
Subject: [PATCH 12/30] fix: merge goes on with the merged value

A value that matched two others was merged with one of them only: (0,1) (3,4)
(1,3) gave the overlapping periods (0,3) (3,4) instead of (0,4).
---
 matchit/src/generator/groupby.rs | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/matchit/src/generator/groupby.rs b/matchit/src/generator/groupby.rs
index 841d7e8..8d376f8 100644
--- a/matchit/src/generator/groupby.rs
+++ b/matchit/src/generator/groupby.rs
@@ -125,22 +125,26 @@ where
 
 
     #[inline(always)]
-    fn adapt(&mut self, next: Self::Input) -> ControlFlow<(), Option<Self::Output>> {
-        let mut consumed = None;
+    fn adapt(&mut self, mut next: Self::Input) -> ControlFlow<(), Option<Self::Output>> {
+        loop {
+            let mut consumed = None;
 
-        for (_, prev) in self.2.iter() {
-            let ret = (self.0)(prev, &next);
-            if let Some(val) = ret {
-                consumed = Some((prev.clone(), val));
+            for (_, prev) in self.2.iter() {
+                let ret = (self.0)(prev, &next);
+                if let Some(val) = ret {
+                    consumed = Some((prev.clone(), val));
+                    break;
+                }
+            }
+            if let Some((prev, val)) = consumed {
+                // the merged value can match other values in turn
+                self.2.remove(&(self.1)(&prev));
+                next = val;
+            } else {
+                self.2.insert((self.1)(&next), next);
                 break;
             }
         }
-        if let Some((prev, val)) = consumed {
-            self.2.remove(&(self.1)(&prev));
-            self.2.insert((self.1)(&val), val);
-        } else {
-            self.2.insert((self.1)(&next), next);
-        }
         ControlFlow::Continue(None)
     }
 }
-- 
2.43.0


From 25272e574f502ef76aa75c577fb5732f40254df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:53 +0000
Subject: [PATCH 13/30] fix: read_file returns read errors

A failed read gave a buffer with the bytes read so far, or none for a directory,
as if it was the whole file.
---
 rapiddlt/src/dltbuffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rapiddlt/src/dltbuffer.rs b/rapiddlt/src/dltbuffer.rs
index 7eac240..6e8ba1d 100644
--- a/rapiddlt/src/dltbuffer.rs
+++ b/rapiddlt/src/dltbuffer.rs
@@ -16,7 +16,7 @@ impl DltBuffer {
         let file = File::open(filename)?;
         let mut rdr = BufReader::new(file);
         let mut buf: Vec<u8> = vec![];
-        let _ = rdr.read_to_end(&mut buf);
+        rdr.read_to_end(&mut buf)?;
         Ok(DltBuffer::Read(buf))
     }
     pub fn len(&self) -> usize {
-- 
2.43.0


From 251dd58f8c79757e9d51ef69d537678ef7b639be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:53 +0000
Subject: [PATCH 14/30] fix: mmap_file accepts empty files, as read_file does

---
 rapiddlt/src/dltbuffer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rapiddlt/src/dltbuffer.rs b/rapiddlt/src/dltbuffer.rs
index 6e8ba1d..ca117d6 100644
--- a/rapiddlt/src/dltbuffer.rs
+++ b/rapiddlt/src/dltbuffer.rs
@@ -9,6 +9,10 @@ pub enum DltBuffer {
 impl DltBuffer {
     pub fn mmap_file (filename: &str) -> Result<Self,io::Error> {
         let file = File::open(filename)?;
+        if file.metadata()?.len() == 0 {
+            // an empty file cannot be mapped
+            return Ok(DltBuffer::Read(vec![]))
+        }
         let mmap = unsafe { MmapOptions::new().map(&file)? };
         Ok(DltBuffer::Mmap(mmap))
     }
-- 
2.43.0


From 5555d68828a2a748b8faa49404f88a622b3cb853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:53 +0000
Subject: [PATCH 15/30] fix: dd_dlt writes complete messages

write() of a payload with line feeds, or to a pipe, can write a part of it: the
rest was lost, and the output no valid DLT.
---
 dd_dlt/src/main.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dd_dlt/src/main.rs b/dd_dlt/src/main.rs
index ec4950d..87d1434 100644
--- a/dd_dlt/src/main.rs
+++ b/dd_dlt/src/main.rs
@@ -47,12 +47,12 @@ fn main() -> Result<(), std::io::Error> {
                 appid.try_into().expect("app id incorrect")
         );
 
-        io::stdout().write(sh.as_bytes())?;
-        io::stdout().write(h.as_bytes())?;
+        io::stdout().write_all(sh.as_bytes())?;
+        io::stdout().write_all(h.as_bytes())?;
         // TODO ecu_id, session_id
-        io::stdout().write(U32::from(count * 100).as_bytes())?;
-        io::stdout().write(eh.as_bytes())?;
-        io::stdout().write(buf.as_bytes())?;
+        io::stdout().write_all(U32::from(count * 100).as_bytes())?;
+        io::stdout().write_all(eh.as_bytes())?;
+        io::stdout().write_all(buf.as_bytes())?;
 
         count += 1;
     }
-- 
2.43.0


From c29aaa62152fdbdd8b1a1e6de748cc4e92120758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:53 +0000
Subject: [PATCH 16/30] fix: dd_dlt rejects payload sizes that no message can
 have

More than 65517 bytes do not fit: the length field wrapped, and the output was
no valid DLT. With 0 bytes dd_dlt wrote messages forever.
---
 dd_dlt/src/main.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dd_dlt/src/main.rs b/dd_dlt/src/main.rs
index 87d1434..457de69 100644
--- a/dd_dlt/src/main.rs
+++ b/dd_dlt/src/main.rs
@@ -17,8 +17,9 @@ fn main() -> Result<(), std::io::Error> {
     let appid = args[2].as_bytes();
 
     let payload_size: u16 = match args[3].parse::<u16>() {
-        Ok(val) => val,
-        Err(_) => panic!("wrong parameter"),
+        // the length of a message without its storage header is limited to u16::MAX
+        Ok(val) if val > 0 && val <= u16::MAX - (4 + 10 + 4) => val,
+        _ => panic!("wrong parameter"),
     };
 
     let mut buf = vec![0u8; payload_size as usize];
-- 
2.43.0


From c2b906bce3d25a536102e38f958aeffc6e105da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:53 +0000
Subject: [PATCH 17/30] fix: dd_dlt returns read errors

A failed read was taken for the end of the input.
---
 dd_dlt/src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dd_dlt/src/main.rs b/dd_dlt/src/main.rs
index 457de69..29d0785 100644
--- a/dd_dlt/src/main.rs
+++ b/dd_dlt/src/main.rs
@@ -28,7 +28,8 @@ fn main() -> Result<(), std::io::Error> {
     loop {
         match io::stdin().lock().read_exact(&mut buf) {
             Ok(_) => (),
-            _ => {break;}
+            Err(e) if e.kind() == io::ErrorKind::UnexpectedEof => {break;}
+            Err(e) => return Err(e)
         };
 
         // DltStorageHeader
-- 
2.43.0


From d84c81592e5b43ab295ce5aeda37ceb98430a60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:53 +0000
Subject: [PATCH 18/30] fix: ripdlt reports files with messages shorter than
 their header fields

A message that announces a timestamp or an extended header, and is too short
for it, made ripdlt panic.
---
 ripdlt/src/main.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ripdlt/src/main.rs b/ripdlt/src/main.rs
index edfe799..6b94ab9 100644
--- a/ripdlt/src/main.rs
+++ b/ripdlt/src/main.rs
@@ -106,7 +106,7 @@ fn count_hello_world(mmap: &[u8]) -> usize {
 
     let it = dltit(mmap);
 
-    let predicate = |a: &DltStorageEntry<'_>| finder.find_iter(a.dlt.payload().expect("needs to be a valid DLT")).next().is_some();
+    let predicate = |a: &DltStorageEntry<'_>| a.dlt.payload().map_or(false, |p| finder.find_iter(p).next().is_some());
     let result = it
         .filter(predicate)
         .count();
@@ -153,7 +153,7 @@ fn mstp_info_histogram(mmap: DltBuffer) -> BTreeMap<(bool, Option<DltMessageType
     let it = dltit(mmap.as_slice());
 
     it
-        .filter(|dlt| dlt.dlt.header.header_type.is_extended_header())
+        .filter(|dlt| dlt.dlt.extended_header().is_some())
         .split(|dlt|  dlt.dlt.extended_header().unwrap().msin.info(), |_| Generator::count() )
 }
 
@@ -164,7 +164,7 @@ fn lifecycle_splitit(mmap: DltBuffer) -> BTreeMap<[u8;4],  (BTreeMap<u32, usize>
     let mapping = |r: &(DltStorageEntry<'_>,DltStorageEntry<'_>)| (r.1.dlt.timestamp().unwrap() - r.0.dlt.timestamp().unwrap()) / 10000;
 
     let result = it
-        .filter(|e| e.dlt.header.header_type.is_with_timestamp())
+        .filter(|e| e.dlt.timestamp().is_some())
         .split(
             |a: &DltStorageEntry<'_>| a.storage_header.ecu,
             |_| Generator::fork(
@@ -227,7 +227,7 @@ fn lifecycle_histogram(mmap: DltBuffer) -> BTreeMap<usize, usize> {
     let predicate = |a: &DltStorageEntry<'_>, b: &DltStorageEntry<'_>| a.dlt.ecu_id() == b.dlt.ecu_id() && b.dlt.timestamp() >= a.dlt.timestamp();
 
     let result = it
-        .filter(|e| e.dlt.header.header_type.is_with_timestamp())
+        .filter(|e| e.dlt.timestamp().is_some())
         .groupby(predicate)
         .map(|r| r.1.dlt.timestamp().unwrap() - r.0.dlt.timestamp().unwrap())
     ;
@@ -265,7 +265,7 @@ fn lifecycle_iter(mmap: &[u8]) -> usize {
     let predicate = |a: &DltStorageEntry<'_>, b: &DltStorageEntry<'_>| b.dlt.timestamp() >= a.dlt.timestamp();
 
     let result = it
-        .filter(|e| e.dlt.header.header_type.is_with_timestamp())
+        .filter(|e| e.dlt.timestamp().is_some())
         .groupby(predicate)
         .filter(|r| r.1.dlt.timestamp().unwrap() - r.0.dlt.timestamp().unwrap() >= MIN_TIME_DMS)
     ;
@@ -281,7 +281,7 @@ fn lifecycle_itertools(mmap: &[u8]) -> usize {
     let predicate = |a: &DltStorageEntry<'_>, b: &DltStorageEntry<'_>| b.dlt.timestamp() >= a.dlt.timestamp();
 
     let result = it
-        .filter(|e| e.dlt.header.header_type.is_with_timestamp())
+        .filter(|e| e.dlt.timestamp().is_some())
         .tuple_windows()
         .filter( |(a,b) |(predicate)(a,b))
         .filter(|r| r.1.dlt.timestamp().unwrap() - r.0.dlt.timestamp().unwrap() >= MIN_TIME_DMS)
-- 
2.43.0


From e6614f1b8026882956406b06cc62d3f9003ac5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:53 +0000
Subject: [PATCH 19/30] fix: ripdlt reports ECU ids that are not UTF-8

split_lifecycles, split_timestamp and par_split_timestamp panicked.
---
 ripdlt/src/main.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ripdlt/src/main.rs b/ripdlt/src/main.rs
index 6b94ab9..e4811dc 100644
--- a/ripdlt/src/main.rs
+++ b/ripdlt/src/main.rs
@@ -321,19 +321,19 @@ fn main() {
         "split_lifecycles" =>{
             println!("Distribution of lifecycle durations:");
             for (k,v) in lifecycle_splitit(mmap) {
-                println!("{} #lifecycles: {:?}", String::from_utf8(k.to_vec()).unwrap(), v);
+                println!("{} #lifecycles: {:?}", String::from_utf8_lossy(&k), v);
             }
         },
         "split_timestamp" =>{
             println!("Durations of periods where DLT storage header timestamps are continuous:");
             for (k,v) in timestamp_splitit(mmap.as_slice()) {
-                println!("{} #lifecycles: {:?}", String::from_utf8(k.to_vec()).unwrap(), v);
+                println!("{} #lifecycles: {:?}", String::from_utf8_lossy(&k), v);
             }
         },
         "par_split_timestamp" =>{
             println!("Durations of periods where DLT storage header timestamps are continuous:");
             for (k,v) in par_timestamp_splitit(mmap) {
-                println!("{} #lifecycles: {:?}", String::from_utf8(k.to_vec()).unwrap(), v);
+                println!("{} #lifecycles: {:?}", String::from_utf8_lossy(&k), v);
             }
         },
         "histogram_timestamp" =>{
-- 
2.43.0


From d03b59264b1a9e112df2c01e868d9e10587f68b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:47 +0000
Subject: [PATCH 20/30] fix: dd_dlt returns errors of the last write

Bytes still buffered at exit were written without looking at the result.
---
 dd_dlt/src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dd_dlt/src/main.rs b/dd_dlt/src/main.rs
index 29d0785..1d86c6c 100644
--- a/dd_dlt/src/main.rs
+++ b/dd_dlt/src/main.rs
@@ -58,6 +58,7 @@ fn main() -> Result<(), std::io::Error> {
 
         count += 1;
     }
+    io::stdout().flush()?;
     eprintln!("wrote {} DLT messages with payload size={}b", count, payload_size);
     Ok(())
 }
\ No newline at end of file
-- 
2.43.0


From 603b93d089e24779729b79f63a566885ba5d097e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:00 +0000
Subject: [PATCH 21/30] fix: ReadFallbackIterator reads a last message that has
 no bytes behind its marker

---
 matchit/src/searchable/readfallbackit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matchit/src/searchable/readfallbackit.rs b/matchit/src/searchable/readfallbackit.rs
index 6001ecc..525766e 100644
--- a/matchit/src/searchable/readfallbackit.rs
+++ b/matchit/src/searchable/readfallbackit.rs
@@ -45,7 +45,7 @@ impl<'bytes, T> Iterator for ReadFallbackIterator<'bytes, T>
 
     #[inline(always)]
     fn next(&mut self) -> Option<WithOffset<T>> {
-        while self.offset + T::marker().len() < self.bytes.len() {
+        while self.offset + T::marker().len() <= self.bytes.len() {
             if &self.bytes[self.offset..self.offset+T::marker().len()] == T::marker() {
                 // a valid T at offset
                 match T::try_read_valid_marker(&self.bytes[self.offset..]) {
-- 
2.43.0


From 59612160f25bb8980bef9d9efaaf3f17f686b8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:15 +0000
Subject: [PATCH 22/30] fix: grep iterators find matches in messages whose
 marker is part of another match

---
 matchit/src/searchable/grepit.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/matchit/src/searchable/grepit.rs b/matchit/src/searchable/grepit.rs
index 73daad0..d34ae83 100644
--- a/matchit/src/searchable/grepit.rs
+++ b/matchit/src/searchable/grepit.rs
@@ -5,6 +5,17 @@ use crate::{TIterator, WithOffset};
 
 use super::{search_marker, searchit::RevSearchIterator, SearchableMarkerTrait};
 
+/// Returns the position behind the first marker that ends behind ``pos``.
+/// The marker can start before ``pos``, if a match starts within the marker.
+#[inline(always)]
+fn behind_next_marker<'bytes, T>(bytes: &'bytes [u8], pos: usize) -> Option<usize>
+where
+    T: SearchableMarkerTrait<'bytes>
+{
+    let start = (pos + 1).saturating_sub(T::marker().len());
+    Some(start + search_marker::<T>(&bytes[start..])? + T::marker().len())
+}
+
 #[derive(Debug)]
 pub struct GrepIterator<'bytes, T>
 {
@@ -47,7 +58,7 @@ impl<'bytes, T> GrepIterator<'bytes, T>
                 },
                 _ => {
                     // match between messages, it can hide matches in messages behind the next marker
-                    offset = foundit.start + search_marker::<T>(&bytes[foundit.start..])? + T::marker().len();
+                    offset = behind_next_marker::<T>(bytes, foundit.start)?;
                 },
             }
         }
@@ -126,7 +137,7 @@ where
                 },
                 _ => {
                     // match between messages, it can hide matches in messages behind the next marker
-                    offset = foundit.start + search_marker::<T>(&bytes[foundit.start..])? + T::marker().len();
+                    offset = behind_next_marker::<T>(bytes, foundit.start)?;
                 },
             }
         }
-- 
2.43.0


From 5220d1fee8fa5affc81c7e86d17c98489a84f0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:23 +0000
Subject: [PATCH 23/30] fix: FromAdaptFn ends when its stage stops the stream

---
 matchit/src/fromgenerator.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/matchit/src/fromgenerator.rs b/matchit/src/fromgenerator.rs
index 7190f6d..cd0e59d 100644
--- a/matchit/src/fromgenerator.rs
+++ b/matchit/src/fromgenerator.rs
@@ -18,13 +18,18 @@ where
     type Item = AdaptFn::Output;
 
     fn next(&mut self) -> Option<Self::Item> {
-        for i in self.1.by_ref() {
-            let result = self.0.adapt(i);
-            if let ControlFlow::Continue(Some(res)) = result {
-                return Some(res);
-            } else if let ControlFlow::Break(()) = result {
-                break;
+        if self.2 {
+            for i in self.1.by_ref() {
+                let result = self.0.adapt(i);
+
+                if let ControlFlow::Continue(Some(res)) = result {
+                    return Some(res);
+                } else if let ControlFlow::Break(()) = result {
+                    break;
+                }
             }
+            // no more input, the values that are left are held by the adapter
+            self.2 = false;
         }
 
         let mut out = self.0.finalize();
-- 
2.43.0


From 257309fb232f120722c949b829cfc4ab6c8c5b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:16 +0000
Subject: [PATCH 24/30] fix: ReadFallbackIterator accepts every start offset

---
 matchit/src/searchable/readfallbackit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matchit/src/searchable/readfallbackit.rs b/matchit/src/searchable/readfallbackit.rs
index 525766e..bc4b6d4 100644
--- a/matchit/src/searchable/readfallbackit.rs
+++ b/matchit/src/searchable/readfallbackit.rs
@@ -45,7 +45,7 @@ impl<'bytes, T> Iterator for ReadFallbackIterator<'bytes, T>
 
     #[inline(always)]
     fn next(&mut self) -> Option<WithOffset<T>> {
-        while self.offset + T::marker().len() <= self.bytes.len() {
+        while self.offset <= self.bytes.len() && self.bytes.len() - self.offset >= T::marker().len() {
             if &self.bytes[self.offset..self.offset+T::marker().len()] == T::marker() {
                 // a valid T at offset
                 match T::try_read_valid_marker(&self.bytes[self.offset..]) {
-- 
2.43.0


From 80bbe0b860a0d3023177858b16ae882d85b635c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:19 +0000
Subject: [PATCH 25/30] fix: pattern searches take linear time if matches reach
 beyond messages

---
 matchit/src/searchable/grepit.rs | 120 ++++++++++++++++---------------
 1 file changed, 64 insertions(+), 56 deletions(-)

diff --git a/matchit/src/searchable/grepit.rs b/matchit/src/searchable/grepit.rs
index d34ae83..b6c6bed 100644
--- a/matchit/src/searchable/grepit.rs
+++ b/matchit/src/searchable/grepit.rs
@@ -5,15 +5,54 @@ use crate::{TIterator, WithOffset};
 
 use super::{search_marker, searchit::RevSearchIterator, SearchableMarkerTrait};
 
-/// Returns the position behind the first marker that ends behind ``pos``.
-/// The marker can start before ``pos``, if a match starts within the marker.
+/// Searches for the first valid ``T`` for that ``matches`` has a result. It gets the bytes up to the end of the ``T``,
+/// and the position where to start.
+///
+/// A match in ``bytes`` that starts between messages, or reaches beyond a message, can hide matches that do not.
+/// Therefore, the messages that the match overlaps are looked at one by one.
 #[inline(always)]
-fn behind_next_marker<'bytes, T>(bytes: &'bytes [u8], pos: usize) -> Option<usize>
+fn search_messages<'bytes, T, R>(
+    finder: &Regex,
+    iter: &RevSearchIterator<'bytes, T>,
+    bytes: &'bytes [u8],
+    mut offset: usize,
+    mut matches: impl FnMut(&'bytes [u8], usize) -> Option<R>
+) -> Option<(usize, T, R)>
 where
     T: SearchableMarkerTrait<'bytes>
 {
-    let start = (pos + 1).saturating_sub(T::marker().len());
-    Some(start + search_marker::<T>(&bytes[start..])? + T::marker().len())
+    while offset < bytes.len() {
+        let foundit = finder.find_at(bytes, offset)?.range();
+
+        let mut candidate = match iter.search(bytes, foundit.start) {
+            Some((_off, val)) if foundit.start < _off + val.len() => _off,
+            _ => {
+                // match between messages: go on with the first marker that ends behind the start of the match
+                let start = (foundit.start + 1).saturating_sub(T::marker().len());
+                start + search_marker::<T>(&bytes[start..])?
+            }
+        };
+        loop {
+            let behind_marker = candidate + T::marker().len();
+            let start = std::cmp::max(offset, behind_marker);
+            offset = match T::try_read_valid_marker(&bytes[candidate..]) {
+                Some((_, val)) => {
+                    let end = candidate + val.len();
+                    if start < end {
+                        if let Some(result) = matches(&bytes[..end], start) {
+                            return Some((candidate, val, result))
+                        }
+                    }
+                    end
+                },
+                None => behind_marker,
+            };
+            if offset >= foundit.end { break }
+            candidate = offset + search_marker::<T>(&bytes[offset..])?;
+            if candidate >= foundit.end { break }
+        }
+    }
+    None
 }
 
 #[derive(Debug)]
@@ -42,27 +81,11 @@ impl<'bytes, T> GrepIterator<'bytes, T>
     where T: SearchableMarkerTrait<'bytes>
 {
     #[inline(always)]
-    pub fn search(&self, bytes: &'bytes [u8], mut offset: usize) -> Option<WithOffset<T>> {
-        while offset < bytes.len() {
-            let foundit = self.finder.find_at(bytes, offset)?.range();
-
-            match self.iter.search(bytes, foundit.start) {
-                Some((_off, val)) if foundit.start < _off + val.len() => {
-                    let end = _off + val.len();
-                    // a match that reaches beyond the message can hide a match that does not
-                    if foundit.end <= end || self.finder.find_at(&bytes[..end], foundit.start).is_some() {
-                        return Some((_off, val))
-                    }
-                    // match not included
-                    offset = end;
-                },
-                _ => {
-                    // match between messages, it can hide matches in messages behind the next marker
-                    offset = behind_next_marker::<T>(bytes, foundit.start)?;
-                },
-            }
-        }
-        None
+    pub fn search(&self, bytes: &'bytes [u8], offset: usize) -> Option<WithOffset<T>> {
+        let (_off, val, _) = search_messages(&self.finder, &self.iter, bytes, offset, |message, start| {
+            self.finder.find_at(message, start).filter(|foundit| foundit.start() < message.len())
+        })?;
+        Some((_off, val))
     }
 }
 
@@ -109,39 +132,24 @@ where
     T: SearchableMarkerTrait<'bytes>
 {
     #[inline(always)]
-    pub fn capture(&self, bytes: &'bytes [u8], mut offset: usize) -> Option<WithOffset<(usize,usize)>> {
+    pub fn capture(&self, bytes: &'bytes [u8], offset: usize) -> Option<WithOffset<(usize,usize)>> {
         let mut locs = self.finder.capture_locations();
 
-        while offset < bytes.len() {
-            let mut foundit = self.finder.captures_read_at(&mut locs, bytes, offset)?.range();
-
-            match self.iter.search(bytes, foundit.start) {
-                Some((_off, val)) if foundit.start < _off + val.len() => {
-                    let end = _off + val.len();
-                    if foundit.end > end {
-                        // a match that reaches beyond the message can hide a match that does not
-                        foundit = match self.finder.captures_read_at(&mut locs, &bytes[..end], foundit.start) {
-                            Some(captures) => captures.range(),
-                            None => {
-                                // match not included
-                                offset = end;
-                                continue
-                            },
-                        };
-                    }
-                    if let Some(group) = locs.get(1) {
-                        return Some((_off, group))
-                    }
-                    // the group is not part of this match
-                    offset = std::cmp::max(foundit.end, foundit.start + 1);
-                },
-                _ => {
-                    // match between messages, it can hide matches in messages behind the next marker
-                    offset = behind_next_marker::<T>(bytes, foundit.start)?;
-                },
+        let (_off, _, group) = search_messages(&self.finder, &self.iter, bytes, offset, |message, mut start| {
+            while start < message.len() {
+                let foundit = self.finder.captures_read_at(&mut locs, message, start)?.range();
+                if foundit.start >= message.len() {
+                    return None
+                }
+                if let Some(group) = locs.get(1) {
+                    return Some(group)
+                }
+                // the group is not part of this match
+                start = std::cmp::max(foundit.end, foundit.start + 1);
             }
-        }
-        None
+            None
+        })?;
+        Some((_off, group))
     }
 }
 
-- 
2.43.0


From 2e608cc5993339149f5a38867fa6eb850c235668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:19 +0000
Subject: [PATCH 26/30] fix: contained_by goes back through overlapping
 messages only once

---
 matchit/src/lib.rs | 37 ++++++++++++++++---------------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/matchit/src/lib.rs b/matchit/src/lib.rs
index f213e58..f57d881 100644
--- a/matchit/src/lib.rs
+++ b/matchit/src/lib.rs
@@ -6,7 +6,7 @@ pub mod readit;
 
 use std::{marker::PhantomData};
 
-use memchr::memmem::Finder;
+use memchr::memmem::{rfind_iter, Finder};
 use searchable::SearchableMarkerTrait;
 
 pub type WithOffset<T> = (usize, T);
@@ -81,10 +81,7 @@ where
         }
 
         // go back to a position that no valid T before it reaches beyond
-        let mut start = payload.0;
-        while let Some(candidate_idx) = self.covered_by(bytes, start) {
-            start = candidate_idx;
-        }
+        let mut start = self.covering_start(bytes, payload.0);
 
         // read forward from there, everything in a container is skipped
         while start < payload.0 {
@@ -104,29 +101,27 @@ where
         None
     }
 
-    /// Searches for the first valid ``T`` that starts before ``pos`` and reaches beyond it.
+    /// Returns the start of the chain of overlapping ``T``s that reaches beyond ``pos``,
+    /// or ``pos`` if no valid ``T`` reaches beyond it.
     #[inline(always)]
-    fn covered_by(&self, bytes: &'bytes [u8], pos: usize) -> Option<usize>
+    fn covering_start(&self, bytes: &'bytes [u8], pos: usize) -> usize
     {
-        // go back max payload size
-        let backwards_offset = match pos.checked_sub(T::max_len()) {
-            Some(val) => val,
-            None => 0,
-        };
-        
-        let iter = self.0.find_iter(&bytes[backwards_offset..]);
-        
-        for candidate_idx in iter.map(|x| x + backwards_offset) {
-            if candidate_idx >= pos {
-                return None
+        let mut start = pos;
+        // a marker that starts before pos may end behind it
+        let end = std::cmp::min(pos + T::marker().len() - 1, bytes.len());
+
+        for candidate_idx in rfind_iter(&bytes[..end], T::marker()) {
+            // go back max payload size
+            if candidate_idx < start.saturating_sub(T::max_len()) {
+                break
             }
             if let Some((_, container)) = T::try_read(&bytes[candidate_idx..]) {
-                if candidate_idx + container.len() > pos {
-                    return Some(candidate_idx)
+                if candidate_idx + container.len() > start {
+                    start = candidate_idx;
                 }
             }
         }
-        None
+        start
     }
 }
 
-- 
2.43.0


From 87add0691b6fc101219c33f4fe80056b6f356527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:16 +0000
Subject: [PATCH 27/30] fix: mmap_file reads special files that show no length

---
 rapiddlt/src/dltbuffer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rapiddlt/src/dltbuffer.rs b/rapiddlt/src/dltbuffer.rs
index ca117d6..7cc9683 100644
--- a/rapiddlt/src/dltbuffer.rs
+++ b/rapiddlt/src/dltbuffer.rs
@@ -10,8 +10,8 @@ impl DltBuffer {
     pub fn mmap_file (filename: &str) -> Result<Self,io::Error> {
         let file = File::open(filename)?;
         if file.metadata()?.len() == 0 {
-            // an empty file cannot be mapped
-            return Ok(DltBuffer::Read(vec![]))
+            // files without a length (empty ones, or special files) cannot be mapped
+            return Self::read_file(filename)
         }
         let mmap = unsafe { MmapOptions::new().map(&file)? };
         Ok(DltBuffer::Mmap(mmap))
-- 
2.43.0


From 715b309058d74c7f7e216065aba35867c0174104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:11 +0000
Subject: [PATCH 28/30] fix: dd_dlt panics at message 42949673 in builds with
 overflow checks

The time of a message is its number times 10 ms, and wraps as a 32 bit number.
---
 dd_dlt/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dd_dlt/src/main.rs b/dd_dlt/src/main.rs
index 1d86c6c..321a32c 100644
--- a/dd_dlt/src/main.rs
+++ b/dd_dlt/src/main.rs
@@ -52,7 +52,7 @@ fn main() -> Result<(), std::io::Error> {
         io::stdout().write_all(sh.as_bytes())?;
         io::stdout().write_all(h.as_bytes())?;
         // TODO ecu_id, session_id
-        io::stdout().write_all(U32::from(count * 100).as_bytes())?;
+        io::stdout().write_all(U32::from(count.wrapping_mul(100)).as_bytes())?;
         io::stdout().write_all(eh.as_bytes())?;
         io::stdout().write_all(buf.as_bytes())?;
 
-- 
2.43.0


From 18d199208045ef3690815f7806eac96adc9a52b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:26 +0000
Subject: [PATCH 29/30] fix: ripdlt's itertools report counts neighbouring
 messages, not lifecycles

It prints the number of lifecycles of at least 1800 s, like the report iter,
but looked at the time between two consecutive messages only.
---
 ripdlt/src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ripdlt/src/main.rs b/ripdlt/src/main.rs
index e4811dc..8b8257a 100644
--- a/ripdlt/src/main.rs
+++ b/ripdlt/src/main.rs
@@ -282,8 +282,8 @@ fn lifecycle_itertools(mmap: &[u8]) -> usize {
 
     let result = it
         .filter(|e| e.dlt.timestamp().is_some())
-        .tuple_windows()
-        .filter( |(a,b) |(predicate)(a,b))
+        .map(|e| (e, e))
+        .coalesce(|a, b| if (predicate)(&a.1, &b.0) { Ok((a.0, b.1)) } else { Err((a, b)) })
         .filter(|r| r.1.dlt.timestamp().unwrap() - r.0.dlt.timestamp().unwrap() >= MIN_TIME_DMS)
     ;
     let r = result.count();
-- 
2.43.0


From 407af6ac8531ff3e535f314f387018f20e98f07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:07 +0000
Subject: [PATCH 30/30] fix: dd_dlt starts again with time 0 at message
 4294967296

---
 dd_dlt/src/main.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dd_dlt/src/main.rs b/dd_dlt/src/main.rs
index 321a32c..7b31785 100644
--- a/dd_dlt/src/main.rs
+++ b/dd_dlt/src/main.rs
@@ -23,7 +23,7 @@ fn main() -> Result<(), std::io::Error> {
     };
 
     let mut buf = vec![0u8; payload_size as usize];
-    let mut count = 0;
+    let mut count = 0u64;
 
     loop {
         match io::stdin().lock().read_exact(&mut buf) {
@@ -35,7 +35,7 @@ fn main() -> Result<(), std::io::Error> {
         // DltStorageHeader
         let sh = DltStorageHeader::new(
             [b'D',b'L',b'T', 0x1],
-            count / 100,
+            (count / 100) as u32,
             (count % 100) as i32 * 10000,
             ecuid.try_into().expect("ecuid wrong"));
 
@@ -52,7 +52,7 @@ fn main() -> Result<(), std::io::Error> {
         io::stdout().write_all(sh.as_bytes())?;
         io::stdout().write_all(h.as_bytes())?;
         // TODO ecu_id, session_id
-        io::stdout().write_all(U32::from(count.wrapping_mul(100)).as_bytes())?;
+        io::stdout().write_all(U32::from(count.wrapping_mul(100) as u32).as_bytes())?;
         io::stdout().write_all(eh.as_bytes())?;
         io::stdout().write_all(buf.as_bytes())?;
 
-- 
2.43.0

