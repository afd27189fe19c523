From 29131783c726c9de3d6e905bbee97bde6d9681fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:36 +0000
Subject: [PATCH 01/17] fix: RemainingBytesDecoder must not allocate memory for
 claimed but absent bytes

---
 src/bytes.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/bytes.rs b/src/bytes.rs
index 09c334b..be63616 100644
--- a/src/bytes.rs
+++ b/src/bytes.rs
@@ -297,6 +297,10 @@ impl RemainingBytesDecoder {
         Self::default()
     }
 }
+
+/// The maximum number of bytes reserved in advance of the actual arrival of them.
+const MAX_PREALLOCATION_BYTES: u64 = 64 * 1024;
+
 impl Decode for RemainingBytesDecoder {
     type Item = Vec<u8>;
 
@@ -306,7 +310,10 @@ impl Decode for RemainingBytesDecoder {
         }
 
         if let Some(remaining) = eos.remaining_bytes().to_u64() {
-            self.buf.reserve_exact(buf.len() + remaining as usize);
+            // `remaining` may be an unverified length field of the input,
+            // so it is not used for large pre-allocation.
+            let remaining = cmp::min(remaining, MAX_PREALLOCATION_BYTES) as usize;
+            self.buf.reserve(buf.len() + remaining);
         }
         self.buf.extend_from_slice(buf);
         self.eos = eos.is_reached();
-- 
2.43.0


From b33bc34ba40bd8f03881839101f6144dfca861d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 02/17] fix: Collect must not drop a partially decoded item
 when EOS is signalled with no bytes

---
 src/combinator.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index 3f0bcbf..97a5796 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -587,6 +587,7 @@ pub struct Collect<D, T> {
     inner: D,
     items: T,
     eos: bool,
+    decoding: bool,
 }
 impl<D, T: Default> Collect<D, T> {
     /// Returns a reference to the inner decoder.
@@ -609,6 +610,7 @@ impl<D, T: Default> Collect<D, T> {
             inner,
             items: T::default(),
             eos: false,
+            decoding: false,
         }
     }
 }
@@ -625,9 +627,17 @@ where
         }
 
         let mut offset = 0;
-        while offset < buf.len() {
-            bytecodec_try_decode!(self.inner, offset, buf, eos);
+        while offset < buf.len() || (self.decoding && eos.is_reached()) {
+            if !self.inner.is_idle() {
+                let size = track!(self.inner.decode(&buf[offset..], eos))?;
+                offset += size;
+                self.decoding |= size != 0;
+                if !self.inner.is_idle() {
+                    return Ok(offset);
+                }
+            }
 
+            self.decoding = false;
             let item = track!(self.inner.finish_decoding())?;
             self.items.extend(iter::once(item));
         }
-- 
2.43.0


From 93017b844c48c361ee7db61d47f61f659ee3ac53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:43 +0000
Subject: [PATCH 03/17] fix: CollectN must be able to complete items that need
 no more bytes

---
 src/combinator.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index 97a5796..3cce78a 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -861,14 +861,19 @@ where
 
     fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
         let mut offset = 0;
-        while self.remaining_items != 0 && offset < buf.len() {
-            bytecodec_try_decode!(self.inner, offset, buf, eos);
+        while self.remaining_items != 0 {
+            if !self.inner.is_idle() {
+                offset += track!(self.inner.decode(&buf[offset..], eos))?;
+                if !self.inner.is_idle() {
+                    break;
+                }
+            }
 
             let item = track!(self.inner.finish_decoding())?;
             self.items.extend(iter::once(item));
             self.remaining_items -= 1;
         }
-        if self.remaining_items != 0 {
+        if self.remaining_items != 0 && offset == buf.len() {
             track_assert!(!eos.is_reached(), ErrorKind::UnexpectedEos);
         }
         Ok(offset)
-- 
2.43.0


From 087aa1956fd59e922799125f7e2546bf84ee643d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 04/17] fix: Length decoder must report EOS that comes before
 the expected bytes

---
 src/combinator.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index 3cce78a..5e927d3 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -735,8 +735,9 @@ impl<D: Decode> Decode for Length<D> {
         let required = self.remaining_bytes - limit as u64;
         let expected_eos = Eos::with_remaining_bytes(ByteCount::Finite(required));
         if let Some(mut remaining) = eos.remaining_bytes().to_u64() {
-            remaining += buf.len() as u64;
-            track_assert!(remaining >= required, ErrorKind::UnexpectedEos; remaining, required);
+            remaining = remaining.saturating_add(buf.len() as u64);
+            track_assert!(remaining >= self.remaining_bytes, ErrorKind::UnexpectedEos;
+                          remaining, self.remaining_bytes);
         }
 
         let size = track!(self.inner.decode(&buf[..limit], expected_eos))?;
-- 
2.43.0


From e33fa88f6ef69eb66243da2281deeeb8b834e79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 05/17] fix: Length encoder must be idle without an item and
 reusable after encoding one

---
 src/combinator.rs | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index 5e927d3..6db242f 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -764,6 +764,9 @@ impl<E: Encode> Encode for Length<E> {
     type Item = E::Item;
 
     fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
+        if self.inner.is_idle() {
+            return Ok(0);
+        }
         if (buf.len() as u64) < self.remaining_bytes {
             track_assert!(!eos.is_reached(), ErrorKind::UnexpectedEos);
         }
@@ -776,8 +779,9 @@ impl<E: Encode> Encode for Length<E> {
         let size = track!(self.inner.encode(&mut buf[..limit], eos))?;
         self.remaining_bytes -= size as u64;
         if self.inner.is_idle() {
+            let remaining_bytes = mem::replace(&mut self.remaining_bytes, self.expected_bytes);
             track_assert_eq!(
-                self.remaining_bytes,
+                remaining_bytes,
                 0,
                 ErrorKind::InvalidInput,
                 "Too small item"
@@ -787,26 +791,35 @@ impl<E: Encode> Encode for Length<E> {
     }
 
     fn start_encoding(&mut self, item: Self::Item) -> Result<()> {
-        track_assert_eq!(
-            self.remaining_bytes,
-            self.expected_bytes,
-            ErrorKind::EncoderFull
-        );
+        track_assert!(self.inner.is_idle(), ErrorKind::EncoderFull);
+        track!(self.inner.start_encoding(item))?;
         self.remaining_bytes = self.expected_bytes;
-        track!(self.inner.start_encoding(item))
+        if self.inner.is_idle() {
+            track_assert_eq!(
+                self.expected_bytes,
+                0,
+                ErrorKind::InvalidInput,
+                "Too small item"
+            );
+        }
+        Ok(())
     }
 
     fn requiring_bytes(&self) -> ByteCount {
-        ByteCount::Finite(self.remaining_bytes)
+        ByteCount::Finite(self.exact_requiring_bytes())
     }
 
     fn is_idle(&self) -> bool {
-        self.remaining_bytes == 0
+        self.inner.is_idle()
     }
 }
 impl<E: Encode> SizedEncode for Length<E> {
     fn exact_requiring_bytes(&self) -> u64 {
-        self.remaining_bytes
+        if self.inner.is_idle() {
+            0
+        } else {
+            self.remaining_bytes
+        }
     }
 }
 
-- 
2.43.0


From ff3bef12dc9ff53654bfefaa640da4663167880a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 06/17] fix: Repeat must not stop at elements that are encoded
 to no bytes

---
 src/combinator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index 6db242f..8b955e1 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -424,7 +424,7 @@ where
 
             let size = track!(self.inner.encode(&mut buf[offset..], eos))?;
             offset += size;
-            if size == 0 {
+            if size == 0 && !self.inner.is_idle() {
                 return Ok(offset);
             }
         }
-- 
2.43.0


From f882bd912e1e9491e06431a1bb40f4062dca6c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:15 +0000
Subject: [PATCH 07/17] fix: MaxBytes encoder must not charge a rejected item
 to the next one

---
 src/combinator.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/combinator.rs b/src/combinator.rs
index 8b955e1..0b6b66d 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -1089,6 +1089,9 @@ impl<E: Encode> Encode for MaxBytes<E> {
     }
 
     fn start_encoding(&mut self, item: Self::Item) -> Result<()> {
+        if self.is_idle() {
+            self.consumed_bytes = 0;
+        }
         track!(self.inner.start_encoding(item))
     }
 
-- 
2.43.0


From 7be79efb4d08ef6b1df4c57b3ce78a4cdf3d02aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:19 +0000
Subject: [PATCH 08/17] fix: TupleEncoder must refuse an item as a whole while
 another one is being encoded

---
 src/tuple.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tuple.rs b/src/tuple.rs
index 294165b..8255f41 100644
--- a/src/tuple.rs
+++ b/src/tuple.rs
@@ -1,5 +1,5 @@
 //! Encoders and decoders for tuples.
-use crate::{ByteCount, Decode, Encode, Eos, Result, SizedEncode};
+use crate::{ByteCount, Decode, Encode, Eos, ErrorKind, Result, SizedEncode};
 
 /// Decoder for tuples.
 #[derive(Debug, Default)]
@@ -108,6 +108,7 @@ macro_rules! impl_encode {
             }
 
             fn start_encoding(&mut self, t: Self::Item) -> Result<()> {
+                track_assert!(self.is_idle(), ErrorKind::EncoderFull);
                 $(track!(self.inner.$i.start_encoding(t.$i), "i={}", $i)?;)*
                 Ok(())
             }
-- 
2.43.0


From 52d1abf3cf691e4ed51447bf910c3744cc5502e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 09/17] fix: finishing an incomplete decoding must not discard
 its progress

---
 src/combinator.rs | 9 +++++++--
 src/tuple.rs      | 1 +
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index 0b6b66d..b8336a1 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -221,6 +221,7 @@ where
     }
 
     fn finish_decoding(&mut self) -> Result<Self::Item> {
+        track_assert!(self.is_idle(), ErrorKind::IncompleteDecoding);
         let mut d = track_assert_some!(self.inner1.take(), ErrorKind::IncompleteDecoding);
         track!(d.finish_decoding())
     }
@@ -1061,7 +1062,9 @@ impl<D: Decode> Decode for MaxBytes<D> {
     }
 
     fn finish_decoding(&mut self) -> Result<Self::Item> {
-        self.consumed_bytes = 0;
+        if self.inner.is_idle() {
+            self.consumed_bytes = 0;
+        }
         track!(self.inner.finish_decoding())
     }
 
@@ -1470,7 +1473,9 @@ impl<D: Decode> Decode for MaybeEos<D> {
     }
 
     fn finish_decoding(&mut self) -> Result<Self::Item> {
-        self.started = false;
+        if self.inner.is_idle() {
+            self.started = false;
+        }
         track!(self.inner.finish_decoding())
     }
 
diff --git a/src/tuple.rs b/src/tuple.rs
index 8255f41..9cb5860 100644
--- a/src/tuple.rs
+++ b/src/tuple.rs
@@ -43,6 +43,7 @@ macro_rules! impl_decode {
             }
 
             fn finish_decoding(&mut self) -> Result<Self::Item> {
+                track_assert!(self.is_idle(), ErrorKind::IncompleteDecoding);
                 Ok((
                     $(track!(self.inner.$i.finish_decoding(), "i={}", $i)?),*,
                 ))
-- 
2.43.0


From 05253758377c6f645e6d5292a8dfb5be7b567c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:27 +0000
Subject: [PATCH 10/17] fix: TupleDecoder must not keep decoded elements after
 another element was refused

---
 src/tuple.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/tuple.rs b/src/tuple.rs
index 9cb5860..e4d94bc 100644
--- a/src/tuple.rs
+++ b/src/tuple.rs
@@ -44,9 +44,8 @@ macro_rules! impl_decode {
 
             fn finish_decoding(&mut self) -> Result<Self::Item> {
                 track_assert!(self.is_idle(), ErrorKind::IncompleteDecoding);
-                Ok((
-                    $(track!(self.inner.$i.finish_decoding(), "i={}", $i)?),*,
-                ))
+                let items = ($(track!(self.inner.$i.finish_decoding(), "i={}", $i)),*,);
+                Ok(($(items.$i?),*,))
             }
 
             fn requiring_bytes(&self) -> ByteCount {
-- 
2.43.0


From 68e7df582e8f35a1cfc6b5665ddec1bc327ced8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:31 +0000
Subject: [PATCH 11/17] fix: MonolithicDecoder must consume no bytes while it
 holds a decoded item

---
 src/monolithic.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/monolithic.rs b/src/monolithic.rs
index cdd14db..f0bde91 100644
--- a/src/monolithic.rs
+++ b/src/monolithic.rs
@@ -50,6 +50,9 @@ impl<D: MonolithicDecode> Decode for MonolithicDecoder<D> {
     type Item = D::Item;
 
     fn decode(&mut self, mut buf: &[u8], eos: Eos) -> Result<usize> {
+        if self.item.is_some() {
+            return Ok(0);
+        }
         if eos.is_reached() {
             let original_len = buf.len();
             let item = track!(
-- 
2.43.0


From 3e5120525ece5b5a30ae0b23446070d2adbddfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:34 +0000
Subject: [PATCH 12/17] fix: MonolithicEncoder must report EOS that comes
 before the end of the item

---
 src/monolithic.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/monolithic.rs b/src/monolithic.rs
index f0bde91..4a0c9a1 100644
--- a/src/monolithic.rs
+++ b/src/monolithic.rs
@@ -144,6 +144,7 @@ impl<E: MonolithicEncode> Encode for MonolithicEncoder<E> {
                 Ok(original_len - buf.len())
             } else {
                 track!(self.buf.start_encoding(extra))?;
+                track_assert!(!eos.is_reached(), ErrorKind::UnexpectedEos);
                 Ok(original_len)
             }
         } else {
-- 
2.43.0


From 19b56943bbdbd1eb427d7006a37c2e7ff18cb257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:38 +0000
Subject: [PATCH 13/17] fix: decode_exact must not loop forever if the reader
 ends before the item

---
 src/io.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/io.rs b/src/io.rs
index 0a3951a..41c641f 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -48,6 +48,7 @@ pub trait IoDecodeExt: Decode {
                 let item = track!(self.finish_decoding())?;
                 return Ok(item);
             }
+            track_assert!(!eos.is_reached(), ErrorKind::UnexpectedEos);
         }
     }
 }
-- 
2.43.0


From ed74b2559a2cc012eaed6ffffa6b7a2468ee2bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:41 +0000
Subject: [PATCH 14/17] fix: sums of byte counts must saturate instead of
 overflowing

---
 src/byte_count.rs | 12 ++++++++++--
 src/combinator.rs |  2 +-
 src/eos.rs        |  2 +-
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/byte_count.rs b/src/byte_count.rs
index 23d0040..537a9e7 100644
--- a/src/byte_count.rs
+++ b/src/byte_count.rs
@@ -37,6 +37,8 @@ impl ByteCount {
 
     /// Adds two `ByteCount` instances for decoding (i.e., `Decode::requiring_bytes` method).
     ///
+    /// If the sum of finite values overflows, it saturates at `u64::MAX`.
+    ///
     /// # Rule
     ///
     /// ```text
@@ -51,7 +53,9 @@ impl ByteCount {
     /// ```
     pub fn add_for_decoding(self, other: Self) -> Self {
         match (self, other) {
-            (ByteCount::Finite(a), ByteCount::Finite(b)) => ByteCount::Finite(a + b),
+            (ByteCount::Finite(a), ByteCount::Finite(b)) => {
+                ByteCount::Finite(a.saturating_add(b))
+            }
             (ByteCount::Infinite, _) => ByteCount::Infinite,
             (_, ByteCount::Infinite) => ByteCount::Infinite,
             (ByteCount::Unknown, ByteCount::Unknown) => ByteCount::Unknown,
@@ -64,6 +68,8 @@ impl ByteCount {
 
     /// Adds two `ByteCount` instances for encoding (i.e., `Encode::requiring_bytes` method).
     ///
+    /// If the sum of finite values overflows, it saturates at `u64::MAX`.
+    ///
     /// # Rule
     ///
     /// ```text
@@ -75,7 +81,9 @@ impl ByteCount {
     /// ```
     pub fn add_for_encoding(self, other: Self) -> Self {
         match (self, other) {
-            (ByteCount::Finite(a), ByteCount::Finite(b)) => ByteCount::Finite(a + b),
+            (ByteCount::Finite(a), ByteCount::Finite(b)) => {
+                ByteCount::Finite(a.saturating_add(b))
+            }
             (ByteCount::Infinite, _) => ByteCount::Infinite,
             (_, ByteCount::Infinite) => ByteCount::Infinite,
             (_, ByteCount::Unknown) => ByteCount::Unknown,
diff --git a/src/combinator.rs b/src/combinator.rs
index b8336a1..bea650d 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -1050,7 +1050,7 @@ impl<D: Decode> Decode for MaxBytes<D> {
             }
             ByteCount::Finite(remaining_bytes) => {
                 let consumable_bytes = self.max_bytes - self.consumed_bytes;
-                track_assert!((buf.len() as u64) + remaining_bytes <= consumable_bytes,
+                track_assert!(remaining_bytes.saturating_add(buf.len() as u64) <= consumable_bytes,
                               ErrorKind::InvalidInput, "Max bytes limit exceeded";
                               buf.len(), remaining_bytes, self.consumed_bytes, self.max_bytes)
             }
diff --git a/src/eos.rs b/src/eos.rs
index 06801ab..402920d 100644
--- a/src/eos.rs
+++ b/src/eos.rs
@@ -47,7 +47,7 @@ impl Eos {
     /// ```
     pub fn back(&self, bytes: u64) -> Self {
         if let ByteCount::Finite(n) = self.0 {
-            Eos(ByteCount::Finite(n + bytes))
+            Eos(ByteCount::Finite(n.saturating_add(bytes)))
         } else {
             *self
         }
-- 
2.43.0


From 81fd3d0f0b75fccecf8ebfc8765d2731eb22b0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:45 +0000
Subject: [PATCH 15/17] fix: poll_flush must wake the task waiting for free
 space of the write buffer

---
 src/io_async.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/io_async.rs b/src/io_async.rs
index 2e766fd..5d87bce 100644
--- a/src/io_async.rs
+++ b/src/io_async.rs
@@ -77,6 +77,9 @@ impl<B: AsRef<[u8]> + AsMut<[u8]>> WriteBuf<B> {
                     if self.head == self.tail {
                         self.head = 0;
                         self.tail = 0;
+                        if let Some(waker) = self.waker.take() {
+                            waker.wake();
+                        }
                     }
                 }
                 Poll::Pending => {
-- 
2.43.0


From 131d289e2f40b5c8c1d03aa0a1803136d54b20d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:49 +0000
Subject: [PATCH 16/17] fix: Last must continue with its item as soon as the
 inner encoder becomes idle

---
 src/combinator.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index bea650d..ed3af70 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -1308,12 +1308,15 @@ impl<E: Encode> Encode for Last<E> {
     type Item = Never;
 
     fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
-        if self.inner.is_idle() {
+        let mut offset = 0;
+        if self.item.is_some() {
+            bytecodec_try_encode!(self.inner, offset, buf, eos);
             if let Some(item) = self.item.take() {
                 track!(self.inner.start_encoding(item))?;
             }
         }
-        track!(self.inner.encode(buf, eos))
+        offset += track!(self.inner.encode(&mut buf[offset..], eos))?;
+        Ok(offset)
     }
 
     fn start_encoding(&mut self, _item: Self::Item) -> Result<()> {
-- 
2.43.0


From f11ac29eb1c98ca077805c0715d73d588cd2b60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:34 +0000
Subject: [PATCH 17/17] fix: exact size of a tuple must saturate instead of
 overflowing

---
 src/tuple.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tuple.rs b/src/tuple.rs
index e4d94bc..bb03236 100644
--- a/src/tuple.rs
+++ b/src/tuple.rs
@@ -126,7 +126,7 @@ macro_rules! impl_encode {
             $($t: SizedEncode),*
         {
             fn exact_requiring_bytes(&self) -> u64 {
-                0 $(+ self.inner.$i.exact_requiring_bytes())*
+                0u64 $(.saturating_add(self.inner.$i.exact_requiring_bytes()))*
             }
         }
     };
-- 
2.43.0

