From 19dcc972d5fafe7f1b22a2a966be8f38e705f6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:18 +0000
Subject: [PATCH 01/20] fix: MonolithicDecoder must not consume bytes while it
 holds a decoded item

---
 src/monolithic.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/monolithic.rs b/src/monolithic.rs
index cdd14db..066f59b 100644
--- a/src/monolithic.rs
+++ b/src/monolithic.rs
@@ -50,6 +50,10 @@ impl<D: MonolithicDecode> Decode for MonolithicDecoder<D> {
     type Item = D::Item;
 
     fn decode(&mut self, mut buf: &[u8], eos: Eos) -> Result<usize> {
+        if self.is_idle() {
+            return Ok(0);
+        }
+
         if eos.is_reached() {
             let original_len = buf.len();
             let item = track!(
-- 
2.43.0


From d9bc422d0e67744153e0a7eeae87629f5b230f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:18 +0000
Subject: [PATCH 02/20] fix: MonolithicEncoder must fail when the stream ends
 before the item is written

---
 src/monolithic.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/monolithic.rs b/src/monolithic.rs
index 066f59b..5962661 100644
--- a/src/monolithic.rs
+++ b/src/monolithic.rs
@@ -144,6 +144,7 @@ impl<E: MonolithicEncode> Encode for MonolithicEncoder<E> {
             if extra.is_empty() {
                 Ok(original_len - buf.len())
             } else {
+                track_assert!(!eos.is_reached(), ErrorKind::UnexpectedEos; extra.len());
                 track!(self.buf.start_encoding(extra))?;
                 Ok(original_len)
             }
-- 
2.43.0


From fcab5485f136dbcb6a312de407440cf610d3a6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:18 +0000
Subject: [PATCH 03/20] fix: Collect must tell a partially decoded item that
 the stream has ended

---
 src/combinator.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index 3f0bcbf..ab94e6c 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -586,6 +586,7 @@ impl<E: SizedEncode> SizedEncode for Optional<E> {
 pub struct Collect<D, T> {
     inner: D,
     items: T,
+    started: bool,
     eos: bool,
 }
 impl<D, T: Default> Collect<D, T> {
@@ -608,6 +609,7 @@ impl<D, T: Default> Collect<D, T> {
         Collect {
             inner,
             items: T::default(),
+            started: false,
             eos: false,
         }
     }
@@ -625,11 +627,13 @@ where
         }
 
         let mut offset = 0;
-        while offset < buf.len() {
+        while offset < buf.len() || (self.started && eos.is_reached()) {
+            self.started = true;
             bytecodec_try_decode!(self.inner, offset, buf, eos);
 
             let item = track!(self.inner.finish_decoding())?;
             self.items.extend(iter::once(item));
+            self.started = false;
         }
         if eos.is_reached() {
             self.eos = true;
-- 
2.43.0


From 92e6a3fcd5c4f6a863e43a031e20c075b1cb9f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:18 +0000
Subject: [PATCH 04/20] fix: CollectN must tell a partially decoded item that
 the stream has ended

---
 src/combinator.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index ab94e6c..ee09d2d 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -811,6 +811,7 @@ pub struct CollectN<D, T> {
     inner: D,
     remaining_items: usize,
     items: T,
+    started: bool,
 }
 impl<D, T: Default> CollectN<D, T> {
     /// Returns the number of remaining items expected to be decoded.
@@ -843,6 +844,7 @@ impl<D, T: Default> CollectN<D, T> {
             inner,
             remaining_items: count,
             items: T::default(),
+            started: false,
         }
     }
 }
@@ -855,12 +857,16 @@ where
 
     fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
         let mut offset = 0;
-        while self.remaining_items != 0 && offset < buf.len() {
+        while self.remaining_items != 0
+            && (offset < buf.len() || (self.started && eos.is_reached()))
+        {
+            self.started = true;
             bytecodec_try_decode!(self.inner, offset, buf, eos);
 
             let item = track!(self.inner.finish_decoding())?;
             self.items.extend(iter::once(item));
             self.remaining_items -= 1;
+            self.started = false;
         }
         if self.remaining_items != 0 {
             track_assert!(!eos.is_reached(), ErrorKind::UnexpectedEos);
-- 
2.43.0


From 0b65b2ada16dca0784dcf6897c0adb35d853e3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:18 +0000
Subject: [PATCH 05/20] fix: Length decoder counted the bytes of the buffer
 twice when looking for a truncated stream

---
 src/combinator.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index ee09d2d..c16745e 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -728,8 +728,7 @@ impl<D: Decode> Decode for Length<D> {
         let limit = cmp::min(buf.len() as u64, self.remaining_bytes) as usize;
         let required = self.remaining_bytes - limit as u64;
         let expected_eos = Eos::with_remaining_bytes(ByteCount::Finite(required));
-        if let Some(mut remaining) = eos.remaining_bytes().to_u64() {
-            remaining += buf.len() as u64;
+        if let Some(remaining) = eos.remaining_bytes().to_u64() {
             track_assert!(remaining >= required, ErrorKind::UnexpectedEos; remaining, required);
         }
 
-- 
2.43.0


From 22719f507ff0fabecfdacf88ea195c2dac20576c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:18 +0000
Subject: [PATCH 06/20] fix: Length encoder must be idle exactly when it holds
 no item and be reusable

---
 src/combinator.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index c16745e..3fa5112 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -756,6 +756,10 @@ impl<E: Encode> Encode for Length<E> {
     type Item = E::Item;
 
     fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
+        if self.is_idle() {
+            return Ok(0);
+        }
+
         if (buf.len() as u64) < self.remaining_bytes {
             track_assert!(!eos.is_reached(), ErrorKind::UnexpectedEos);
         }
@@ -774,31 +778,32 @@ impl<E: Encode> Encode for Length<E> {
                 ErrorKind::InvalidInput,
                 "Too small item"
             );
+            self.remaining_bytes = self.expected_bytes;
         }
         Ok(size)
     }
 
     fn start_encoding(&mut self, item: Self::Item) -> Result<()> {
-        track_assert_eq!(
-            self.remaining_bytes,
-            self.expected_bytes,
-            ErrorKind::EncoderFull
-        );
+        track_assert!(self.is_idle(), ErrorKind::EncoderFull);
         self.remaining_bytes = self.expected_bytes;
         track!(self.inner.start_encoding(item))
     }
 
     fn requiring_bytes(&self) -> ByteCount {
-        ByteCount::Finite(self.remaining_bytes)
+        ByteCount::Finite(self.exact_requiring_bytes())
     }
 
     fn is_idle(&self) -> bool {
-        self.remaining_bytes == 0
+        self.inner.is_idle()
     }
 }
 impl<E: Encode> SizedEncode for Length<E> {
     fn exact_requiring_bytes(&self) -> u64 {
-        self.remaining_bytes
+        if self.is_idle() {
+            0
+        } else {
+            self.remaining_bytes
+        }
     }
 }
 
-- 
2.43.0


From 61f404469eedf38a79afe74f83932318f109b43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:18 +0000
Subject: [PATCH 07/20] fix: Repeat must not stop at an item that encodes to
 zero bytes

---
 src/combinator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index 3fa5112..e00d856 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -424,7 +424,7 @@ where
 
             let size = track!(self.inner.encode(&mut buf[offset..], eos))?;
             offset += size;
-            if size == 0 {
+            if size == 0 && !self.inner.is_idle() {
                 return Ok(offset);
             }
         }
-- 
2.43.0


From 787b7b1b6044c445594e3df87b7c15918b7e4da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:18 +0000
Subject: [PATCH 08/20] fix: Last must go on with its item in the call that
 completes the preceding one

---
 src/combinator.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index e00d856..9fb6e6a 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -1287,12 +1287,15 @@ impl<E: Encode> Encode for Last<E> {
     type Item = Never;
 
     fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
-        if self.inner.is_idle() {
+        let mut offset = 0;
+        if self.item.is_some() {
+            bytecodec_try_encode!(self.inner, offset, buf, eos);
             if let Some(item) = self.item.take() {
                 track!(self.inner.start_encoding(item))?;
             }
         }
-        track!(self.inner.encode(buf, eos))
+        bytecodec_try_encode!(self.inner, offset, buf, eos);
+        Ok(offset)
     }
 
     fn start_encoding(&mut self, _item: Self::Item) -> Result<()> {
-- 
2.43.0


From d57af89069cd67a7cafb1e2cbe9cd04f2a4794c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:18 +0000
Subject: [PATCH 09/20] fix: adding ByteCounts must not overflow

---
 src/byte_count.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/byte_count.rs b/src/byte_count.rs
index 23d0040..bb5da7e 100644
--- a/src/byte_count.rs
+++ b/src/byte_count.rs
@@ -51,7 +51,7 @@ impl ByteCount {
     /// ```
     pub fn add_for_decoding(self, other: Self) -> Self {
         match (self, other) {
-            (ByteCount::Finite(a), ByteCount::Finite(b)) => ByteCount::Finite(a + b),
+            (ByteCount::Finite(a), ByteCount::Finite(b)) => ByteCount::Finite(a.saturating_add(b)),
             (ByteCount::Infinite, _) => ByteCount::Infinite,
             (_, ByteCount::Infinite) => ByteCount::Infinite,
             (ByteCount::Unknown, ByteCount::Unknown) => ByteCount::Unknown,
@@ -75,7 +75,7 @@ impl ByteCount {
     /// ```
     pub fn add_for_encoding(self, other: Self) -> Self {
         match (self, other) {
-            (ByteCount::Finite(a), ByteCount::Finite(b)) => ByteCount::Finite(a + b),
+            (ByteCount::Finite(a), ByteCount::Finite(b)) => ByteCount::Finite(a.saturating_add(b)),
             (ByteCount::Infinite, _) => ByteCount::Infinite,
             (_, ByteCount::Infinite) => ByteCount::Infinite,
             (_, ByteCount::Unknown) => ByteCount::Unknown,
-- 
2.43.0


From 5bbac3f122efd674f5c27ec610e6fea2545c548b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:18 +0000
Subject: [PATCH 10/20] fix: Eos::back must not overflow

---
 src/eos.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eos.rs b/src/eos.rs
index 06801ab..402920d 100644
--- a/src/eos.rs
+++ b/src/eos.rs
@@ -47,7 +47,7 @@ impl Eos {
     /// ```
     pub fn back(&self, bytes: u64) -> Self {
         if let ByteCount::Finite(n) = self.0 {
-            Eos(ByteCount::Finite(n + bytes))
+            Eos(ByteCount::Finite(n.saturating_add(bytes)))
         } else {
             *self
         }
-- 
2.43.0


From 5c86301da8a329296db950d84b504a7a4b7acbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:18 +0000
Subject: [PATCH 11/20] fix: MaxBytes decoder must not overflow on a huge
 remaining stream

---
 src/combinator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index 9fb6e6a..f9b309a 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -1034,7 +1034,7 @@ impl<D: Decode> Decode for MaxBytes<D> {
             }
             ByteCount::Finite(remaining_bytes) => {
                 let consumable_bytes = self.max_bytes - self.consumed_bytes;
-                track_assert!((buf.len() as u64) + remaining_bytes <= consumable_bytes,
+                track_assert!((buf.len() as u64).saturating_add(remaining_bytes) <= consumable_bytes,
                               ErrorKind::InvalidInput, "Max bytes limit exceeded";
                               buf.len(), remaining_bytes, self.consumed_bytes, self.max_bytes)
             }
-- 
2.43.0


From b6da1e7067e34d259f7b9ffe406204f6428aab89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:18 +0000
Subject: [PATCH 12/20] fix: the exact size of a tuple must not overflow

---
 src/tuple.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tuple.rs b/src/tuple.rs
index 294165b..2d38283 100644
--- a/src/tuple.rs
+++ b/src/tuple.rs
@@ -125,7 +125,7 @@ macro_rules! impl_encode {
             $($t: SizedEncode),*
         {
             fn exact_requiring_bytes(&self) -> u64 {
-                0 $(+ self.inner.$i.exact_requiring_bytes())*
+                0u64 $(.saturating_add(self.inner.$i.exact_requiring_bytes()))*
             }
         }
     };
-- 
2.43.0


From ebd03a9b8b75b18cec26612eda811ec74b55e317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:28 +0000
Subject: [PATCH 13/20] fix: a busy TupleEncoder must refuse an item without
 starting any of its components

---
 src/tuple.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tuple.rs b/src/tuple.rs
index 2d38283..ea3dfea 100644
--- a/src/tuple.rs
+++ b/src/tuple.rs
@@ -1,5 +1,5 @@
 //! Encoders and decoders for tuples.
-use crate::{ByteCount, Decode, Encode, Eos, Result, SizedEncode};
+use crate::{ByteCount, Decode, Encode, Eos, ErrorKind, Result, SizedEncode};
 
 /// Decoder for tuples.
 #[derive(Debug, Default)]
@@ -108,6 +108,7 @@ macro_rules! impl_encode {
             }
 
             fn start_encoding(&mut self, t: Self::Item) -> Result<()> {
+                track_assert!(self.is_idle(), ErrorKind::EncoderFull);
                 $(track!(self.inner.$i.start_encoding(t.$i), "i={}", $i)?;)*
                 Ok(())
             }
-- 
2.43.0


From daacc1a4a455d8b0cbc7094267ed81d33dd4babc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:28 +0000
Subject: [PATCH 14/20] fix: RemainingBytesDecoder must survive a huge
 announced stream length

---
 src/bytes.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bytes.rs b/src/bytes.rs
index 09c334b..5638856 100644
--- a/src/bytes.rs
+++ b/src/bytes.rs
@@ -306,7 +306,8 @@ impl Decode for RemainingBytesDecoder {
         }
 
         if let Some(remaining) = eos.remaining_bytes().to_u64() {
-            self.buf.reserve_exact(buf.len() + remaining as usize);
+            let hint = (buf.len() as u64).saturating_add(remaining);
+            let _ = self.buf.try_reserve_exact(hint as usize);
         }
         self.buf.extend_from_slice(buf);
         self.eos = eos.is_reached();
-- 
2.43.0


From 09d621ff49d6a53a8e1b15f27fc2bf338367900e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:01 +0000
Subject: [PATCH 15/20] fix: wake the memorised waker when poll_flush frees the
 write buffer

---
 src/io_async.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/io_async.rs b/src/io_async.rs
index 2e766fd..3b1352c 100644
--- a/src/io_async.rs
+++ b/src/io_async.rs
@@ -77,6 +77,10 @@ impl<B: AsRef<[u8]> + AsMut<[u8]>> WriteBuf<B> {
                     if self.head == self.tail {
                         self.head = 0;
                         self.tail = 0;
+                        // The buffer has regained its free space.
+                        if let Some(ref waker) = self.waker {
+                            waker.wake_by_ref();
+                        }
                     }
                 }
                 Poll::Pending => {
-- 
2.43.0


From df9ef6cef66383614bc5e82eaa53b2293b5d402c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:36 +0000
Subject: [PATCH 16/20] fix: AndThen dropped its second decoder when asked for
 an incomplete item

---
 src/combinator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/combinator.rs b/src/combinator.rs
index f9b309a..3c51964 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -221,6 +221,7 @@ where
     }
 
     fn finish_decoding(&mut self) -> Result<Self::Item> {
+        track_assert!(self.is_idle(), ErrorKind::IncompleteDecoding);
         let mut d = track_assert_some!(self.inner1.take(), ErrorKind::IncompleteDecoding);
         track!(d.finish_decoding())
     }
-- 
2.43.0


From 843a2e726fe899c3804cbba5c2f7de3874c4ba21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:36 +0000
Subject: [PATCH 17/20] fix: Length granted its length again when asked for an
 incomplete item

---
 src/combinator.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index 3c51964..065b00f 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -740,7 +740,9 @@ impl<D: Decode> Decode for Length<D> {
 
     fn finish_decoding(&mut self) -> Result<Self::Item> {
         track_assert_eq!(self.remaining_bytes, 0, ErrorKind::IncompleteDecoding);
-        self.remaining_bytes = self.expected_bytes;
+        if self.inner.is_idle() {
+            self.remaining_bytes = self.expected_bytes;
+        }
 
         track!(self.inner.finish_decoding())
     }
-- 
2.43.0


From 529f1a0a9ffe361345b3f351c50141d0543db017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:36 +0000
Subject: [PATCH 18/20] fix: MaxBytes forgot its count when asked for an
 incomplete item

---
 src/combinator.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index 065b00f..47d0ba0 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -1049,7 +1049,9 @@ impl<D: Decode> Decode for MaxBytes<D> {
     }
 
     fn finish_decoding(&mut self) -> Result<Self::Item> {
-        self.consumed_bytes = 0;
+        if self.inner.is_idle() {
+            self.consumed_bytes = 0;
+        }
         track!(self.inner.finish_decoding())
     }
 
-- 
2.43.0


From fa438ed17da083090f8a5b8b00ba6bea830cb926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:36 +0000
Subject: [PATCH 19/20] fix: MaybeEos forgot that an item had begun when asked
 for it too early

---
 src/combinator.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index 47d0ba0..e338c17 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -1460,7 +1460,9 @@ impl<D: Decode> Decode for MaybeEos<D> {
     }
 
     fn finish_decoding(&mut self) -> Result<Self::Item> {
-        self.started = false;
+        if self.inner.is_idle() {
+            self.started = false;
+        }
         track!(self.inner.finish_decoding())
     }
 
-- 
2.43.0


From 2323a62ed9d3acb4166b38a9a0fca2c89a68c6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:36 +0000
Subject: [PATCH 20/20] fix: tuple decoders dropped the items of their first
 parts when asked for an incomplete item

---
 src/tuple.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tuple.rs b/src/tuple.rs
index ea3dfea..399b4bb 100644
--- a/src/tuple.rs
+++ b/src/tuple.rs
@@ -43,6 +43,7 @@ macro_rules! impl_decode {
             }
 
             fn finish_decoding(&mut self) -> Result<Self::Item> {
+                track_assert!(self.is_idle(), ErrorKind::IncompleteDecoding);
                 Ok((
                     $(track!(self.inner.$i.finish_decoding(), "i={}", $i)?),*,
                 ))
-- 
2.43.0

