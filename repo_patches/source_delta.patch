From d355e79a9fe231b74e3381999be55b4bcd8a4e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:38 +0000
Subject: [PATCH 01/39] fix: sysex8 stream id is written to the octet it is
 read from

---
 midi2/src/sysex8.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midi2/src/sysex8.rs b/midi2/src/sysex8.rs
index 0328a6a..93424ab 100644
--- a/midi2/src/sysex8.rs
+++ b/midi2/src/sysex8.rs
@@ -177,7 +177,7 @@ impl<B: crate::buffer::Ump + crate::buffer::BufferMut> crate::detail::property::
             .chunks_exact_mut(4)
             .take_while(|packet| u8::from(packet[0].nibble(0)) == UMP_MESSAGE_TYPE)
         {
-            packet[0].set_octet(3, id);
+            packet[0].set_octet(2, id);
         }
     }
     fn validate(_v: &Self::Type) -> Result<(), crate::error::InvalidData> {
-- 
2.43.0


From a40a1c86cf706863ca021ebc26a2930d52763a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:38 +0000
Subject: [PATCH 02/39] fix: sysex8 packets added by a resize carry the stream
 id of the message

---
 midi2/src/sysex8.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/midi2/src/sysex8.rs b/midi2/src/sysex8.rs
index 93424ab..66e8083 100644
--- a/midi2/src/sysex8.rs
+++ b/midi2/src/sysex8.rs
@@ -517,6 +517,7 @@ fn try_resize<
         .take(buffer_size / 4)
         .peekable();
     let mut group = None;
+    let mut stream_id = None;
 
     const MESSAGE_TYPE: u4 = u4::new(UMP_MESSAGE_TYPE);
     const STATUS_COMPLETE: u4 = u4::new(0x0);
@@ -528,6 +529,7 @@ fn try_resize<
     if let Some(first_packet) = iter.next() {
         first_packet[0].set_nibble(0, MESSAGE_TYPE);
         group = Some(first_packet[0].nibble(1));
+        stream_id = Some(stream_id_from_packet(first_packet));
         if iter.peek().is_some() {
             // start packet
             first_packet[0].set_nibble(2, STATUS_START);
@@ -542,6 +544,7 @@ fn try_resize<
     while let Some(chunk) = iter.next() {
         chunk[0].set_nibble(0, MESSAGE_TYPE);
         chunk[0].set_nibble(1, group.unwrap());
+        chunk[0].set_octet(2, stream_id.unwrap());
         if iter.peek().is_some() {
             // middle packet
             chunk[0].set_nibble(2, STATUS_CONTINUE);
-- 
2.43.0


From 2b8ba76e175d086bedf9628f7c7355eaf9ed495e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:38 +0000
Subject: [PATCH 03/39] fix: sysex7 looks at every packet to tell whether the
 payload is compact

---
 midi2/src/sysex7.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index e754d17..27638c0 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -668,7 +668,7 @@ fn is_compact<B: crate::buffer::Buffer>(sysex: &Sysex7<B>) -> bool {
                 .0
                 .buffer()
                 .specialise_u32()
-                .chunks_exact(4)
+                .chunks_exact(2)
                 .take_while(|packet| u8::from(packet[0].nibble(0)) == UMP_MESSAGE_TYPE)
             {
                 let status: u8 = chunk[0].nibble(2).into();
-- 
2.43.0


From e45680a1e59188222834c292ff8cdd36dab35389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:34 +0000
Subject: [PATCH 04/39] fix: resizing a sysex payload to a single packet zeroes
 its unused bytes

---
 midi2/src/sysex7.rs |  4 ++++
 midi2/src/sysex8.rs | 19 +++++++++++++++++--
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index 27638c0..33815f3 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -778,6 +778,10 @@ fn try_resize_ump<
             // complete packet
             first_packet[0].set_nibble(2, STATUS_COMPLETE);
             first_packet[0].set_nibble(3, u4::new(payload_size as u8));
+            // zero off the end of the packet
+            for i in payload_size..6 {
+                first_packet[(i + 2) / 4].set_octet((i + 2) % 4, 0x0);
+            }
         }
     }
 
diff --git a/midi2/src/sysex8.rs b/midi2/src/sysex8.rs
index 66e8083..fd0d411 100644
--- a/midi2/src/sysex8.rs
+++ b/midi2/src/sysex8.rs
@@ -424,7 +424,8 @@ impl<B: crate::buffer::Ump> SysexInternal<B> for Sysex8<B> {
             s.0.resize(sz);
             Ok(())
         })
-        .unwrap()
+        .unwrap();
+        zero_unused_bytes(self, payload_size);
     }
 
     fn try_resize(
@@ -434,7 +435,9 @@ impl<B: crate::buffer::Ump> SysexInternal<B> for Sysex8<B> {
     where
         B: crate::buffer::BufferMut + crate::buffer::BufferTryResize,
     {
-        try_resize(self, payload_size, |s, sz| s.0.try_resize(sz))
+        try_resize(self, payload_size, |s, sz| s.0.try_resize(sz))?;
+        zero_unused_bytes(self, payload_size);
+        Ok(())
     }
 
     fn write_datum(&mut self, datum: Self::Byte, payload_index: usize)
@@ -570,6 +573,18 @@ fn try_resize<
     resize_result.map_err(|_| crate::traits::SysexTryResizeError(payload_size))
 }
 
+// zero off the bytes of the last packet which follow the payload
+fn zero_unused_bytes<B: crate::buffer::Ump + crate::buffer::BufferMut>(
+    sysex: &mut Sysex8<B>,
+    payload_size: usize,
+) {
+    let last_packet = buffer_size_from_payload_size(payload_size) / 4 - 1;
+    let packet = &mut sysex.0.buffer_mut()[last_packet * 4..last_packet * 4 + 4];
+    for i in payload_size - last_packet * 13..13 {
+        packet[(i + 3) / 4].set_octet((i + 3) % 4, 0x0);
+    }
+}
+
 fn buffer_size_from_payload_size(payload_size: usize) -> usize {
     if payload_size.is_multiple_of(13) {
         if payload_size == 0 {
-- 
2.43.0


From e1dcd5edd07f5ebda1a6fd24e34e3b49af47e80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:34 +0000
Subject: [PATCH 05/39] fix: growing a sysex7 bytes message leaves no stale end
 byte inside of it

---
 midi2/src/sysex7.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index 33815f3..08ed8da 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -534,8 +534,8 @@ impl<B: crate::buffer::Buffer> SysexInternal<B> for Sysex7<B> {
                 let old_payload_size = self.payload_size();
                 self.0.resize(buffer_sz);
                 if payload_size > old_payload_size {
-                    // erase old end bit
-                    self.0.specialise_u8_mut()[old_payload_size + 1] = 0;
+                    // erase old end bit and whatever follows it
+                    self.0.specialise_u8_mut()[old_payload_size + 1..buffer_sz - 1].fill(0);
                 }
                 self.0.specialise_u8_mut()[buffer_sz - 1] = END_BYTE;
             }
@@ -563,9 +563,9 @@ impl<B: crate::buffer::Buffer> SysexInternal<B> for Sysex7<B> {
                     buffer_sz = self.0.buffer().len();
                     crate::traits::SysexTryResizeError(buffer_sz.saturating_sub(2))
                 });
-                if buffer_sz > old_payload_size {
-                    // erase old end bit
-                    self.0.specialise_u8_mut()[old_payload_size + 1] = 0;
+                if buffer_sz > old_payload_size + 2 {
+                    // erase old end bit and whatever follows it
+                    self.0.specialise_u8_mut()[old_payload_size + 1..buffer_sz - 1].fill(0);
                 }
                 self.0.specialise_u8_mut()[buffer_sz - 1] = END_BYTE;
                 result
-- 
2.43.0


From f353678daa1cbb1c4ee6f50790e7442c15e5539a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:34 +0000
Subject: [PATCH 06/39] fix: splicing a sysex payload keeps the tail in place
 when a later resize fails

---
 midi2/src/detail/helpers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midi2/src/detail/helpers.rs b/midi2/src/detail/helpers.rs
index 148bfb1..8486f2c 100644
--- a/midi2/src/detail/helpers.rs
+++ b/midi2/src/detail/helpers.rs
@@ -229,7 +229,7 @@ mod detail {
                     ) {
                         // failed. we'll work with what we've got
                         running_data_size_estimate = sz.saturating_sub(initial_size - splice_size);
-                        to = splice_begin + running_data_size_estimate - splice_size;
+                        to = splice_begin + running_data_size_estimate;
                     };
                 }
 
-- 
2.43.0


From 4e8f7d0deaccff8de6376a52ebf4cd66aa8ce36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:22 +0000
Subject: [PATCH 07/39] fix: sysex payload edits outside of the payload panic
 as documented

---
 midi2/src/detail/helpers.rs | 4 ++++
 midi2/src/sysex7.rs         | 1 +
 midi2/src/sysex8.rs         | 1 +
 3 files changed, 6 insertions(+)

diff --git a/midi2/src/detail/helpers.rs b/midi2/src/detail/helpers.rs
index 8486f2c..f77031d 100644
--- a/midi2/src/detail/helpers.rs
+++ b/midi2/src/detail/helpers.rs
@@ -168,6 +168,10 @@ mod detail {
             core::ops::Bound::Excluded(&v) => v,
             core::ops::Bound::Unbounded => initial_size,
         };
+        assert!(
+            splice_begin <= splice_end && splice_end <= initial_size,
+            "Payload range out of bounds"
+        );
         let splice_size = splice_end - splice_begin;
 
         let mut running_data_size_estimate = match data.size_hint() {
diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index 08ed8da..34ada9b 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -471,6 +471,7 @@ impl<B: crate::buffer::Buffer> Sysex<B> for Sysex7<B> {
     where
         B: crate::buffer::BufferMut,
     {
+        assert!(index < self.payload_size(), "Payload index out of bounds");
         match <B::Unit as crate::buffer::UnitPrivate>::UNIT_ID {
             crate::buffer::UNIT_ID_U8 => {
                 let buffer = self.buffer_access_mut().specialise_u8_mut();
diff --git a/midi2/src/sysex8.rs b/midi2/src/sysex8.rs
index fd0d411..a2f4498 100644
--- a/midi2/src/sysex8.rs
+++ b/midi2/src/sysex8.rs
@@ -377,6 +377,7 @@ impl<B: crate::buffer::Ump> Sysex<B> for Sysex8<B> {
     {
         // can't assume a compact payload here:
         // linear complexity
+        assert!(index < self.payload_size(), "Payload index out of bounds");
 
         let buffer = self.buffer_access_mut().buffer_mut();
         let mut packet_index = 0;
-- 
2.43.0


From fc21015e0a32b069477fbfed8691a69eb34608b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:28 +0000
Subject: [PATCH 08/39] fix: sysex payload iterators skip within the message
 and report their length

---
 midi2/src/sysex7.rs | 68 +++++++++++++++------------------------------
 midi2/src/sysex8.rs | 63 +++++++++++++----------------------------
 2 files changed, 43 insertions(+), 88 deletions(-)

diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index 34ada9b..459a91b 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -895,56 +895,33 @@ impl<U: crate::buffer::Unit> core::iter::Iterator for PayloadIterator<'_, U> {
     fn nth(&mut self, mut n: usize) -> Option<Self::Item> {
         match U::UNIT_ID {
             crate::buffer::UNIT_ID_U8 => {
-                self.payload_index += n;
+                self.payload_index = self.payload_index.saturating_add(n).min(self.data.len());
                 self.next()
             }
             crate::buffer::UNIT_ID_U32 => {
-                let mut do_nth = || {
-                    let mut packets = self.data_ump()[self.packet_index * 2..]
-                        .chunks_exact(2)
-                        .enumerate();
-
-                    {
-                        // first we check to see whether the requested byte lies
-                        // within the first packet where we are potentially already offset
-                        let remaining = Self::packet_size(packets.next()?.1) - self.payload_index;
-                        if n < remaining {
-                            self.payload_index += n;
-                            self.size_cache -= n;
-                            return self.next();
-                        } else {
-                            n -= remaining;
-                            self.size_cache -= remaining;
-                        }
-                    }
-
-                    // we then cycle through all the packets until we travelled as far as the
-                    // requested location
-                    loop {
-                        let (packet_index, packet) = packets.next()?;
-                        let size = Self::packet_size(packet);
-                        if n < size {
-                            // we found the requested packet
-                            self.packet_index += packet_index;
-                            self.payload_index = n;
-                            self.size_cache -= n;
-                            break;
-                        }
-                        n -= size;
-                        self.size_cache -= size;
-                    }
-
-                    self.next()
-                };
-
-                let ret = do_nth();
-                if ret.is_none() {
-                    // if we failed it means we ran out of data
+                if n >= self.size_cache {
+                    // we ran out of data
                     // so we set the iterator into finished state
-                    self.packet_index = self.data.len() / 2;
                     self.size_cache = 0;
+                    return None;
                 }
-                ret
+
+                // we cycle through the packets until we travelled as far as the
+                // requested location
+                loop {
+                    let remaining = self.current_packet_size_ump() - self.payload_index;
+                    if n < remaining {
+                        self.payload_index += n;
+                        self.size_cache -= n;
+                        break;
+                    }
+                    n -= remaining;
+                    self.size_cache -= remaining;
+                    self.packet_index += 1;
+                    self.payload_index = 0;
+                }
+
+                self.next()
             }
             _ => unreachable!(),
         }
@@ -958,7 +935,8 @@ impl<U: crate::buffer::Unit> core::iter::Iterator for PayloadIterator<'_, U> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        (self.size_cache, Some(self.size_cache))
+        let len = self.len();
+        (len, Some(len))
     }
 }
 
diff --git a/midi2/src/sysex8.rs b/midi2/src/sysex8.rs
index a2f4498..934b5ba 100644
--- a/midi2/src/sysex8.rs
+++ b/midi2/src/sysex8.rs
@@ -234,52 +234,29 @@ impl core::iter::Iterator for PayloadIterator<'_> {
     ///
     /// O(n)
     fn nth(&mut self, mut n: usize) -> Option<Self::Item> {
-        let mut do_nth = || {
-            let mut packets = self.data[self.packet_index * 4..]
-                .chunks_exact(4)
-                .enumerate();
-
-            {
-                // first we check to see whether the requested byte lies
-                // within the first packet where we are potentially already offset
-                let remaining = Self::packet_size(packets.next()?.1) - self.payload_index;
-                if n < remaining {
-                    self.payload_index += n;
-                    self.size_cache -= n;
-                    return self.next();
-                } else {
-                    n -= remaining;
-                    self.size_cache -= remaining;
-                }
-            }
-
-            // we then cycle through all the packets until we travelled as far as the
-            // requested location
-            loop {
-                let (packet_index, packet) = packets.next()?;
-                let size = Self::packet_size(packet);
-                if n < size {
-                    // we found the requested packet
-                    self.packet_index += packet_index;
-                    self.payload_index = n;
-                    self.size_cache -= n;
-                    break;
-                }
-                n -= size;
-                self.size_cache -= size;
-            }
-
-            self.next()
-        };
-
-        let ret = do_nth();
-        if ret.is_none() {
-            // if we failed it means we ran out of data
+        if n >= self.size_cache {
+            // we ran out of data
             // so we set the iterator into finished state
-            self.packet_index = self.data.len() / 2;
             self.size_cache = 0;
+            return None;
         }
-        ret
+
+        // we cycle through the packets until we travelled as far as the
+        // requested location
+        loop {
+            let remaining = self.size_of_current_packet() - self.payload_index;
+            if n < remaining {
+                self.payload_index += n;
+                self.size_cache -= n;
+                break;
+            }
+            n -= remaining;
+            self.size_cache -= remaining;
+            self.packet_index += 1;
+            self.payload_index = 0;
+        }
+
+        self.next()
     }
 
     fn count(self) -> usize
-- 
2.43.0


From a229caf2e082712597895c42d5abde3bd9933e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:28 +0000
Subject: [PATCH 09/39] fix: skipping through the payload of a sysex packet
 counts the returned byte

---
 midi2/src/sysex7/packet.rs | 4 ++--
 midi2/src/sysex8/packet.rs | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/midi2/src/sysex7/packet.rs b/midi2/src/sysex7/packet.rs
index 9797cd6..9bf11e4 100644
--- a/midi2/src/sysex7/packet.rs
+++ b/midi2/src/sysex7/packet.rs
@@ -94,8 +94,8 @@ impl core::iter::Iterator for PayloadIterator<'_> {
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
         use crate::detail::BitOps;
-        if self.index + n >= self.packet_size() {
-            self.index = (self.index + n).min(6);
+        if n >= self.len() {
+            self.index = self.packet_size();
             return None;
         }
         let v = self.data[(self.index + n + 2) / 4].septet((self.index + n + 2) % 4);
diff --git a/midi2/src/sysex8/packet.rs b/midi2/src/sysex8/packet.rs
index 21a807e..98f2afc 100644
--- a/midi2/src/sysex8/packet.rs
+++ b/midi2/src/sysex8/packet.rs
@@ -122,12 +122,12 @@ impl core::iter::Iterator for PayloadIterator<'_> {
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
         use crate::detail::BitOps;
-        if self.index + n >= self.packet_size() {
-            self.index += n;
+        if n >= self.len() {
+            self.index = self.packet_size();
             return None;
         }
         let v = self.data[(self.index + n + 3) / 4].octet((self.index + n + 3) % 4);
-        self.index = (self.index + n).min(13);
+        self.index += n + 1;
         Some(v)
     }
 
-- 
2.43.0


From f0a6655612c724ced4bb50ae68cae9681a5e9dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:28 +0000
Subject: [PATCH 10/39] fix: sysex8 packets whose number of bytes is out of
 range are rejected

---
 midi2/src/sysex8/packet.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/midi2/src/sysex8/packet.rs b/midi2/src/sysex8/packet.rs
index 98f2afc..8ce5f1f 100644
--- a/midi2/src/sysex8/packet.rs
+++ b/midi2/src/sysex8/packet.rs
@@ -31,7 +31,14 @@ impl<'a> core::convert::TryFrom<&'a [u32]> for Packet {
             ));
         }
 
-        status_from_data(data)?;
+        match (status_from_data(data)?, u8::from(data[0].nibble(3))) {
+            (Status::UnexpectedEnd(_), _) | (_, 1..=14) => {}
+            _ => {
+                return Err(error::InvalidData(
+                    sysex8::ERR_INVALID_NUMBER_OF_PAYLOAD_BYTES,
+                ));
+            }
+        }
 
         Ok(Packet({
             let mut buffer = [0x0; 4];
@@ -152,9 +159,11 @@ impl core::iter::ExactSizeIterator for PayloadIterator<'_> {
 impl PayloadIterator<'_> {
     fn packet_size(&self) -> usize {
         use crate::detail::BitOps;
-        let len = u8::from(self.data[0].nibble(3)) as usize - 1;
-        debug_assert!(len <= 13);
-        len
+        match u8::from(self.data[0].nibble(3)) as usize {
+            // an unexpected end carries no payload
+            15 => 0,
+            number_bytes => number_bytes - 1,
+        }
     }
 }
 
-- 
2.43.0


From 764a0d97eab61fbd0b4a6c0c3f17d95b5c069d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:28 +0000
Subject: [PATCH 11/39] fix: sysex7 bytes messages with payload bytes above
 0x7F are rejected

---
 midi2/src/sysex7.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index 459a91b..9f9c6d0 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -36,6 +36,7 @@ struct Sysex7 {
 
 const ERR_NO_BEGIN_BYTE: &str = "Sysex messages should begin 0xF0";
 const ERR_NO_END_BYTE: &str = "Sysex messages should end 0xF7";
+const ERR_INVALID_PAYLOAD_BYTE: &str = "Sysex payload bytes should not exceed 0x7F";
 const ERR_INVALID_PACKET_SIZE: &str = "Size field can not exceed 6";
 
 const START_BYTE: u8 = 0xF0;
@@ -95,12 +96,17 @@ impl<'a, B: crate::buffer::Buffer> crate::detail::property::ReadProperty<'a, B>
     fn read(_buffer: &'a B) -> Self::Type {}
     fn validate(buffer: &B) -> Result<(), crate::error::InvalidData> {
         match <B::Unit as crate::buffer::UnitPrivate>::UNIT_ID {
-            crate::buffer::UNIT_ID_U8 => buffer
-                .specialise_u8()
-                .iter()
-                .position(|b| *b == 0xF7)
-                .map(|_| ())
-                .ok_or(crate::error::InvalidData(ERR_NO_END_BYTE)),
+            crate::buffer::UNIT_ID_U8 => {
+                let buffer = buffer.specialise_u8();
+                let end = buffer
+                    .iter()
+                    .position(|b| *b == END_BYTE)
+                    .ok_or(crate::error::InvalidData(ERR_NO_END_BYTE))?;
+                if buffer[..end].iter().skip(1).any(|b| *b > 0x7F) {
+                    return Err(crate::error::InvalidData(ERR_INVALID_PAYLOAD_BYTE));
+                }
+                Ok(())
+            }
             crate::buffer::UNIT_ID_U32 => Ok(()),
             _ => unreachable!(),
         }
-- 
2.43.0


From e002834c2ca3829ebae04536b33a480476daedf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:18 +0000
Subject: [PATCH 12/39] fix: multi packet messages ending in the middle of a
 packet are rejected

---
 midi2/src/detail/helpers.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/midi2/src/detail/helpers.rs b/midi2/src/detail/helpers.rs
index f77031d..494dd2c 100644
--- a/midi2/src/detail/helpers.rs
+++ b/midi2/src/detail/helpers.rs
@@ -58,6 +58,9 @@ pub fn validate_sysex_group_statuses<
 
     let mut iter = buffer
         .chunks(stride)
+        .enumerate()
+        .take_while(|(index, chunk)| *index == 0 || chunk.len() == stride)
+        .map(|(_, chunk)| chunk)
         .take_while(|chunk| chunk[0].nibble(0) == ump_type)
         .peekable();
 
-- 
2.43.0


From bc884667d0b6c7efa81f59ce22bfd07f77d57019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:00 +0000
Subject: [PATCH 13/39] fix: sysex packet sizes are validated in sysex packets
 only

---
 midi2/src/sysex7.rs |  1 +
 midi2/src/sysex8.rs | 13 +++++++++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index 9f9c6d0..927f8d8 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -179,6 +179,7 @@ impl<'a, B: crate::buffer::Buffer> crate::detail::property::ReadProperty<'a, B>
             if buffer
                 .specialise_u32()
                 .chunks_exact(2)
+                .take_while(|p| u8::from(p[0].nibble(0)) == UMP_MESSAGE_TYPE)
                 .any(|p| u8::from(p[0].nibble(3)) > 6)
             {
                 Err(crate::error::InvalidData(ERR_INVALID_PACKET_SIZE))
diff --git a/midi2/src/sysex8.rs b/midi2/src/sysex8.rs
index 934b5ba..70d7daf 100644
--- a/midi2/src/sysex8.rs
+++ b/midi2/src/sysex8.rs
@@ -66,10 +66,15 @@ impl<B: crate::buffer::Ump> crate::detail::property::Property<B> for ValidPacket
 impl<'a, B: crate::buffer::Ump> crate::detail::property::ReadProperty<'a, B> for ValidPacketSizes {
     fn read(_buffer: &'a B) -> Self::Type {}
     fn validate(buffer: &B) -> Result<(), crate::error::InvalidData> {
-        if buffer.buffer().chunks_exact(4).any(|p| {
-            let number_bytes = u8::from(p[0].nibble(3));
-            !(1..=14).contains(&number_bytes)
-        }) {
+        if buffer
+            .buffer()
+            .chunks_exact(4)
+            .take_while(|p| u8::from(p[0].nibble(0)) == UMP_MESSAGE_TYPE)
+            .any(|p| {
+                let number_bytes = u8::from(p[0].nibble(3));
+                !(1..=14).contains(&number_bytes)
+            })
+        {
             Err(crate::error::InvalidData(
                 ERR_INVALID_NUMBER_OF_PAYLOAD_BYTES,
             ))
-- 
2.43.0


From 219c2e07edc35900569966999cb7d30d077a9094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:10 +0000
Subject: [PATCH 14/39] fix: flex data text covers every byte of the message
 and nothing after it

---
 midi2/src/flex_data/text.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/midi2/src/flex_data/text.rs b/midi2/src/flex_data/text.rs
index d097c26..58429e6 100644
--- a/midi2/src/flex_data/text.rs
+++ b/midi2/src/flex_data/text.rs
@@ -135,7 +135,9 @@ impl core::iter::Iterator for TextBytesIterator<'_> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        ((self.buffer.len() - 1) * 12, Some(self.buffer.len() * 12))
+        // null bytes are skipped, so only the upper bound is known
+        let visited = self.packet_index * 12 + self.byte_index;
+        (0, Some(self.buffer.len() / 4 * 12 - visited))
     }
 }
 
@@ -143,7 +145,7 @@ impl core::iter::FusedIterator for TextBytesIterator<'_> {}
 
 impl TextBytesIterator<'_> {
     fn finished(&self) -> bool {
-        self.packet_index == self.buffer.len() / 4 - 1 && self.byte_index == 11
+        self.packet_index == self.buffer.len() / 4
     }
     fn advance(&mut self) {
         self.byte_index += 1;
@@ -170,7 +172,7 @@ impl<'a, B: Ump> Property<B> for TextReadBytesProperty<'a> {
 impl<'a, B: 'a + Ump> ReadProperty<'a, B> for TextReadBytesProperty<'a> {
     fn read(buffer: &'a B) -> <Self as Property<B>>::Type {
         TextBytesIterator {
-            buffer: buffer.buffer(),
+            buffer: &buffer.buffer()[..flex_data::flex_data_dyn_size(buffer)],
             packet_index: 0,
             byte_index: 0,
         }
-- 
2.43.0


From a6aaf092f19027c944074a4d58113448ae927eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:20 +0000
Subject: [PATCH 15/39] fix: flex data bank and status are only validated in
 flex data packets

---
 midi2/src/flex_data.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/midi2/src/flex_data.rs b/midi2/src/flex_data.rs
index 13ad909..d00c516 100755
--- a/midi2/src/flex_data.rs
+++ b/midi2/src/flex_data.rs
@@ -929,6 +929,7 @@ impl<'a, const STATUS: u8, B: Ump> ReadProperty<'a, B> for StatusProperty<STATUS
         if buffer
             .buffer()
             .chunks_exact(4)
+            .take_while(|packet| u8::from(packet[0].nibble(0)) == UMP_MESSAGE_TYPE)
             .all(|packet| packet[0].octet(3) == STATUS)
         {
             Ok(())
@@ -960,6 +961,7 @@ impl<'a, const BANK: u8, B: Ump> ReadProperty<'a, B> for BankProperty<BANK> {
         if buffer
             .buffer()
             .chunks_exact(4)
+            .take_while(|packet| u8::from(packet[0].nibble(0)) == UMP_MESSAGE_TYPE)
             .all(|packet| packet[0].octet(2) == BANK)
         {
             Ok(())
-- 
2.43.0


From 4999a04b98761041ef60dced9aad347c71e23be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:30 +0000
Subject: [PATCH 16/39] fix: flex data channel is written to every packet of
 the message

---
 midi2/src/flex_data.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/midi2/src/flex_data.rs b/midi2/src/flex_data.rs
index d00c516..b32b15f 100755
--- a/midi2/src/flex_data.rs
+++ b/midi2/src/flex_data.rs
@@ -1025,9 +1025,9 @@ impl<'a, B: Ump> ReadProperty<'a, B> for OptionalChannelProperty {
 
 impl<B: Ump + BufferMut> WriteProperty<B> for OptionalChannelProperty {
     fn write(buffer: &mut B, v: Self::Type) {
-        let buffer_slice = buffer.buffer_mut();
-        let data = buffer_slice;
-        optional_channel_to_slice(data, v);
+        for packet in message_packets_mut(buffer.buffer_mut()) {
+            optional_channel_to_slice(packet, v);
+        }
     }
     fn validate(_v: &Self::Type) -> Result<(), crate::error::InvalidData> {
         Ok(())
@@ -1154,6 +1154,17 @@ impl<B: Ump + BufferMut> WriteProperty<B> for GroupProperty {
     }
 }
 
+// the packets of the message, up to and including the final one
+fn message_packets_mut(buffer: &mut [u32]) -> impl core::iter::Iterator<Item = &mut [u32]> {
+    let mut ended = false;
+    buffer.chunks_exact_mut(4).take_while(move |packet| {
+        let format = u8::from(packet[0].crumb(4));
+        let in_message = !ended;
+        ended = format == COMPLETE_FORMAT || format == END_FORMAT;
+        in_message
+    })
+}
+
 fn flex_data_dyn_size<B: crate::buffer::Ump>(buffer: &B) -> usize {
     buffer
         .buffer()
-- 
2.43.0


From 9ae35d9369586f921bd7eed6d58e226f7e42fdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:40 +0000
Subject: [PATCH 17/39] fix: flex data group is only written to the packets of
 the message

---
 midi2/src/flex_data.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/midi2/src/flex_data.rs b/midi2/src/flex_data.rs
index b32b15f..239647f 100755
--- a/midi2/src/flex_data.rs
+++ b/midi2/src/flex_data.rs
@@ -1138,11 +1138,7 @@ impl<'a, B: Ump> ReadProperty<'a, B> for GroupProperty {
 
 impl<B: Ump + BufferMut> WriteProperty<B> for GroupProperty {
     fn write(buffer: &mut B, group: Self::Type) {
-        for packet in buffer
-            .buffer_mut()
-            .chunks_exact_mut(4)
-            .take_while(|packet| u8::from(packet[0].nibble(0)) == UMP_MESSAGE_TYPE)
-        {
+        for packet in message_packets_mut(buffer.buffer_mut()) {
             packet[0].set_nibble(1, group);
         }
     }
-- 
2.43.0


From b3f304cba9fd452014f971de97a8bc321dad7948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:49 +0000
Subject: [PATCH 18/39] fix: writing flex data text leaves the words after the
 message alone

---
 midi2/src/flex_data/text.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/midi2/src/flex_data/text.rs b/midi2/src/flex_data/text.rs
index 58429e6..8320043 100644
--- a/midi2/src/flex_data/text.rs
+++ b/midi2/src/flex_data/text.rs
@@ -45,7 +45,7 @@ impl<B: Ump + BufferMut> ResizeProperty<B> for TextWriteStrProperty<'_> {
     {
         let buffer_size = ump_buffer_size_for_str(value);
         buffer.resize(buffer_size);
-        flex_data::clear_payload(buffer.buffer_mut());
+        flex_data::clear_payload(&mut buffer.buffer_mut()[..buffer_size]);
         grow_buffer(buffer.buffer_mut(), buffer_size);
     }
 
@@ -55,7 +55,7 @@ impl<B: Ump + BufferMut> ResizeProperty<B> for TextWriteStrProperty<'_> {
     {
         let buffer_size = ump_buffer_size_for_str(value);
         buffer.try_resize(buffer_size)?;
-        flex_data::clear_payload(buffer.buffer_mut());
+        flex_data::clear_payload(&mut buffer.buffer_mut()[..buffer_size]);
         grow_buffer(buffer.buffer_mut(), buffer_size);
         Ok(())
     }
-- 
2.43.0


From 0672657db3f0c0e72d48c4fada165a08ec14c33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:58 +0000
Subject: [PATCH 19/39] fix: flex data messages with metadata statuses 0xA to
 0xC are recognised

---
 midi2/src/flex_data.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/midi2/src/flex_data.rs b/midi2/src/flex_data.rs
index 239647f..5bb7908 100755
--- a/midi2/src/flex_data.rs
+++ b/midi2/src/flex_data.rs
@@ -874,11 +874,11 @@ impl<'a> TryFrom<&'a [u32]> for FlexData<&'a [u32]> {
             0x01_09 => PrimaryPerformerName(
                 primary_performer_name::PrimaryPerformerName::try_from(value)?,
             ),
-            0x01_10 => AccompanyingPerformerName(
+            0x01_0A => AccompanyingPerformerName(
                 accompanying_performer_name::AccompanyingPerformerName::try_from(value)?,
             ),
-            0x01_11 => RecordingDate(recording_date::RecordingDate::try_from(value)?),
-            0x01_12 => RecordingLocation(recording_location::RecordingLocation::try_from(value)?),
+            0x01_0B => RecordingDate(recording_date::RecordingDate::try_from(value)?),
+            0x01_0C => RecordingLocation(recording_location::RecordingLocation::try_from(value)?),
             0x02_00 => UnknownPerformanceText(
                 unknown_performance_text::UnknownPerformanceText::try_from(value)?,
             ),
-- 
2.43.0


From 346f85550d6b79fa36b39a212d74e65e7e204551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:06 +0000
Subject: [PATCH 20/39] fix: writing a key signature of zero flats does not
 panic

---
 midi2/src/flex_data/set_key_signature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midi2/src/flex_data/set_key_signature.rs b/midi2/src/flex_data/set_key_signature.rs
index e45f479..9845121 100644
--- a/midi2/src/flex_data/set_key_signature.rs
+++ b/midi2/src/flex_data/set_key_signature.rs
@@ -76,7 +76,7 @@ impl<B: crate::buffer::Ump + crate::buffer::BufferMut> crate::detail::property::
             0,
             match v {
                 SharpsFlats::Sharps(v) => u4::from(v),
-                SharpsFlats::Flats(v) => u4::new((!u8::from(v) & 0b0000_1111) + 1),
+                SharpsFlats::Flats(v) => u4::new(u8::from(v).wrapping_neg() & 0b0000_1111),
                 SharpsFlats::NonStandard => u4::new(0x8),
             },
         );
-- 
2.43.0


From 153f99fdb410cb6901177a134dadb73e3cae5295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:29 +0000
Subject: [PATCH 21/39] fix: ump stream text covers the bytes of the message
 only

---
 midi2/src/ump_stream.rs                     | 7 +++++--
 midi2/src/ump_stream/function_block_name.rs | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/midi2/src/ump_stream.rs b/midi2/src/ump_stream.rs
index 8123312..0ddef90 100644
--- a/midi2/src/ump_stream.rs
+++ b/midi2/src/ump_stream.rs
@@ -271,7 +271,10 @@ impl core::iter::Iterator for TextBytesIterator<'_> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        ((self.buffer.len() - 1) * 14, Some(self.buffer.len() * 14))
+        // null bytes are skipped, so only the upper bound is known
+        let packet_capacity = 14 - self.offset;
+        let visited = self.packet_index * packet_capacity + self.byte_index;
+        (0, Some(self.buffer.len() / 4 * packet_capacity - visited))
     }
 }
 
@@ -306,7 +309,7 @@ impl<'a, B: Ump> property::Property<B> for TextReadBytesProperty<'a> {
 impl<'a, B: 'a + Ump> property::ReadProperty<'a, B> for TextReadBytesProperty<'a> {
     fn read(buffer: &'a B) -> <Self as property::Property<B>>::Type {
         TextBytesIterator {
-            buffer: buffer.buffer(),
+            buffer: &buffer.buffer()[..message_size(buffer)],
             packet_index: 0,
             byte_index: 0,
             offset: 0,
diff --git a/midi2/src/ump_stream/function_block_name.rs b/midi2/src/ump_stream/function_block_name.rs
index 04f0d4b..986006f 100644
--- a/midi2/src/ump_stream/function_block_name.rs
+++ b/midi2/src/ump_stream/function_block_name.rs
@@ -89,7 +89,7 @@ impl<'a, B: Ump> property::Property<B> for TextReadBytesProperty<'a> {
 impl<'a, B: 'a + Ump> property::ReadProperty<'a, B> for TextReadBytesProperty<'a> {
     fn read(buffer: &'a B) -> <Self as property::Property<B>>::Type {
         ump_stream::TextBytesIterator {
-            buffer: buffer.buffer(),
+            buffer: &buffer.buffer()[..ump_stream::message_size(buffer)],
             packet_index: 0,
             byte_index: 0,
             offset: 1,
-- 
2.43.0


From ffec011a8c6112dc75a5562ed9f5237e2a29dcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:39 +0000
Subject: [PATCH 22/39] fix: ump stream status and function block are validated
 in every stream packet and no other

---
 midi2/src/ump_stream.rs                     | 3 ++-
 midi2/src/ump_stream/function_block_name.rs | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/midi2/src/ump_stream.rs b/midi2/src/ump_stream.rs
index 0ddef90..2591ca1 100644
--- a/midi2/src/ump_stream.rs
+++ b/midi2/src/ump_stream.rs
@@ -125,7 +125,8 @@ impl<'a, const STATUS: u16, B: Ump> property::ReadProperty<'a, B> for StatusProp
     fn validate(buffer: &B) -> Result<(), crate::error::InvalidData> {
         if buffer
             .buffer()
-            .chunks_exact(4)
+            .chunks(4)
+            .take_while(|packet| packet[0] >> 28 == UMP_MESSAGE_TYPE as u32)
             .all(|packet| status_from_buffer(packet) == STATUS)
         {
             Ok(())
diff --git a/midi2/src/ump_stream/function_block_name.rs b/midi2/src/ump_stream/function_block_name.rs
index 986006f..dcd0974 100644
--- a/midi2/src/ump_stream/function_block_name.rs
+++ b/midi2/src/ump_stream/function_block_name.rs
@@ -50,6 +50,7 @@ impl<'a, B: Ump> property::ReadProperty<'a, B> for FunctionBlockProperty {
         if !buffer
             .buffer()
             .chunks_exact(4)
+            .take_while(|packet| u8::from(packet[0].nibble(0)) == UMP_MESSAGE_TYPE)
             .all(|packet| packet[0].octet(2) == function_block)
         {
             Err(crate::error::InvalidData(
-- 
2.43.0


From b24c2f11d77b51ee2f20cddab56ccfc80295fbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:48 +0000
Subject: [PATCH 23/39] fix: ump stream messages are written within their own
 packets only

---
 midi2/src/ump_stream.rs                     | 30 ++++++++++++++-------
 midi2/src/ump_stream/function_block_name.rs |  2 +-
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/midi2/src/ump_stream.rs b/midi2/src/ump_stream.rs
index 2591ca1..e14d9dd 100644
--- a/midi2/src/ump_stream.rs
+++ b/midi2/src/ump_stream.rs
@@ -141,7 +141,7 @@ impl<const STATUS: u16, B: Ump + BufferMut> property::WriteProperty<B> for Statu
         Ok(())
     }
     fn write(buffer: &mut B, _v: Self::Type) {
-        for packet in buffer.buffer_mut().chunks_exact_mut(4) {
+        for packet in message_packets_mut(buffer.buffer_mut()) {
             packet[0] &= !0x03FF_0000;
             packet[0] |= (STATUS as u32) << 16;
         }
@@ -177,7 +177,10 @@ impl<'a, B: Ump> property::ReadProperty<'a, B> for ConsistentFormatsProperty {
 impl<B: Ump + BufferMut> property::WriteProperty<B> for ConsistentFormatsProperty {
     fn default() -> Self::Type {}
     fn write(buffer: &mut B, _v: Self::Type) {
-        set_format_fields(buffer.buffer_mut())
+        use crate::detail::BitOps;
+
+        // a new message is made of a single packet
+        buffer.buffer_mut()[0].set_crumb(2, crate::ux::u2::new(COMPLETE_FORMAT));
     }
     fn validate(_v: &Self::Type) -> Result<(), crate::error::InvalidData> {
         Ok(())
@@ -229,10 +232,10 @@ impl<const OFFSET: usize, B: Ump + BufferMut> property::ResizeProperty<B>
     {
         let buffer_size = required_buffer_size_for_str::<OFFSET>(value);
         buffer.resize(buffer_size);
-        clear_payload::<OFFSET>(buffer.buffer_mut());
+        clear_payload::<OFFSET>(&mut buffer.buffer_mut()[..buffer_size]);
 
         write_message_header_data(buffer.buffer_mut(), buffer_size);
-        set_format_fields(buffer.buffer_mut());
+        set_format_fields(&mut buffer.buffer_mut()[..buffer_size]);
     }
 
     fn try_resize(buffer: &mut B, value: &Self::Type) -> Result<(), crate::error::BufferOverflow>
@@ -241,10 +244,10 @@ impl<const OFFSET: usize, B: Ump + BufferMut> property::ResizeProperty<B>
     {
         let buffer_size = required_buffer_size_for_str::<OFFSET>(value);
         buffer.try_resize(buffer_size)?;
-        clear_payload::<OFFSET>(buffer.buffer_mut());
+        clear_payload::<OFFSET>(&mut buffer.buffer_mut()[..buffer_size]);
 
         write_message_header_data(buffer.buffer_mut(), buffer_size);
-        set_format_fields(buffer.buffer_mut());
+        set_format_fields(&mut buffer.buffer_mut()[..buffer_size]);
 
         Ok(())
     }
@@ -413,10 +416,19 @@ fn write_message_header_data(buffer: &mut [u32], size: usize) {
         packet[0] &= !0x03FF_0000;
         packet[0] |= (status as u32) << 16;
     }
+}
 
-    for packet in buffer[size..].chunks_exact_mut(4) {
-        packet[0] = 0x0;
-    }
+// the packets of the message, up to and including the final one
+fn message_packets_mut(buffer: &mut [u32]) -> impl core::iter::Iterator<Item = &mut [u32]> {
+    use crate::detail::BitOps;
+
+    let mut ended = false;
+    buffer.chunks_mut(4).take_while(move |packet| {
+        let format = u8::from(packet[0].crumb(2));
+        let in_message = !ended;
+        ended = format == COMPLETE_FORMAT || format == END_FORMAT;
+        in_message
+    })
 }
 
 fn message_size<B: crate::buffer::Ump>(buffer: &B) -> usize {
diff --git a/midi2/src/ump_stream/function_block_name.rs b/midi2/src/ump_stream/function_block_name.rs
index dcd0974..e9028e4 100644
--- a/midi2/src/ump_stream/function_block_name.rs
+++ b/midi2/src/ump_stream/function_block_name.rs
@@ -75,7 +75,7 @@ impl<B: Ump + BufferMut> property::WriteProperty<B> for FunctionBlockProperty {
     }
     fn write(buffer: &mut B, v: Self::Type) {
         use crate::detail::BitOps;
-        for packet in buffer.buffer_mut().chunks_exact_mut(4) {
+        for packet in ump_stream::message_packets_mut(buffer.buffer_mut()) {
             packet[0].set_octet(2, v);
         }
     }
-- 
2.43.0


From ee2640108d5576f1e0dc3601a8822f62f09016de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:58 +0000
Subject: [PATCH 24/39] fix: packets added to a function block name carry its
 function block

---
 midi2/src/ump_stream.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/midi2/src/ump_stream.rs b/midi2/src/ump_stream.rs
index e14d9dd..d5555c4 100644
--- a/midi2/src/ump_stream.rs
+++ b/midi2/src/ump_stream.rs
@@ -234,7 +234,7 @@ impl<const OFFSET: usize, B: Ump + BufferMut> property::ResizeProperty<B>
         buffer.resize(buffer_size);
         clear_payload::<OFFSET>(&mut buffer.buffer_mut()[..buffer_size]);
 
-        write_message_header_data(buffer.buffer_mut(), buffer_size);
+        write_message_header_data::<OFFSET>(buffer.buffer_mut(), buffer_size);
         set_format_fields(&mut buffer.buffer_mut()[..buffer_size]);
     }
 
@@ -246,7 +246,7 @@ impl<const OFFSET: usize, B: Ump + BufferMut> property::ResizeProperty<B>
         buffer.try_resize(buffer_size)?;
         clear_payload::<OFFSET>(&mut buffer.buffer_mut()[..buffer_size]);
 
-        write_message_header_data(buffer.buffer_mut(), buffer_size);
+        write_message_header_data::<OFFSET>(buffer.buffer_mut(), buffer_size);
         set_format_fields(&mut buffer.buffer_mut()[..buffer_size]);
 
         Ok(())
@@ -405,16 +405,21 @@ fn required_buffer_size_for_str<const OFFSET: usize>(s: &str) -> usize {
     }
 }
 
-fn write_message_header_data(buffer: &mut [u32], size: usize) {
+fn write_message_header_data<const OFFSET: usize>(buffer: &mut [u32], size: usize) {
     use crate::detail::BitOps;
     use crate::ux::u4;
 
     let status = status_from_buffer(buffer);
+    let block = buffer[0].octet(2);
 
     for packet in buffer[..size].chunks_exact_mut(4) {
         packet[0].set_nibble(0, u4::new(UMP_MESSAGE_TYPE));
         packet[0] &= !0x03FF_0000;
         packet[0] |= (status as u32) << 16;
+        if OFFSET == 1 {
+            // the octet before the text holds the function block
+            packet[0].set_octet(2, block);
+        }
     }
 }
 
-- 
2.43.0


From 96a6cd695b7281ebcdcea37238200df9786754f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:38 +0000
Subject: [PATCH 25/39] fix: sysex group and stream id are only written to the
 packets of the message

---
 midi2/src/sysex7.rs | 18 ++++++++++++------
 midi2/src/sysex8.rs | 29 ++++++++++++++---------------
 2 files changed, 26 insertions(+), 21 deletions(-)

diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index 927f8d8..07c2261 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -234,12 +234,7 @@ impl<B: crate::buffer::Buffer + crate::buffer::BufferMut> crate::detail::propert
 {
     fn write(buffer: &mut B, group: Self::Type) {
         if <B::Unit as crate::buffer::UnitPrivate>::UNIT_ID == crate::buffer::UNIT_ID_U32 {
-            const TYPE: ux::u4 = ux::u4::new(UMP_MESSAGE_TYPE);
-            for packet in buffer
-                .specialise_u32_mut()
-                .chunks_exact_mut(2)
-                .take_while(|packet| packet[0].nibble(0) == TYPE)
-            {
+            for packet in message_packets_mut(buffer.specialise_u32_mut()) {
                 packet[0].set_nibble(1, group);
             }
         }
@@ -262,6 +257,17 @@ impl<B: crate::buffer::Buffer> crate::detail::property::Property<B> for SysexPay
 // ***********************************************************************
 // trait impls
 
+// the packets of the message, up to and including the final one
+fn message_packets_mut(buffer: &mut [u32]) -> impl core::iter::Iterator<Item = &mut [u32]> {
+    let mut ended = false;
+    buffer.chunks_exact_mut(2).take_while(move |packet| {
+        let status = u8::from(packet[0].nibble(2));
+        let in_message = !ended;
+        ended = status == 0x0 || status == 0x3;
+        in_message
+    })
+}
+
 impl<B: crate::buffer::Buffer> crate::traits::Size<B> for Sysex7<B> {
     fn size(&self) -> usize {
         match <B::Unit as crate::buffer::UnitPrivate>::UNIT_ID {
diff --git a/midi2/src/sysex8.rs b/midi2/src/sysex8.rs
index 70d7daf..fb71851 100644
--- a/midi2/src/sysex8.rs
+++ b/midi2/src/sysex8.rs
@@ -88,11 +88,7 @@ impl<B: crate::buffer::Ump + crate::buffer::BufferMut> crate::detail::property::
     for ValidPacketSizes
 {
     fn write(buffer: &mut B, _: Self::Type) {
-        for packet in buffer
-            .buffer_mut()
-            .chunks_exact_mut(4)
-            .take_while(|packet| u8::from(packet[0].nibble(0)) == UMP_MESSAGE_TYPE)
-        {
+        for packet in message_packets_mut(buffer.buffer_mut()) {
             let sz = packet[0].nibble(3);
             packet[0].set_nibble(3, sz.max(ux::u4::new(1)));
         }
@@ -128,11 +124,7 @@ impl<B: crate::buffer::Ump + crate::buffer::BufferMut> crate::detail::property::
     for GroupProperty
 {
     fn write(buffer: &mut B, group: Self::Type) {
-        for packet in buffer
-            .buffer_mut()
-            .chunks_exact_mut(4)
-            .take_while(|packet| u8::from(packet[0].nibble(0)) == UMP_MESSAGE_TYPE)
-        {
+        for packet in message_packets_mut(buffer.buffer_mut()) {
             packet[0].set_nibble(1, group);
         }
     }
@@ -177,11 +169,7 @@ impl<B: crate::buffer::Ump + crate::buffer::BufferMut> crate::detail::property::
     for StreamIdProperty
 {
     fn write(buffer: &mut B, id: Self::Type) {
-        for packet in buffer
-            .buffer_mut()
-            .chunks_exact_mut(4)
-            .take_while(|packet| u8::from(packet[0].nibble(0)) == UMP_MESSAGE_TYPE)
-        {
+        for packet in message_packets_mut(buffer.buffer_mut()) {
             packet[0].set_octet(2, id);
         }
     }
@@ -193,6 +181,17 @@ impl<B: crate::buffer::Ump + crate::buffer::BufferMut> crate::detail::property::
     }
 }
 
+// the packets of the message, up to and including the final one
+fn message_packets_mut(buffer: &mut [u32]) -> impl core::iter::Iterator<Item = &mut [u32]> {
+    let mut ended = false;
+    buffer.chunks_exact_mut(4).take_while(move |packet| {
+        let status = u8::from(packet[0].nibble(2));
+        let in_message = !ended;
+        ended = status == 0x0 || status == 0x3;
+        in_message
+    })
+}
+
 impl<B: crate::buffer::Ump> crate::traits::Size<B> for Sysex8<B> {
     fn size(&self) -> usize {
         self.0
-- 
2.43.0


From 7b297e5a6e7918f62512dc52b212b8b9f741e3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:19 +0000
Subject: [PATCH 26/39] fix: registered per note controller chorus send level
 is controller 93 and effect depth 5 is writable

---
 midi2/src/channel_voice2/controller.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/midi2/src/channel_voice2/controller.rs b/midi2/src/channel_voice2/controller.rs
index bf385c5..5073580 100644
--- a/midi2/src/channel_voice2/controller.rs
+++ b/midi2/src/channel_voice2/controller.rs
@@ -118,8 +118,9 @@ pub fn to_index_and_data(c: Controller) -> (u8, u32) {
         Controller::ReverbSendLevel(data) => (91, data),
         Controller::EffectDepth { index: 2, data } => (92, data),
         Controller::EffectDepth { index: 3, data } => (93, data),
-        Controller::ChorusSendLevel(data) => (91, data),
+        Controller::ChorusSendLevel(data) => (93, data),
         Controller::EffectDepth { index: 4, data } => (94, data),
+        Controller::EffectDepth { index: 5, data } => (95, data),
         _ => unreachable!(),
     }
 }
-- 
2.43.0


From dd471737af0f415e8d8f187d81e105d49915548f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:29 +0000
Subject: [PATCH 27/39] fix: time code bytes message is two bytes long

---
 midi2/src/system_common/time_code.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midi2/src/system_common/time_code.rs b/midi2/src/system_common/time_code.rs
index 97ba7cd..74ece8b 100644
--- a/midi2/src/system_common/time_code.rs
+++ b/midi2/src/system_common/time_code.rs
@@ -12,7 +12,7 @@ pub const STATUS: u8 = 0xF1;
     Via(system_common::SystemCommon),
     FixedSize,
     MinSizeUmp(1),
-    MinSizeBytes(3)
+    MinSizeBytes(2)
 )]
 struct TimeCode {
     #[property(common_properties::UmpMessageTypeProperty<UMP_MESSAGE_TYPE>)]
-- 
2.43.0


From 25b364a1b966203f0c9c9e0c8428fabc1f2371d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:39 +0000
Subject: [PATCH 28/39] fix: song position pointer bytes message is three bytes
 long

---
 midi2/src/system_common/song_position_pointer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midi2/src/system_common/song_position_pointer.rs b/midi2/src/system_common/song_position_pointer.rs
index ea23dd6..1753655 100644
--- a/midi2/src/system_common/song_position_pointer.rs
+++ b/midi2/src/system_common/song_position_pointer.rs
@@ -12,7 +12,7 @@ pub const STATUS: u8 = 0xF2;
     Via(system_common::SystemCommon),
     FixedSize,
     MinSizeUmp(1),
-    MinSizeBytes(2)
+    MinSizeBytes(3)
 )]
 struct SongPositionPointer {
     #[property(common_properties::UmpMessageTypeProperty<UMP_MESSAGE_TYPE>)]
-- 
2.43.0


From 238b34252ef71ac3c5504a5b2b85b72bfc0b22ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:50 +0000
Subject: [PATCH 29/39] fix: tune request bytes message is one byte long

---
 midi2/src/system_common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midi2/src/system_common.rs b/midi2/src/system_common.rs
index f3122ac..500ce5e 100644
--- a/midi2/src/system_common.rs
+++ b/midi2/src/system_common.rs
@@ -20,7 +20,7 @@ mod tune_request {
         Via(system_common::SystemCommon),
         FixedSize,
         MinSizeUmp(1),
-        MinSizeBytes(2)
+        MinSizeBytes(1)
     )]
     struct TuneRequest {
         #[property(common_properties::UmpMessageTypeProperty<UMP_MESSAGE_TYPE>)]
-- 
2.43.0


From 83639858ff18eb846c17c364981f3f1c96acd41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:01 +0000
Subject: [PATCH 30/39] fix: per note management detach and reset are read from
 the bits of the specification

---
 midi2/src/channel_voice2/per_note_management.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/midi2/src/channel_voice2/per_note_management.rs b/midi2/src/channel_voice2/per_note_management.rs
index 5e98455..c3b8fb0 100644
--- a/midi2/src/channel_voice2/per_note_management.rs
+++ b/midi2/src/channel_voice2/per_note_management.rs
@@ -21,9 +21,9 @@ struct PerNoteManagement {
     group: u4,
     #[property(common_properties::UmpSchemaProperty<u7, schema::Ump<0x0000_7F00, 0x0, 0x0, 0x0>>)]
     note_number: u7,
-    #[property(common_properties::UmpSchemaProperty<bool, schema::Ump<0x0000_0001, 0x0, 0x0, 0x0>>)]
-    detach: bool,
     #[property(common_properties::UmpSchemaProperty<bool, schema::Ump<0x0000_0002, 0x0, 0x0, 0x0>>)]
+    detach: bool,
+    #[property(common_properties::UmpSchemaProperty<bool, schema::Ump<0x0000_0001, 0x0, 0x0, 0x0>>)]
     reset: bool,
 }
 
-- 
2.43.0


From f44c7a6549b8a8ecbdc83f3b73f86bc07da41df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:11 +0000
Subject: [PATCH 31/39] fix: function block discovery filter bits follow the
 specification

---
 midi2/src/ump_stream/function_block_discovery.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/midi2/src/ump_stream/function_block_discovery.rs b/midi2/src/ump_stream/function_block_discovery.rs
index 78c7595..d15c13a 100644
--- a/midi2/src/ump_stream/function_block_discovery.rs
+++ b/midi2/src/ump_stream/function_block_discovery.rs
@@ -17,9 +17,9 @@ struct FunctionBlockDiscovery {
 
     #[property(common_properties::UmpSchemaProperty<u8, schema::Ump<0x0000_FF00, 0x0, 0x0, 0x0>>)]
     function_block_number: u8,
-    #[property(common_properties::UmpSchemaProperty<bool, schema::Ump<0b0000_0000_0000_0000_0000_0000_0000_0010, 0x0, 0x0, 0x0>>)]
-    requesting_function_block_info: bool,
     #[property(common_properties::UmpSchemaProperty<bool, schema::Ump<0b0000_0000_0000_0000_0000_0000_0000_0001, 0x0, 0x0, 0x0>>)]
+    requesting_function_block_info: bool,
+    #[property(common_properties::UmpSchemaProperty<bool, schema::Ump<0b0000_0000_0000_0000_0000_0000_0000_0010, 0x0, 0x0, 0x0>>)]
     requesting_function_block_name: bool,
 }
 
-- 
2.43.0


From 4d7c9dbc65f66964a0508eed0971135f9e626e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:21 +0000
Subject: [PATCH 32/39] fix: CI device id 0x0F is channel sixteen

---
 midi2/src/ci/device_id.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midi2/src/ci/device_id.rs b/midi2/src/ci/device_id.rs
index 93aac5e..394d8ec 100644
--- a/midi2/src/ci/device_id.rs
+++ b/midi2/src/ci/device_id.rs
@@ -19,7 +19,7 @@ impl DeviceId {
             Ok(DeviceId::FunctionBlock)
         } else if v == 0x7E {
             Ok(DeviceId::Group)
-        } else if v < 0x0F {
+        } else if v <= 0x0F {
             Ok(DeviceId::Channel(v.try_into().unwrap()))
         } else {
             Err(crate::error::InvalidData(
-- 
2.43.0


From 8c468f92d01c19929e2a6d7680a6976a37350392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:50 +0000
Subject: [PATCH 33/39] fix: words after a sysex message do not make it non
 compact

---
 midi2/src/sysex7.rs | 6 ++----
 midi2/src/sysex8.rs | 8 ++------
 2 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index 07c2261..797da2d 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -677,13 +677,11 @@ fn is_compact<B: crate::buffer::Buffer>(sysex: &Sysex7<B>) -> bool {
     match <B::Unit as crate::buffer::UnitPrivate>::UNIT_ID {
         crate::buffer::UNIT_ID_U8 => true,
         crate::buffer::UNIT_ID_U32 => {
-            use crate::detail::BitOps;
+            use crate::{detail::BitOps, traits::Data};
             for chunk in sysex
-                .0
-                .buffer()
+                .data()
                 .specialise_u32()
                 .chunks_exact(2)
-                .take_while(|packet| u8::from(packet[0].nibble(0)) == UMP_MESSAGE_TYPE)
             {
                 let status: u8 = chunk[0].nibble(2).into();
                 let is_begin = status == 0x1;
diff --git a/midi2/src/sysex8.rs b/midi2/src/sysex8.rs
index fb71851..249be9e 100644
--- a/midi2/src/sysex8.rs
+++ b/midi2/src/sysex8.rs
@@ -582,12 +582,8 @@ fn buffer_size_from_payload_size(payload_size: usize) -> usize {
 // will determine whether the payload data in the message is maximally
 // compact in the underlying buffer
 fn is_compact<B: crate::buffer::Buffer<Unit = u32>>(sysex: &Sysex8<B>) -> bool {
-    for chunk in sysex
-        .0
-        .buffer()
-        .chunks_exact(4)
-        .take_while(|packet| u8::from(packet[0].nibble(0)) == UMP_MESSAGE_TYPE)
-    {
+    use crate::traits::Data;
+    for chunk in sysex.data().chunks_exact(4) {
         let status: u8 = chunk[0].nibble(2).into();
         let is_begin = status == 0x1;
         let is_continue = status == 0x2;
-- 
2.43.0


From a684f8026902f72b6327264530e6d249e11e9709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:02 +0000
Subject: [PATCH 34/39] fix: sysex7 payload bytes are written with their high
 bit clear

---
 midi2/src/sysex7.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index 797da2d..daedef1 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -605,7 +605,7 @@ impl<B: crate::buffer::Buffer> SysexInternal<B> for Sysex7<B> {
                 let buffer_index = 2 * (payload_index / 6);
                 let byte_index = payload_index % 6;
                 self.0.specialise_u32_mut()[buffer_index + (byte_index + 2) / 4]
-                    .set_septet((byte_index + 2) % 4, datum);
+                    .set_octet((byte_index + 2) % 4, datum.into());
             }
             _ => unreachable!(),
         }
-- 
2.43.0


From baf157fc82b5b53cade377196435477933081cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:14 +0000
Subject: [PATCH 35/39] fix: sysex payload edits do not allocate for the upper
 bound of an iterator

---
 midi2/src/detail/helpers.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/midi2/src/detail/helpers.rs b/midi2/src/detail/helpers.rs
index 494dd2c..109a233 100644
--- a/midi2/src/detail/helpers.rs
+++ b/midi2/src/detail/helpers.rs
@@ -177,11 +177,8 @@ mod detail {
         );
         let splice_size = splice_end - splice_begin;
 
-        let mut running_data_size_estimate = match data.size_hint() {
-            (_, Some(upper)) => upper,
-            // not the optimal case - could lead to additional copying
-            (lower, None) => lower,
-        };
+        // the upper bound may be far larger than the data, or than any buffer
+        let (mut running_data_size_estimate, _) = data.size_hint();
         let mut written = 0;
         let mut additional_size_for_overflow = 1;
         let mut data = data.peekable();
-- 
2.43.0


From 12893964fbfec978507ad89d8d7ad88d045cff01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:26 +0000
Subject: [PATCH 36/39] fix: CI messages ending before their last field are
 rejected

---
 midi2_proc/src/generate_ci.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/midi2_proc/src/generate_ci.rs b/midi2_proc/src/generate_ci.rs
index 3850a26..4e74af0 100644
--- a/midi2_proc/src/generate_ci.rs
+++ b/midi2_proc/src/generate_ci.rs
@@ -548,6 +548,9 @@ fn try_from_slice_impl(root_ident: &syn::Ident, properties: &[Property]) -> Toke
                     return Err(crate::error::InvalidData("Incorrect CI version"));
                 }
                 let sysex7 = crate::sysex7::Sysex7::try_from(buffer)?;
+                if <crate::sysex7::Sysex7<&[u8]> as crate::traits::Size<&[u8]>>::size(&sysex7) < <Self as crate::traits::MinSize<&[u8]>>::MIN_SIZE {
+                    return Err(crate::error::InvalidData(crate::detail::common_err_strings::ERR_SLICE_TOO_SHORT));
+                }
                 let buffer = sysex7.buffer_access();
                 #validation_steps
                 Ok(#root_ident(sysex7))
-- 
2.43.0


From a8dd6e04f8157f23c037ca47f918f26f27861e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:20 +0000
Subject: [PATCH 37/39] fix: sysex payload edits only overflow when the data
 exceeds the capacity of the buffer

---
 midi2/src/detail/helpers.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/midi2/src/detail/helpers.rs b/midi2/src/detail/helpers.rs
index 109a233..40369bf 100644
--- a/midi2/src/detail/helpers.rs
+++ b/midi2/src/detail/helpers.rs
@@ -233,6 +233,16 @@ mod detail {
                     ) {
                         // failed. we'll work with what we've got
                         running_data_size_estimate = sz.saturating_sub(initial_size - splice_size);
+                        if running_data_size_estimate <= written {
+                            // the buffer might still have space for less
+                            running_data_size_estimate = written + 1;
+                            resize(
+                                sysex,
+                                running_data_size_estimate + initial_size - splice_size,
+                            )
+                            .map_err(|_| BufferOverflow)?;
+                            additional_size_for_overflow = 1;
+                        }
                         to = splice_begin + running_data_size_estimate;
                     };
                 }
-- 
2.43.0


From 680a752e68e0e9d8fe25fe6fb16a7c84e04cd01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:27 +0000
Subject: [PATCH 38/39] fix: text is validated to be utf8 without the std
 feature too

---
 midi2/src/detail/helpers.rs                 | 22 +++++++++++++++++++++
 midi2/src/flex_data/text.rs                 |  4 ++--
 midi2/src/ump_stream.rs                     |  4 ++--
 midi2/src/ump_stream/function_block_name.rs |  4 ++--
 4 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/midi2/src/detail/helpers.rs b/midi2/src/detail/helpers.rs
index 40369bf..f91cd06 100644
--- a/midi2/src/detail/helpers.rs
+++ b/midi2/src/detail/helpers.rs
@@ -27,6 +27,28 @@ pub fn sysex_group_consistent_groups(
     }
 }
 
+#[cfg(any(feature = "flex-data", feature = "ump-stream"))]
+pub fn validate_utf8<I: Iterator<Item = u8>>(bytes: I) -> Result<(), crate::error::InvalidData> {
+    const ERR: &str = "Payload bytes do not represent a valid utf string";
+    let mut character = [0_u8; 4];
+    let mut size = 0;
+    for byte in bytes {
+        character[size] = byte;
+        size += 1;
+        match core::str::from_utf8(&character[..size]) {
+            Ok(_) => size = 0,
+            // the character is continued by the next byte
+            Err(e) if e.error_len().is_none() => {}
+            Err(_) => return Err(crate::error::InvalidData(ERR)),
+        }
+    }
+    if size == 0 {
+        Ok(())
+    } else {
+        Err(crate::error::InvalidData(ERR))
+    }
+}
+
 pub const ERR_SYSEX_EXPECTED_COMPLETE: &str = "Expected Complete packet";
 pub const ERR_SYSEX_EXPECTED_BEGIN: &str = "Expected Begin packet";
 pub const ERR_SYSEX_EXPECTED_CONTINUE: &str = "Expected Continue packet";
diff --git a/midi2/src/flex_data/text.rs b/midi2/src/flex_data/text.rs
index 8320043..a0c2a64 100644
--- a/midi2/src/flex_data/text.rs
+++ b/midi2/src/flex_data/text.rs
@@ -177,8 +177,8 @@ impl<'a, B: 'a + Ump> ReadProperty<'a, B> for TextReadBytesProperty<'a> {
             byte_index: 0,
         }
     }
-    fn validate(_buffer: &B) -> Result<(), crate::error::InvalidData> {
-        Ok(())
+    fn validate(buffer: &B) -> Result<(), crate::error::InvalidData> {
+        crate::detail::helpers::validate_utf8(TextReadBytesProperty::read(buffer))
     }
 }
 
diff --git a/midi2/src/ump_stream.rs b/midi2/src/ump_stream.rs
index d5555c4..5243bf1 100644
--- a/midi2/src/ump_stream.rs
+++ b/midi2/src/ump_stream.rs
@@ -319,8 +319,8 @@ impl<'a, B: 'a + Ump> property::ReadProperty<'a, B> for TextReadBytesProperty<'a
             offset: 0,
         }
     }
-    fn validate(_buffer: &B) -> Result<(), crate::error::InvalidData> {
-        Ok(())
+    fn validate(buffer: &B) -> Result<(), crate::error::InvalidData> {
+        crate::detail::helpers::validate_utf8(TextReadBytesProperty::read(buffer))
     }
 }
 
diff --git a/midi2/src/ump_stream/function_block_name.rs b/midi2/src/ump_stream/function_block_name.rs
index e9028e4..33eca70 100644
--- a/midi2/src/ump_stream/function_block_name.rs
+++ b/midi2/src/ump_stream/function_block_name.rs
@@ -96,8 +96,8 @@ impl<'a, B: 'a + Ump> property::ReadProperty<'a, B> for TextReadBytesProperty<'a
             offset: 1,
         }
     }
-    fn validate(_buffer: &B) -> Result<(), crate::error::InvalidData> {
-        Ok(())
+    fn validate(buffer: &B) -> Result<(), crate::error::InvalidData> {
+        crate::detail::helpers::validate_utf8(TextReadBytesProperty::read(buffer))
     }
 }
 
-- 
2.43.0


From 6fa1e8f5c81550cddab66d5b80c448bf3e1f85ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:04 +0000
Subject: [PATCH 39/39] fix: endless data given to a fallible sysex edit
 overflows the buffer instead of panicking

---
 midi2/src/detail/helpers.rs | 5 +++--
 midi2/src/sysex7.rs         | 2 +-
 midi2/src/sysex8.rs         | 2 +-
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/midi2/src/detail/helpers.rs b/midi2/src/detail/helpers.rs
index f91cd06..0df8235 100644
--- a/midi2/src/detail/helpers.rs
+++ b/midi2/src/detail/helpers.rs
@@ -205,12 +205,13 @@ mod detail {
         let mut additional_size_for_overflow = 1;
         let mut data = data.peekable();
 
-        if splice_end < splice_end + running_data_size_estimate - splice_size {
+        if splice_size < running_data_size_estimate {
             // we need to grow
             // initial buffer resize
+            // (the estimate is usize::MAX for endless data)
             if let Err(SysexTryResizeError(sz)) = resize(
                 sysex,
-                running_data_size_estimate + initial_size - splice_size,
+                running_data_size_estimate.saturating_add(initial_size - splice_size),
             ) {
                 // failed. we'll work with what we've got
                 running_data_size_estimate = sz.saturating_sub(initial_size - splice_size);
diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index daedef1..68cfe29 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -572,7 +572,7 @@ impl<B: crate::buffer::Buffer> SysexInternal<B> for Sysex7<B> {
         match <B::Unit as crate::buffer::UnitPrivate>::UNIT_ID {
             crate::buffer::UNIT_ID_U8 => {
                 let old_payload_size = self.payload_size();
-                let mut buffer_sz = payload_size + 2;
+                let mut buffer_sz = payload_size.saturating_add(2);
                 let result = self.0.try_resize(buffer_sz).map_err(|_| {
                     buffer_sz = self.0.buffer().len();
                     crate::traits::SysexTryResizeError(buffer_sz.saturating_sub(2))
diff --git a/midi2/src/sysex8.rs b/midi2/src/sysex8.rs
index 249be9e..b44205d 100644
--- a/midi2/src/sysex8.rs
+++ b/midi2/src/sysex8.rs
@@ -572,7 +572,7 @@ fn buffer_size_from_payload_size(payload_size: usize) -> usize {
         if payload_size == 0 {
             4
         } else {
-            payload_size * 4 / 13
+            payload_size / 13 * 4
         }
     } else {
         4 * (payload_size / 13 + 1)
-- 
2.43.0

