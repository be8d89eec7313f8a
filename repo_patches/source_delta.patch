From 3aaf4e8bc070f378b5136a929e1065f404a4447d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:21 +0000
Subject: [PATCH 01/12] fix: do not panic on truncated or unsupported
 submessages, skip bodies not understood

---
 src/messages/receiver.rs | 106 +++++++++++++++++++++------------------
 1 file changed, 56 insertions(+), 50 deletions(-)

diff --git a/src/messages/receiver.rs b/src/messages/receiver.rs
index 3b621dd..0dfbf4b 100644
--- a/src/messages/receiver.rs
+++ b/src/messages/receiver.rs
@@ -18,7 +18,7 @@ use log::info;
 use speedy::{Endianness, Readable};
 use std::io::{Error, ErrorKind};
 
-use bytes::BytesMut;
+use bytes::{Buf, BytesMut};
 use tokio_util::codec::Decoder;
 
 #[derive(Debug, PartialEq)]
@@ -88,10 +88,22 @@ impl Decoder for MessageReceiver {
             }
         };
 
+        let header_length = match self.state {
+            DeserializationState::ReadingHeader => {
+                <Header as Readable<Endianness>>::minimum_bytes_needed()
+            }
+            DeserializationState::ReadingSubmessage => {
+                <SubmessageHeader as Readable<Endianness>>::minimum_bytes_needed()
+            }
+        };
+        if bytes.len() < header_length {
+            return Ok(None);
+        }
+
         match self.state {
             DeserializationState::ReadingHeader => Header::read_from_buffer_owned_with_ctx(
                 Endianness::NATIVE,
-                &bytes.split_to(<Header as Readable<Endianness>>::minimum_bytes_needed()),
+                &bytes.split_to(header_length),
             )
             .and_then(validate_header)
             .and_then(|header: Header| {
@@ -111,50 +123,54 @@ impl Decoder for MessageReceiver {
             }),
 
             DeserializationState::ReadingSubmessage => {
-                SubmessageHeader::read_from_buffer_owned_with_ctx(
+                let submessage_header = SubmessageHeader::read_from_buffer_owned_with_ctx(
                     Endianness::NATIVE,
-                    &bytes.split_to(
-                        <SubmessageHeader as Readable<Endianness>>::minimum_bytes_needed(),
-                    ),
-                )
-                .and_then(|submessage_header| {
-                    if submessage_header.submessage_length == 0
-                        && submessage_header.submessage_id != SubmessageKind::INFO_TS
-                        && submessage_header.submessage_id != SubmessageKind::PAD
-                    {
-                        // This is a last submessage
-                        self.state = DeserializationState::ReadingHeader;
-                    }
-                    Ok(submessage_header)
-                })
-                .and_then(|submessage_header| match submessage_header.submessage_id {
+                    &bytes[..header_length],
+                )?;
+                let submessage_length = usize::from(submessage_header.submessage_length);
+                if bytes.len() - header_length < submessage_length {
+                    return Ok(None);
+                }
+                bytes.advance(header_length);
+                let mut bytes = bytes.split_to(submessage_length);
+
+                if submessage_header.submessage_length == 0
+                    && submessage_header.submessage_id != SubmessageKind::INFO_TS
+                    && submessage_header.submessage_id != SubmessageKind::PAD
+                {
+                    // This is a last submessage
+                    self.state = DeserializationState::ReadingHeader;
+                }
+
+                match submessage_header.submessage_id {
                     SubmessageKind::ACKNACK => {
                         let ack_nack = AckNack::read_from_buffer_owned_with_ctx(
                             submessage_header.flags.endianness_flag(),
-                            &bytes.split_to(submessage_header.submessage_length.into()),
+                            &bytes,
                         )?;
                         Ok(Some(EntitySubmessage::AckNack(
                             ack_nack,
                             submessage_header.flags,
                         )))
                     }
-                    SubmessageKind::DATA => {
-                        unimplemented!();
-                    }
-                    SubmessageKind::DATA_FRAG => {
-                        unimplemented!();
+                    SubmessageKind::DATA | SubmessageKind::DATA_FRAG => {
+                        info!(
+                            "Received not supported submessage with id {:?}, skipping",
+                            submessage_header.submessage_id
+                        );
+                        Ok(None)
                     }
                     SubmessageKind::GAP => {
                         let gap = Gap::read_from_buffer_owned_with_ctx(
                             submessage_header.flags.endianness_flag(),
-                            &bytes.split_to(submessage_header.submessage_length.into()),
+                            &bytes,
                         )?;
                         Ok(Some(EntitySubmessage::Gap(gap)))
                     }
                     SubmessageKind::NACK_FRAG => {
                         let nack_frag = NackFrag::read_from_buffer_owned_with_ctx(
                             submessage_header.flags.endianness_flag(),
-                            &bytes.split_to(submessage_header.submessage_length.into()),
+                            &bytes,
                         )?;
 
                         Ok(Some(EntitySubmessage::NackFrag(nack_frag)))
@@ -162,7 +178,7 @@ impl Decoder for MessageReceiver {
                     SubmessageKind::HEARTBEAT => {
                         let heartbeat = Heartbeat::read_from_buffer_owned_with_ctx(
                             submessage_header.flags.endianness_flag(),
-                            &bytes.split_to(submessage_header.submessage_length.into()),
+                            &bytes,
                         )?;
 
                         Ok(Some(EntitySubmessage::Heartbeat(
@@ -173,7 +189,7 @@ impl Decoder for MessageReceiver {
                     SubmessageKind::HEARTBEAT_FRAG => {
                         let heartbeat_frag = HeartbeatFrag::read_from_buffer_owned_with_ctx(
                             submessage_header.flags.endianness_flag(),
-                            &bytes.split_to(submessage_header.submessage_length.into()),
+                            &bytes,
                         )?;
 
                         Ok(Some(EntitySubmessage::HeartbeatFrag(heartbeat_frag)))
@@ -181,7 +197,7 @@ impl Decoder for MessageReceiver {
                     SubmessageKind::INFO_SRC => {
                         let info_src = InfoSource::read_from_buffer_owned_with_ctx(
                             submessage_header.flags.endianness_flag(),
-                            &bytes.split_to(submessage_header.submessage_length.into()),
+                            &bytes,
                         )?;
                         self.receiver.source_guid_prefix = info_src.guid_prefix;
                         self.receiver.source_version = info_src.protocol_version;
@@ -196,7 +212,7 @@ impl Decoder for MessageReceiver {
                     SubmessageKind::INFO_DST => {
                         let info_dst = InfoDestination::read_from_buffer_owned_with_ctx(
                             submessage_header.flags.endianness_flag(),
-                            &bytes.split_to(submessage_header.submessage_length.into()),
+                            &bytes,
                         )?;
 
                         if info_dst.guid_prefix != GuidPrefix_t::GUIDPREFIX_UNKNOWN {
@@ -206,7 +222,6 @@ impl Decoder for MessageReceiver {
                         Ok(None)
                     }
                     SubmessageKind::INFO_REPLAY => {
-                        let mut bytes = bytes.split_to(submessage_header.submessage_length.into());
                         let (unicast_locator_list, read_bytes) =
                             LocatorList_t::read_with_length_from_buffer_with_ctx(
                                 submessage_header.flags.endianness_flag(),
@@ -214,7 +229,6 @@ impl Decoder for MessageReceiver {
                             );
                         self.receiver.unicast_reply_locator_list = unicast_locator_list?;
 
-                        use crate::bytes::Buf;
                         let mut bytes = bytes.split_off(read_bytes);
 
                         self.receiver.multicast_reply_locator_list =
@@ -233,24 +247,21 @@ impl Decoder for MessageReceiver {
                         Ok(None)
                     }
                     SubmessageKind::INFO_REPLAY_IP4 => {
-                        let mut bytes = bytes.split_to(submessage_header.submessage_length.into());
                         let unicast_locator = LocatorUDPv4_t::read_from_buffer_with_ctx(
                             submessage_header.flags.endianness_flag(),
-                            &bytes.split_to(
-                                <LocatorUDPv4_t as Readable<Endianness>>::minimum_bytes_needed(),
-                            ),
+                            &bytes,
                         )?;
+                        bytes.advance(
+                            <LocatorUDPv4_t as Readable<Endianness>>::minimum_bytes_needed(),
+                        );
                         self.receiver.unicast_reply_locator_list = vec![unicast_locator.into()];
 
                         self.receiver.multicast_reply_locator_list =
                             if submessage_header.flags.is_flag_set(0x02) {
                                 let multicast_locator = LocatorUDPv4_t::read_from_buffer_with_ctx(
-                                submessage_header.flags.endianness_flag(),
-                                &bytes.split_to(
-                                    <LocatorUDPv4_t as Readable<Endianness>>::minimum_bytes_needed(
-                                    ),
-                                ),
-                            )?;
+                                    submessage_header.flags.endianness_flag(),
+                                    &bytes,
+                                )?;
                                 vec![multicast_locator.into()]
                             } else {
                                 vec![]
@@ -262,7 +273,7 @@ impl Decoder for MessageReceiver {
                         if !submessage_header.flags.is_flag_set(0x02) {
                             let timestamp = Time_t::read_from_buffer_owned_with_ctx(
                                 submessage_header.flags.endianness_flag(),
-                                &bytes.split_to(submessage_header.submessage_length.into()),
+                                &bytes,
                             )?;
                             self.receiver.have_timestamp = true;
                             self.receiver.timestamp = timestamp;
@@ -272,11 +283,7 @@ impl Decoder for MessageReceiver {
 
                         Ok(None)
                     }
-                    SubmessageKind::PAD => {
-                        use crate::bytes::Buf;
-                        bytes.advance(submessage_header.submessage_length.into());
-                        Ok(None)
-                    }
+                    SubmessageKind::PAD => Ok(None),
                     _ => {
                         info!(
                             "Received unknown submessage with id {:?}, skipping",
@@ -284,8 +291,7 @@ impl Decoder for MessageReceiver {
                         );
                         Ok(None)
                     }
-                })
-                .or_else(|err| Err(err.into()))
+                }
             }
         }
     }
-- 
2.43.0


From 4105554dfd9b9fdf21a3bd3ad4657a4229a1f101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:24 +0000
Subject: [PATCH 02/12] fix: let a last submessage of zero length extend to the
 end of the message

---
 src/messages/receiver.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/messages/receiver.rs b/src/messages/receiver.rs
index 0dfbf4b..6204cff 100644
--- a/src/messages/receiver.rs
+++ b/src/messages/receiver.rs
@@ -127,20 +127,21 @@ impl Decoder for MessageReceiver {
                     Endianness::NATIVE,
                     &bytes[..header_length],
                 )?;
-                let submessage_length = usize::from(submessage_header.submessage_length);
+                let mut submessage_length = usize::from(submessage_header.submessage_length);
                 if bytes.len() - header_length < submessage_length {
                     return Ok(None);
                 }
                 bytes.advance(header_length);
-                let mut bytes = bytes.split_to(submessage_length);
 
                 if submessage_header.submessage_length == 0
                     && submessage_header.submessage_id != SubmessageKind::INFO_TS
                     && submessage_header.submessage_id != SubmessageKind::PAD
                 {
-                    // This is a last submessage
+                    // This is a last submessage, it extends to the end of the message
+                    submessage_length = bytes.len();
                     self.state = DeserializationState::ReadingHeader;
                 }
+                let mut bytes = bytes.split_to(submessage_length);
 
                 match submessage_header.submessage_id {
                     SubmessageKind::ACKNACK => {
-- 
2.43.0


From 9635612b4d54b661181f7fa0db29ec72a4ba97f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:26 +0000
Subject: [PATCH 03/12] fix: start every message from a fresh receiver state

---
 src/messages/receiver.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/messages/receiver.rs b/src/messages/receiver.rs
index 6204cff..c4ba359 100644
--- a/src/messages/receiver.rs
+++ b/src/messages/receiver.rs
@@ -62,6 +62,7 @@ enum DeserializationState {
 }
 
 pub struct MessageReceiver {
+    locator_kind: LocatorKind_t,
     receiver: Receiver,
     state: DeserializationState,
 }
@@ -69,6 +70,7 @@ pub struct MessageReceiver {
 impl MessageReceiver {
     pub fn new(locator_kind: LocatorKind_t) -> Self {
         MessageReceiver {
+            locator_kind,
             receiver: Receiver::new(locator_kind),
             state: DeserializationState::ReadingHeader,
         }
@@ -107,10 +109,10 @@ impl Decoder for MessageReceiver {
             )
             .and_then(validate_header)
             .and_then(|header: Header| {
+                self.receiver = Receiver::new(self.locator_kind);
                 self.receiver.source_guid_prefix = header.guid_prefix;
                 self.receiver.source_version = header.protocol_version;
                 self.receiver.source_vendor_id = header.vendor_id;
-                self.receiver.have_timestamp = false;
 
                 self.state = DeserializationState::ReadingSubmessage;
                 Ok(None)
-- 
2.43.0


From 9ae74b4556592d5b602655ec50b3be20c74b20fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:28 +0000
Subject: [PATCH 04/12] fix: let INFO_DST with an unknown guid prefix address
 the receiving participant

---
 src/messages/receiver.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/messages/receiver.rs b/src/messages/receiver.rs
index c4ba359..2d1c5e5 100644
--- a/src/messages/receiver.rs
+++ b/src/messages/receiver.rs
@@ -218,9 +218,9 @@ impl Decoder for MessageReceiver {
                             &bytes,
                         )?;
 
-                        if info_dst.guid_prefix != GuidPrefix_t::GUIDPREFIX_UNKNOWN {
-                            self.receiver.dest_guid_prefix = info_dst.guid_prefix;
-                        }
+                        // As in Receiver::new, GUIDPREFIX_UNKNOWN stands for the
+                        // participant that receives the message
+                        self.receiver.dest_guid_prefix = info_dst.guid_prefix;
 
                         Ok(None)
                     }
-- 
2.43.0


From c8000ae744f7d389887e84fe55789e3f9ebd5525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:31 +0000
Subject: [PATCH 05/12] fix: decode up to the next entity submessage and
 resynchronise at message boundaries

---
 src/messages/receiver.rs | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/messages/receiver.rs b/src/messages/receiver.rs
index 2d1c5e5..56c9d3b 100644
--- a/src/messages/receiver.rs
+++ b/src/messages/receiver.rs
@@ -82,6 +82,38 @@ impl Decoder for MessageReceiver {
     type Error = std::io::Error;
 
     fn decode(&mut self, bytes: &mut BytesMut) -> Result<Option<Self::Item>, Self::Error> {
+        loop {
+            let available = bytes.len();
+            match self.decode_next(bytes) {
+                Ok(None) if bytes.len() < available => continue,
+                Ok(item) => return Ok(item),
+                Err(err) => {
+                    // The rest of an invalid message is ignored
+                    bytes.clear();
+                    self.state = DeserializationState::ReadingHeader;
+                    return Err(err);
+                }
+            }
+        }
+    }
+
+    fn decode_eof(&mut self, bytes: &mut BytesMut) -> Result<Option<Self::Item>, Self::Error> {
+        let item = self.decode(bytes)?;
+        if item.is_none() {
+            // The transport has reached the end of the message
+            self.state = DeserializationState::ReadingHeader;
+            if !bytes.is_empty() {
+                bytes.clear();
+                return Err(Error::new(ErrorKind::UnexpectedEof, "Truncated message"));
+            }
+        }
+        Ok(item)
+    }
+}
+
+impl MessageReceiver {
+    /// Decodes a header or a single submessage, consumes nothing if it is not complete yet
+    fn decode_next(&mut self, bytes: &mut BytesMut) -> Result<Option<EntitySubmessage>, Error> {
         let validate_header = |header: Header| {
             if header.valid() {
                 Ok(header)
-- 
2.43.0


From ca075576f408c2fbdb51a4527c3bb8b15d95eec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 06/12] fix: bound the size of a received number set and keep
 its bits

---
 src/common/bit_set.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/common/bit_set.rs b/src/common/bit_set.rs
index 177ca66..c2c32bc 100644
--- a/src/common/bit_set.rs
+++ b/src/common/bit_set.rs
@@ -3,6 +3,9 @@ use bit_vec::BitVec;
 use speedy::{Context, Readable, Reader, Writable, Writer};
 use std::ops::{Deref, DerefMut};
 
+/// The number of bits in a SequenceNumberSet or a FragmentNumberSet is limited
+const MAX_NUMBER_OF_BITS: u32 = 256;
+
 #[derive(Debug, PartialEq)]
 pub struct BitSetRef(BitSet<u32>);
 
@@ -34,6 +37,9 @@ impl<'a, C: Context> Readable<'a, C> for BitSetRef {
     #[inline]
     fn read_from<R: Reader<'a, C>>(reader: &mut R) -> Result<Self, C::Error> {
         let number_of_bits = reader.read_u32()?;
+        if number_of_bits > MAX_NUMBER_OF_BITS {
+            return Err(speedy::Error::custom("Too many bits in a set").into());
+        }
         let number_of_bytes = (number_of_bits + 31) / 32;
 
         let mut bit_vec = BitVec::with_capacity(number_of_bits as usize);
@@ -42,7 +48,10 @@ impl<'a, C: Context> Readable<'a, C> for BitSetRef {
             for _ in 0..number_of_bytes {
                 inner.push(reader.read_u32()?);
             }
+            bit_vec.set_len(number_of_bytes as usize * 32);
         }
+        // Bits beyond the declared size do not belong to the set
+        bit_vec.truncate(number_of_bits as usize);
 
         Ok(BitSetRef(BitSet::from_bit_vec(bit_vec)))
     }
-- 
2.43.0


From 87c19e172c690d7c3da85cb4ccfd6d78268bb745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:58 +0000
Subject: [PATCH 07/12] fix: do not panic when iterating over a number set at
 the end of the number range

---
 src/common/ranged_bit_set.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/ranged_bit_set.rs b/src/common/ranged_bit_set.rs
index 2430387..314d5ae 100644
--- a/src/common/ranged_bit_set.rs
+++ b/src/common/ranged_bit_set.rs
@@ -51,7 +51,7 @@ where
                 None => return None,
                 Some((_, false)) => {}
                 Some((i, true)) => {
-                    return Some(B::from_usize(i).unwrap().checked_add(&self.base).unwrap());
+                    return B::from_usize(i).and_then(|offset| offset.checked_add(&self.base));
                 }
             }
         }
-- 
2.43.0


From 23016f94943c84643fdc19bf02ae1d25e29e6a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:00 +0000
Subject: [PATCH 08/12] fix: align parameter values to 4 bytes and reject
 values that do not fit

---
 src/messages/submessage_elements/parameter.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/messages/submessage_elements/parameter.rs b/src/messages/submessage_elements/parameter.rs
index 096de34..12dab9b 100644
--- a/src/messages/submessage_elements/parameter.rs
+++ b/src/messages/submessage_elements/parameter.rs
@@ -1,5 +1,6 @@
 use crate::structure::parameter_id::ParameterId;
 use speedy::{Context, Readable, Reader, Writable, Writer};
+use std::convert::TryFrom;
 
 #[derive(Debug, PartialEq)]
 pub struct Parameter {
@@ -14,10 +15,10 @@ impl<'a, C: Context> Readable<'a, C> for Parameter {
     #[inline]
     fn read_from<R: Reader<'a, C>>(reader: &mut R) -> Result<Self, C::Error> {
         let parameter_id: ParameterId = reader.read_value()?;
-        let length = reader.read_u16()?;
-        let alignment = length % 4;
+        let length = usize::from(reader.read_u16()?);
+        let alignment = (4 - length % 4) % 4;
 
-        let mut value = Vec::with_capacity((length + alignment) as usize);
+        let mut value = Vec::with_capacity(length + alignment);
 
         for _ in 0..(length + alignment) {
             let byte = reader.read_u8()?;
@@ -32,18 +33,19 @@ impl<'a, C: Context> Readable<'a, C> for Parameter {
 
     #[inline]
     fn minimum_bytes_needed() -> usize {
-        8
+        4
     }
 }
 
 impl<C: Context> Writable<C> for Parameter {
     #[inline]
     fn write_to<T: ?Sized + Writer<C>>(&self, writer: &mut T) -> Result<(), C::Error> {
-        writer.write_value(&self.parameter_id)?;
-
         let length = self.value.len();
-        let alignment = length % 4;
-        writer.write_u16((length + alignment) as u16)?;
+        let alignment = (4 - length % 4) % 4;
+        let aligned_length = u16::try_from(length + alignment)
+            .map_err(|_| speedy::Error::custom("Too long parameter value"))?;
+        writer.write_value(&self.parameter_id)?;
+        writer.write_u16(aligned_length)?;
 
         for byte in &self.value {
             writer.write_u8(*byte)?;
-- 
2.43.0


From 4c0c9a11774973fc8a64dc1acf6f06dc4e1125a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:02 +0000
Subject: [PATCH 09/12] fix: bound the size of a received locator list by the
 received bytes

---
 src/structure/locator.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/structure/locator.rs b/src/structure/locator.rs
index ad64bb0..fa5d345 100644
--- a/src/structure/locator.rs
+++ b/src/structure/locator.rs
@@ -88,6 +88,11 @@ impl<'a, C: Context> Readable<'a, C> for Locator_t {
         }
         Ok(locator)
     }
+
+    #[inline]
+    fn minimum_bytes_needed() -> usize {
+        24
+    }
 }
 
 impl<C: Context> Writable<C> for Locator_t {
-- 
2.43.0


From 30c5141ace73ac8dcc68e0ddf15775aa81a01d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:04 +0000
Subject: [PATCH 10/12] fix: do not truncate locator ports to a different UDP
 port

---
 src/structure/locator.rs        | 5 +++++
 src/structure/locator_udp_v4.rs | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/structure/locator.rs b/src/structure/locator.rs
index fa5d345..4efeeac 100644
--- a/src/structure/locator.rs
+++ b/src/structure/locator.rs
@@ -52,6 +52,11 @@ impl From<SocketAddr> for Locator_t {
 
 impl From<Locator_t> for SocketAddr {
     fn from(locator: Locator_t) -> Self {
+        // There is no UDP address with such a port
+        if locator.port > u32::from(std::u16::MAX) {
+            return SocketAddr::new(IpAddr::V6(Ipv6Addr::UNSPECIFIED), 0);
+        }
+
         match locator.kind {
             LocatorKind_t::LOCATOR_KIND_UDPv4 => SocketAddr::new(
                 IpAddr::V4(Ipv4Addr::new(
diff --git a/src/structure/locator_udp_v4.rs b/src/structure/locator_udp_v4.rs
index e47e448..5b1fc70 100644
--- a/src/structure/locator_udp_v4.rs
+++ b/src/structure/locator_udp_v4.rs
@@ -32,6 +32,11 @@ impl From<SocketAddrV4> for LocatorUDPv4_t {
 
 impl From<LocatorUDPv4_t> for SocketAddrV4 {
     fn from(locator_udp_v4: LocatorUDPv4_t) -> Self {
+        // There is no UDP address with such a port
+        if locator_udp_v4.port > u32::from(std::u16::MAX) {
+            return SocketAddrV4::new(Ipv4Addr::UNSPECIFIED, 0);
+        }
+
         SocketAddrV4::new(
             Ipv4Addr::from(locator_udp_v4.address),
             locator_udp_v4.port as u16,
-- 
2.43.0


From 932831d2f05405fa82ec20b71cf070e205e20940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:06 +0000
Subject: [PATCH 11/12] fix: do not panic or wrap on timestamps that cannot be
 represented

---
 src/structure/time.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/structure/time.rs b/src/structure/time.rs
index 052331f..ba2a2c5 100644
--- a/src/structure/time.rs
+++ b/src/structure/time.rs
@@ -37,10 +37,12 @@ impl From<SystemTime> for Time_t {
             .duration_since(std::time::UNIX_EPOCH)
             .and_then(|dur_since_epoch| {
                 let fraction = (i64::from(dur_since_epoch.subsec_nanos()) << 32) / NANOS_PER_SEC;
-                Ok(Time_t {
-                    seconds: dur_since_epoch.as_secs() as i32,
-                    fraction: fraction as u32,
-                })
+                Ok(i32::try_from(dur_since_epoch.as_secs())
+                    .map(|seconds| Time_t {
+                        seconds,
+                        fraction: fraction as u32,
+                    })
+                    .unwrap_or(Time_t::TIME_INVALID))
             })
             .unwrap_or(Time_t::TIME_INVALID)
     }
@@ -52,6 +54,7 @@ impl TryFrom<Time_t> for SystemTime {
     fn try_from(time: Time_t) -> Result<Self, Self::Error> {
         match time {
             Time_t::TIME_INVALID => Err("Conversion from Time_t::TIME_INVALID"),
+            _ if time.seconds < 0 => Err("Conversion from a time before the epoch"),
             _ => {
                 let fraction = (i64::from(time.fraction) * NANOS_PER_SEC) >> 32;
                 Ok(std::time::UNIX_EPOCH + Duration::new(time.seconds as u64, fraction as u32))
-- 
2.43.0


From 8f803dc7e1f1dab996b57e3d46206da5ba1db0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:09 +0000
Subject: [PATCH 12/12] fix: do not panic or wrap on durations that cannot be
 represented

---
 src/structure/duration.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/structure/duration.rs b/src/structure/duration.rs
index 0246417..8c88048 100644
--- a/src/structure/duration.rs
+++ b/src/structure/duration.rs
@@ -25,6 +25,10 @@ impl Duration_t {
 
 impl From<Duration> for Duration_t {
     fn from(duration: Duration) -> Self {
+        if duration.as_secs() > std::i32::MAX as u64 {
+            return Duration_t::DURATION_INFINITE;
+        }
+
         Duration_t {
             seconds: duration.as_secs() as i32,
             fraction: duration.subsec_nanos() as u32,
@@ -34,6 +38,11 @@ impl From<Duration> for Duration_t {
 
 impl From<Duration_t> for Duration {
     fn from(duration: Duration_t) -> Self {
+        // There are no negative durations in std
+        if duration.seconds < 0 {
+            return Duration::new(0, 0);
+        }
+
         Duration::new(duration.seconds as u64, duration.fraction)
     }
 }
-- 
2.43.0

