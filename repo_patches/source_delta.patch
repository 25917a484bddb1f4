From 2ccad17ca7e3092ccdbcdc64a0458e51096602ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:27 +0000
Subject: [PATCH 01/29] fix: remaining length field must not count bytes
 already in the buffer

encode_length stopped after four bytes of *buffer*, so the fixed header
byte that precedes it cost one length byte: packets of 2 MiB and more were
written with the last length byte missing.
---
 src/packets/utils.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/packets/utils.rs b/src/packets/utils.rs
index b6e5fb4..78a977c 100644
--- a/src/packets/utils.rs
+++ b/src/packets/utils.rs
@@ -133,8 +133,9 @@ where
 
 pub fn encode_length(len: usize, bytes: &mut BytesMut) {
     let mut mlen = len;
+    let mut written = 0;
     loop {
-        if bytes.len() + 1 > MAX_ENCODED_BYTES {
+        if written + 1 > MAX_ENCODED_BYTES {
             return;
         }
 
@@ -146,6 +147,7 @@ pub fn encode_length(len: usize, bytes: &mut BytesMut) {
         }
 
         bytes.put_u8(d as u8);
+        written += 1;
 
         if mlen == 0 {
             break;
-- 
2.43.0


From 8fd1c620bd268db52f9aeef0baee1702003fa152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:27 +0000
Subject: [PATCH 02/29] fix: reject strings and binary fields shorter than
 their length prefix

---
 src/packets/utils.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/packets/utils.rs b/src/packets/utils.rs
index 78a977c..72adaa4 100644
--- a/src/packets/utils.rs
+++ b/src/packets/utils.rs
@@ -83,7 +83,12 @@ pub fn unpack_bytes<'a, I>(iter: &mut I, len: usize) -> Result<bytes::Bytes, Mqt
 where
     I: Iterator<Item = &'a u8>,
 {
-    Ok(Bytes::from_iter(iter.take(len).copied()))
+    let data = Bytes::from_iter(iter.take(len).copied());
+    if data.len() != len {
+        return Err(MqttError::MissingByte);
+    }
+
+    Ok(data)
 }
 
 pub fn unpack_string_with_len<'a, I>(iter: &mut I, len: usize) -> Result<String, MqttError>
@@ -95,6 +100,9 @@ where
     }
 
     let chars: Vec<u8> = iter.take(len).copied().collect();
+    if chars.len() != len {
+        return Err(MqttError::MissingByte);
+    }
 
     let result = String::from_utf8(chars).map_err(MqttError::MalformedString)?;
 
-- 
2.43.0


From 6399f8c0138e081c77314e9e0b66ffe72d30aba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:40 +0000
Subject: [PATCH 03/29] fix: reject packets whose remaining length is smaller
 than their content

The remaining length comes from the peer; the subtractions underflowed
(panic in debug builds, a huge read length in release builds).
---
 src/packets/mod.rs | 41 +++++++++++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 10 deletions(-)

diff --git a/src/packets/mod.rs b/src/packets/mod.rs
index 4edc732..caca6d4 100644
--- a/src/packets/mod.rs
+++ b/src/packets/mod.rs
@@ -483,13 +483,17 @@ impl VariableHeader {
 
                 let packet_id = if fixed.get_qos()? > QosLevel::AtMost {
                     let id = Some(unpack_u16(iter)?);
-                    len -= size_of::<u16>();
+                    len = len
+                        .checked_sub(size_of::<u16>())
+                        .ok_or(MqttError::MalformedRemaingLength)?;
                     id
                 } else {
                     None
                 };
 
-                len -= size_of::<u16>() + topic.len();
+                len = len
+                    .checked_sub(size_of::<u16>() + topic.len())
+                    .ok_or(MqttError::MalformedRemaingLength)?;
 
                 let payload = unpack_bytes(iter, len)?;
 
@@ -551,7 +555,9 @@ impl VariableHeader {
                 // # Variable header
 
                 let packet_id = unpack_u16(iter)?;
-                len -= size_of::<u16>();
+                len = len
+                    .checked_sub(size_of::<u16>())
+                    .ok_or(MqttError::MalformedRemaingLength)?;
 
                 // # Payload
                 /*
@@ -563,13 +569,17 @@ impl VariableHeader {
                 let mut tuples = Vec::new();
                 while len > 0 {
                     let topic = unpack_string(iter)?;
-                    len -= topic.len() + size_of::<u16>();
+                    len = len
+                        .checked_sub(topic.len() + size_of::<u16>())
+                        .ok_or(MqttError::MalformedRemaingLength)?;
 
                     let qos = QosLevel::try_from(
                         *iter.next().ok_or_else(|| MqttError::MalformedHeader)?,
                     )?;
 
-                    len -= size_of::<u8>();
+                    len = len
+                        .checked_sub(size_of::<u8>())
+                        .ok_or(MqttError::MalformedRemaingLength)?;
 
                     tuples.push((topic, qos));
                 }
@@ -588,7 +598,10 @@ impl VariableHeader {
             PacketType::Suback => {
                 let packet_id = unpack_u16(iter)?;
 
-                let mut len = fixed.get_remaing_len() - size_of::<u16>();
+                let mut len = fixed
+                    .get_remaing_len()
+                    .checked_sub(size_of::<u16>())
+                    .ok_or(MqttError::MalformedRemaingLength)?;
 
                 let mut return_codes = Vec::new();
                 while len > 0 {
@@ -596,7 +609,9 @@ impl VariableHeader {
 
                     return_codes.push(SubackReturnCode::try_from(byte)?);
 
-                    len -= size_of::<u8>()
+                    len = len
+                        .checked_sub(size_of::<u8>())
+                        .ok_or(MqttError::MalformedRemaingLength)?;
                 }
 
                 Ok(Self::SubAck {
@@ -610,13 +625,19 @@ impl VariableHeader {
                 let mut len = fixed.get_remaing_len();
                 let mut tuples = Vec::<String>::new();
                 let packet_id = unpack_u16(iter)?;
-                len -= size_of::<u16>();
+                len = len
+                    .checked_sub(size_of::<u16>())
+                    .ok_or(MqttError::MalformedRemaingLength)?;
 
                 while len > 0 {
-                    len -= size_of::<u16>();
+                    len = len
+                        .checked_sub(size_of::<u16>())
+                        .ok_or(MqttError::MalformedRemaingLength)?;
 
                     let topic = unpack_string(iter)?;
-                    len -= topic.len();
+                    len = len
+                        .checked_sub(topic.len())
+                        .ok_or(MqttError::MalformedRemaingLength)?;
 
                     tuples.push(topic);
                 }
-- 
2.43.0


From 47ca96529e3dbd5c54ffb34308dfa58c6fa4188a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:42 +0000
Subject: [PATCH 04/29] fix: parse a packet from exactly the bytes its
 remaining length covers

A packet could read fields out of the bytes of the next packet in the
buffer, and bytes it did not use were skipped silently.
---
 src/packets/mod.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/packets/mod.rs b/src/packets/mod.rs
index caca6d4..6257bfe 100644
--- a/src/packets/mod.rs
+++ b/src/packets/mod.rs
@@ -840,9 +840,21 @@ impl Packet {
 
         let fixed = FixedHeader::from_bytes(&mut iter, None)?;
 
-        let len = fixed.get_remaing_len() + fixed.get_rl_len() + 1;
+        let header_len = fixed.get_rl_len() + 1;
+        let len = fixed.get_remaing_len() + header_len;
+
+        if bytes.len() < len {
+            return Err(MqttError::MissingByte);
+        }
+
+        // Only the bytes that belong to this packet may be read, and all of them must be.
+        let mut body = bytes[header_len..len].iter();
+
+        let variable = VariableHeader::unpack(&mut body, &fixed, protocal)?;
+        if body.next().is_some() {
+            return Err(MqttError::MalformedRemaingLength);
+        }
 
-        let variable = VariableHeader::unpack(&mut iter, &fixed, protocal)?;
         Ok((Self { fixed, variable }, len))
     }
 }
-- 
2.43.0


From c04469f05ffef2605328237ba4f475785b193545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:02 +0000
Subject: [PATCH 05/29] fix: refuse packets with invalid reserved header flags
 [MQTT-2.2.2-2]

SUBSCRIBE only looked at them with a condition that was almost never true,
the other packet types not at all.
---
 src/packets/headers/fixed_header.rs | 9 +++++++++
 src/packets/mod.rs                  | 7 ++++---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/packets/headers/fixed_header.rs b/src/packets/headers/fixed_header.rs
index 50fa549..93c0814 100644
--- a/src/packets/headers/fixed_header.rs
+++ b/src/packets/headers/fixed_header.rs
@@ -141,6 +141,15 @@ impl FixedHeader {
     pub fn get_retain(&self) -> bool {
         self.flags & 0x01 == 1
     }
+    /// The flag bits of every packet type but PUBLISH are reserved [MQTT-2.2.2-1] [MQTT-2.2.2-2].
+    pub fn has_valid_flags(&self) -> Result<bool, MqttError> {
+        let flags = self.flags & 0x0F;
+        Ok(match self.get_packet_type()? {
+            PacketType::Publish => true,
+            PacketType::Pubrel | PacketType::Subscribe | PacketType::Unsubscribe => flags == 0x02,
+            _ => flags == 0x00,
+        })
+    }
     pub fn get_remaing_len(&self) -> usize {
         self.remaining_len
     }
diff --git a/src/packets/mod.rs b/src/packets/mod.rs
index 6257bfe..4ad3027 100644
--- a/src/packets/mod.rs
+++ b/src/packets/mod.rs
@@ -342,6 +342,10 @@ impl VariableHeader {
     where
         I: Iterator<Item = &'a u8>,
     {
+        if !fixed.has_valid_flags()? {
+            return Err(MqttError::MalformedHeader);
+        }
+
         match fixed.get_packet_type()? {
             PacketType::Connect => {
                 //  ===== Start Connect header =======
@@ -547,9 +551,6 @@ impl VariableHeader {
                 })
             }
             PacketType::Subscribe => {
-                if !fixed.get_dup() && fixed.get_qos()? != QosLevel::AtLeast && fixed.get_retain() {
-                    return Err(MqttError::MalformedHeader);
-                }
                 let mut len = fixed.get_remaing_len();
 
                 // # Variable header
-- 
2.43.0


From 28a682adcf031878aa768128cef254df1c97d18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:03 +0000
Subject: [PATCH 06/29] fix: refuse UNSUBSCRIBE without a topic filter
 [MQTT-3.10.3-2]

---
 src/packets/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/packets/mod.rs b/src/packets/mod.rs
index 4ad3027..4745c3a 100644
--- a/src/packets/mod.rs
+++ b/src/packets/mod.rs
@@ -643,6 +643,10 @@ impl VariableHeader {
                     tuples.push(topic);
                 }
 
+                if tuples.is_empty() {
+                    return Err(MqttError::ProtocolViolation);
+                }
+
                 Ok(Self::Unsubscribe {
                     packet_id,
                     tuples,
-- 
2.43.0


From 877d0e8fc16e049688d897af774c8199c99b0491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:17 +0000
Subject: [PATCH 07/29] fix: refuse packet identifier zero [MQTT-2.3.1-1]

---
 src/packets/mod.rs   | 10 ++++++----
 src/packets/utils.rs | 11 +++++++++++
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/packets/mod.rs b/src/packets/mod.rs
index 4745c3a..ceeb096 100644
--- a/src/packets/mod.rs
+++ b/src/packets/mod.rs
@@ -11,7 +11,9 @@ use crate::{
 use self::{
     enums::{ConnectReturnCode, QosLevel, SubackReturnCode},
     headers::{connack::AcknowledgeFlags, connect::Flags},
-    utils::{encode_length, unpack_bytes, unpack_properties, unpack_string, unpack_u16},
+    utils::{
+        encode_length, unpack_bytes, unpack_packet_id, unpack_properties, unpack_string, unpack_u16,
+    },
 };
 
 #[repr(u8)]
@@ -486,7 +488,7 @@ impl VariableHeader {
                 let mut len = fixed.get_remaing_len();
 
                 let packet_id = if fixed.get_qos()? > QosLevel::AtMost {
-                    let id = Some(unpack_u16(iter)?);
+                    let id = Some(unpack_packet_id(iter)?);
                     len = len
                         .checked_sub(size_of::<u16>())
                         .ok_or(MqttError::MalformedRemaingLength)?;
@@ -555,7 +557,7 @@ impl VariableHeader {
 
                 // # Variable header
 
-                let packet_id = unpack_u16(iter)?;
+                let packet_id = unpack_packet_id(iter)?;
                 len = len
                     .checked_sub(size_of::<u16>())
                     .ok_or(MqttError::MalformedRemaingLength)?;
@@ -625,7 +627,7 @@ impl VariableHeader {
             PacketType::Unsubscribe => {
                 let mut len = fixed.get_remaing_len();
                 let mut tuples = Vec::<String>::new();
-                let packet_id = unpack_u16(iter)?;
+                let packet_id = unpack_packet_id(iter)?;
                 len = len
                     .checked_sub(size_of::<u16>())
                     .ok_or(MqttError::MalformedRemaingLength)?;
diff --git a/src/packets/utils.rs b/src/packets/utils.rs
index 72adaa4..70cb383 100644
--- a/src/packets/utils.rs
+++ b/src/packets/utils.rs
@@ -33,6 +33,17 @@ where
     Ok(u16::from_be_bytes(bytes))
 }
 
+/// Unpack the packet identifier of a SUBSCRIBE, UNSUBSCRIBE or PUBLISH (QoS > 0) packet, which must not be zero [MQTT-2.3.1-1].
+pub fn unpack_packet_id<'a, I>(iter: &mut I) -> Result<u16, MqttError>
+where
+    I: Iterator<Item = &'a u8>,
+{
+    match unpack_u16(iter)? {
+        0 => Err(MqttError::ProtocolViolation),
+        id => Ok(id),
+    }
+}
+
 /// Unpack bytes into a u32
 ///
 /// Four Byte Integer data values are 32-bit unsigned integers in big-endian order: the high order byte precedes the successively lower order bytes. This means that a 32-bit word is presented on the network as Most Significant Byte (MSB), followed by the next most Significant Byte (MSB), followed by the next most Significant Byte (MSB), followed by Least Significant Byte (LSB).
-- 
2.43.0


From 0773d5a4b34310144094471701b8f8dbf9889605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:32 +0000
Subject: [PATCH 08/29] fix: refuse CONNECT with contradictory connect flags

[MQTT-3.1.2-13] [MQTT-3.1.2-14] [MQTT-3.1.2-15] [MQTT-3.1.2-22]
---
 src/packets/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/packets/mod.rs b/src/packets/mod.rs
index ceeb096..c65242b 100644
--- a/src/packets/mod.rs
+++ b/src/packets/mod.rs
@@ -378,6 +378,16 @@ impl VariableHeader {
                     return Err(MqttError::MalformedHeader);
                 }
 
+                // Will QoS must be valid, and zero like Will Retain without the Will Flag
+                // [MQTT-3.1.2-13] [MQTT-3.1.2-14] [MQTT-3.1.2-15], and a password needs a user name [MQTT-3.1.2-22]
+                let will_qos = flags.will_qos()?;
+                if !flags.will() && (will_qos != QosLevel::AtMost || flags.will_retain()) {
+                    return Err(MqttError::MalformedHeader);
+                }
+                if flags.has_password() && !flags.has_username() {
+                    return Err(MqttError::MalformedHeader);
+                }
+
                 let keepalive = unpack_u16(iter)?;
 
                 let props = if protocol_version == ProtocalVersion::Five {
-- 
2.43.0


From 407b1b1220d63cc0cba82c3e4adb64dcab1d422f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:44 +0000
Subject: [PATCH 09/29] fix: the will message is binary data, not a UTF-8
 string

---
 src/packets/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/packets/mod.rs b/src/packets/mod.rs
index c65242b..8ca39f8 100644
--- a/src/packets/mod.rs
+++ b/src/packets/mod.rs
@@ -74,7 +74,7 @@ pub enum VariableHeader {
         username: Option<String>,
         password: Option<String>,
         will_topic: Option<String>,
-        will_message: Option<String>,
+        will_message: Option<Bytes>,
         protocol_version: ProtocalVersion,
 
         session_expiry_interval: Option<u32>,
@@ -250,7 +250,7 @@ impl VariableHeader {
                     }
                     if let Some(wm) = will_message {
                         bytes.put_u16(wm.len() as u16);
-                        bytes.put(wm.as_bytes());
+                        bytes.put(wm);
                     }
                 }
 
@@ -420,7 +420,8 @@ impl VariableHeader {
                     };
 
                     let will_topic = unpack_string(iter)?;
-                    let will_payload = unpack_string(iter)?;
+                    let will_len = unpack_u16(iter)?;
+                    let will_payload = unpack_bytes(iter, usize::from(will_len))?;
 
                     (Some(will_topic), Some(will_payload), props)
                 } else {
-- 
2.43.0


From b6c7e19ed4b9c001d4a3990242d943b44252c54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:46 +0000
Subject: [PATCH 10/29] fix: the password is binary data, not a UTF-8 string

---
 src/packets/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/packets/mod.rs b/src/packets/mod.rs
index 8ca39f8..aeb7057 100644
--- a/src/packets/mod.rs
+++ b/src/packets/mod.rs
@@ -72,7 +72,7 @@ pub enum VariableHeader {
 
         client_id: String,
         username: Option<String>,
-        password: Option<String>,
+        password: Option<Bytes>,
         will_topic: Option<String>,
         will_message: Option<Bytes>,
         protocol_version: ProtocalVersion,
@@ -264,7 +264,7 @@ impl VariableHeader {
                 if has_psd {
                     if let Some(psd) = password {
                         bytes.put_u16(psd.len() as u16);
-                        bytes.put(psd.as_bytes());
+                        bytes.put(psd);
                     }
                 }
             }
@@ -435,7 +435,8 @@ impl VariableHeader {
                 };
 
                 let password = if flags.has_password() {
-                    Some(unpack_string(iter)?)
+                    let password_len = unpack_u16(iter)?;
+                    Some(unpack_bytes(iter, usize::from(password_len))?)
                 } else {
                     None
                 };
-- 
2.43.0


From 35385d0a6af52694f54cc8b2293dfc76def6087c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:02 +0000
Subject: [PATCH 11/29] fix: '+' filters must match next to a literal sibling

The literal and the '+' branch shared one iterator over the topic levels,
so whichever was tried first consumed the levels of the other: with
subscriptions to a/x and +/b, a publish to a/b reached nobody.
---
 src/topic_heir.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/topic_heir.rs b/src/topic_heir.rs
index dca804c..fb6e670 100644
--- a/src/topic_heir.rs
+++ b/src/topic_heir.rs
@@ -116,17 +116,17 @@ impl SubHier {
 
     pub fn get(
         &self,
-        iter: &mut impl std::iter::Iterator<Item = String>,
+        levels: &[String],
         subscribers: &mut Vec<(u128, Sender<ClientEvent>, QosLevel)>,
         share: &Option<String>,
     ) {
-        if let Some(topic) = iter.next() {
-            if let Some(child) = self.children.get(&topic) {
-                child.get(iter, subscribers, share);
+        if let Some((topic, levels)) = levels.split_first() {
+            if let Some(child) = self.children.get(topic) {
+                child.get(levels, subscribers, share);
             }
 
             if let Some(child) = self.children.get("+") {
-                child.get(iter, subscribers, share);
+                child.get(levels, subscribers, share);
             }
         } else if let Some(share) = share {
             if let Some(s) = self.shared.get(share) {
@@ -208,15 +208,13 @@ impl SubscriptionTree {
         let mut subscribers = Vec::new();
         let (filter_list, sharename) = utils::tokenise_topic(filter)?;
 
-        let mut iter = filter_list.into_iter();
-
-        if let Some(topic) = iter.next() {
-            if let Some(child) = self.0.get(&topic) {
-                child.get(&mut iter, &mut subscribers, &sharename);
+        if let Some((topic, levels)) = filter_list.split_first() {
+            if let Some(child) = self.0.get(topic) {
+                child.get(levels, &mut subscribers, &sharename);
             }
             // single level '+' match
             if let Some(child) = self.0.get("+") {
-                child.get(&mut iter, &mut subscribers, &sharename);
+                child.get(levels, &mut subscribers, &sharename);
             }
         }
 
-- 
2.43.0


From 0e7faad0b4ee6b255e1e10876592b51ca768035c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:25 +0000
Subject: [PATCH 12/29] fix: leading wildcards must not match topics that begin
 with '$' [MQTT-4.7.2-1]

---
 src/topic_heir.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/topic_heir.rs b/src/topic_heir.rs
index fb6e670..7956d70 100644
--- a/src/topic_heir.rs
+++ b/src/topic_heir.rs
@@ -212,6 +212,12 @@ impl SubscriptionTree {
             if let Some(child) = self.0.get(topic) {
                 child.get(levels, &mut subscribers, &sharename);
             }
+
+            // a leading wildcard does not match topics that begin with '$' [MQTT-4.7.2-1]
+            if topic.starts_with('$') {
+                return Ok(subscribers);
+            }
+
             // single level '+' match
             if let Some(child) = self.0.get("+") {
                 child.get(levels, &mut subscribers, &sharename);
-- 
2.43.0


From 9fd8916a6f3a702f4b9c98018dcb62298e87ae37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:57 +0000
Subject: [PATCH 13/29] fix: overlapping subscriptions are served at their
 highest QoS [MQTT-3.3.5-1]

---
 src/topic_heir.rs | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/src/topic_heir.rs b/src/topic_heir.rs
index 7956d70..6e60b7c 100644
--- a/src/topic_heir.rs
+++ b/src/topic_heir.rs
@@ -33,6 +33,21 @@ impl SubscriptionLeaf {
     }
 }
 
+/// Add the subscriber once, at the highest QoS of its matching subscriptions [MQTT-3.3.5-1].
+fn add_subscriber(
+    subscribers: &mut Vec<(u128, Sender<ClientEvent>, QosLevel)>,
+    leaf: &SubscriptionLeaf,
+) {
+    match subscribers.iter().position(|e| e.0 == leaf.identifier) {
+        Some(idx) => {
+            if subscribers[idx].2 < leaf.qos {
+                subscribers[idx].2 = leaf.qos;
+            }
+        }
+        None => subscribers.push((leaf.identifier, leaf.bridge.clone(), leaf.qos)),
+    }
+}
+
 #[derive(Debug)]
 struct SubHier {
     children: DashMap<String, SubHier>,
@@ -131,16 +146,12 @@ impl SubHier {
         } else if let Some(share) = share {
             if let Some(s) = self.shared.get(share) {
                 for x in s.iter() {
-                    if !subscribers.iter().any(|e| e.0 == x.identifier) {
-                        subscribers.push((x.identifier, x.bridge.clone(), x.qos));
-                    }
+                    add_subscriber(subscribers, x);
                 }
             }
         } else {
             for x in &self.subs {
-                if !subscribers.iter().any(|e| e.0 == x.identifier) {
-                    subscribers.push((x.identifier, x.bridge.clone(), x.qos));
-                }
+                add_subscriber(subscribers, x);
             }
         }
 
@@ -148,16 +159,12 @@ impl SubHier {
             if let Some(share) = share {
                 if let Some(s) = child.shared.get(share) {
                     for x in s.iter() {
-                        if !subscribers.iter().any(|e| e.0 == x.identifier) {
-                            subscribers.push((x.identifier, x.bridge.clone(), x.qos));
-                        }
+                        add_subscriber(subscribers, x);
                     }
                 }
             } else {
                 for x in &child.subs {
-                    if !subscribers.iter().any(|e| e.0 == x.identifier) {
-                        subscribers.push((x.identifier, x.bridge.clone(), x.qos));
-                    }
+                    add_subscriber(subscribers, x);
                 }
             }
         }
@@ -229,16 +236,12 @@ impl SubscriptionTree {
             if let Some(share) = sharename {
                 if let Some(s) = child.shared.get(&share) {
                     for x in s.iter() {
-                        if !subscribers.iter().any(|e| e.0 == x.identifier) {
-                            subscribers.push((x.identifier, x.bridge.clone(), x.qos));
-                        }
+                        add_subscriber(&mut subscribers, x);
                     }
                 }
             } else {
                 for x in &child.subs {
-                    if !subscribers.iter().any(|e| e.0 == x.identifier) {
-                        subscribers.push((x.identifier, x.bridge.clone(), x.qos));
-                    }
+                    add_subscriber(&mut subscribers, x);
                 }
             }
         }
-- 
2.43.0


From 9a554c6368364a7a69106e12b9d9933992f919ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:58 +0000
Subject: [PATCH 14/29] fix: refuse invalid topic filters in SUBSCRIBE

[MQTT-4.7.1-2] [MQTT-4.7.1-3] [MQTT-4.7.3-1]
---
 src/topic_heir.rs |  3 +++
 src/utils.rs      | 21 +++++++++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/topic_heir.rs b/src/topic_heir.rs
index 6e60b7c..0f94a0d 100644
--- a/src/topic_heir.rs
+++ b/src/topic_heir.rs
@@ -180,6 +180,9 @@ impl SubscriptionTree {
     }
     pub fn insert(&mut self, filter: String, sub: SubscriptionLeaf) -> Result<(), u8> {
         let (filter_list, sharename) = utils::tokenise_topic(filter)?;
+        if !utils::is_valid_filter(&filter_list) {
+            return Err(2);
+        }
 
         let mut iter = filter_list.into_iter();
 
diff --git a/src/utils.rs b/src/utils.rs
index 0ade54f..9358525 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -20,6 +20,27 @@ pub fn tokenise_topic(value: String) -> Result<(Vec<String>, Option<String>), u8
     Ok((topic.iter().map(|x| x.to_string()).collect(), sharename))
 }
 
+/// A topic filter is not empty [MQTT-4.7.3-1], has '#' only as its last level [MQTT-4.7.1-2]
+/// and '+' only as a complete level [MQTT-4.7.1-3]
+pub fn is_valid_filter(levels: &[String]) -> bool {
+    if levels.len() == 1 && levels[0].is_empty() {
+        return false;
+    }
+
+    for idx in 0..levels.len() {
+        let level = &levels[idx];
+        if level == "#" {
+            if idx + 1 != levels.len() {
+                return false;
+            }
+        } else if level != "+" && (level.contains('#') || level.contains('+')) {
+            return false;
+        }
+    }
+
+    true
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 8aeea6d4b6083d10512c86af410930d3e841a8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:58 +0000
Subject: [PATCH 15/29] fix: refuse PUBLISH to an empty topic or one with
 wildcards [MQTT-3.3.2-2] [MQTT-4.7.3-1]

---
 src/packets/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/packets/mod.rs b/src/packets/mod.rs
index aeb7057..bba1090 100644
--- a/src/packets/mod.rs
+++ b/src/packets/mod.rs
@@ -492,6 +492,10 @@ impl VariableHeader {
             }
             PacketType::Publish => {
                 let topic = unpack_string(iter)?;
+                // a topic name is not empty and has no wildcards [MQTT-4.7.3-1] [MQTT-3.3.2-2]
+                if topic.is_empty() || topic.contains('#') || topic.contains('+') {
+                    return Err(MqttError::ProtocolViolation);
+                }
 
                 /*
                  * Message len is calculated subtracting the length of the variable header
-- 
2.43.0


From 3b83e57dd04ee69e3407cabe2a2b02582a7425fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:59 +0000
Subject: [PATCH 16/29] fix: refuse U+0000 in strings [MQTT-1.5.3-2]

---
 src/packets/utils.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/packets/utils.rs b/src/packets/utils.rs
index 70cb383..697e88f 100644
--- a/src/packets/utils.rs
+++ b/src/packets/utils.rs
@@ -115,6 +115,11 @@ where
         return Err(MqttError::MissingByte);
     }
 
+    // U+0000 must not be used in a string [MQTT-1.5.3-2]
+    if chars.contains(&0) {
+        return Err(MqttError::ProtocolViolation);
+    }
+
     let result = String::from_utf8(chars).map_err(MqttError::MalformedString)?;
 
     Ok(result)
-- 
2.43.0


From 721524de7bee36b3ba87eb07272e71ebb7f47e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:46 +0000
Subject: [PATCH 17/29] fix: deliver QoS 1 and 2 with a packet identifier, on
 the session's connection

Publishes to QoS > 0 subscribers had no packet identifier, so receivers read
the first two payload bytes as one. They also went to the connection that
subscribed rather than to the one that has taken the session over.
---
 src/core/mod.rs     | 26 +++++++++++++++++++++-----
 src/core/session.rs | 17 ++++++++++++++++-
 2 files changed, 37 insertions(+), 6 deletions(-)

diff --git a/src/core/mod.rs b/src/core/mod.rs
index 61f2080..8645334 100644
--- a/src/core/mod.rs
+++ b/src/core/mod.rs
@@ -135,7 +135,7 @@ impl App {
         self.sessions.remove(&cid);
     }
 
-    pub async fn publish(&self, topic: String, payload: Bytes) {
+    pub async fn publish(&mut self, topic: String, payload: Bytes) {
         let subs = match self.subscriptions.get(topic.clone()) {
             Ok(subs) => subs,
             Err(_) => {
@@ -143,10 +143,26 @@ impl App {
             }
         };
 
-        for (_, bridge, qos) in subs {
-            let packet =
-                Packet::make_publish(false, qos, false, topic.clone(), None, payload.clone());
-            if let Err(e) = bridge.send(ClientEvent::Message(packet)).await {
+        for (id, _, qos) in subs {
+            // deliver on the current connection of the session that subscribed
+            let session = match self.sessions.values_mut().find(|s| s.id == id) {
+                Some(session) => session,
+                None => continue,
+            };
+            let packet_id = if qos > QosLevel::AtMost {
+                Some(session.next_packet_id())
+            } else {
+                None
+            };
+            let packet = Packet::make_publish(
+                false,
+                qos,
+                false,
+                topic.clone(),
+                packet_id,
+                payload.clone(),
+            );
+            if let Err(e) = session.bridge.send(ClientEvent::Message(packet)).await {
                 log::error!("receiver dropped: {}", e);
             }
         }
diff --git a/src/core/session.rs b/src/core/session.rs
index cac0152..30123d1 100644
--- a/src/core/session.rs
+++ b/src/core/session.rs
@@ -6,12 +6,27 @@ use super::enums::ClientEvent;
 pub struct Session {
     pub id: u128,
     pub bridge: Sender<ClientEvent>,
+    last_packet_id: u16,
 }
 
 impl Session {
     pub fn new(bridge: Sender<ClientEvent>) -> Self {
         let id = Uuid::new_v4().as_u128();
 
-        Self { id, bridge }
+        Self {
+            id,
+            bridge,
+            last_packet_id: 0,
+        }
+    }
+
+    /// Packet identifier for the next delivery with QoS > 0, never zero [MQTT-2.3.1-1]
+    pub fn next_packet_id(&mut self) -> u16 {
+        self.last_packet_id = if self.last_packet_id == u16::MAX {
+            1
+        } else {
+            self.last_packet_id + 1
+        };
+        self.last_packet_id
     }
 }
-- 
2.43.0


From 29f2e59e0f38c8e41565e763330fec1ece64d662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:48 +0000
Subject: [PATCH 18/29] fix: deliver at the minimum of the published and the
 granted QoS [MQTT-3.8.4-6]

---
 src/core/enums.rs | 1 +
 src/core/mod.rs   | 6 ++++--
 src/handler.rs    | 1 +
 src/main.rs       | 6 +++++-
 4 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/core/enums.rs b/src/core/enums.rs
index fe5da56..2f4c3eb 100644
--- a/src/core/enums.rs
+++ b/src/core/enums.rs
@@ -25,6 +25,7 @@ pub enum Command {
 
     Publish {
         topic: String,
+        qos: QosLevel,
         payload: Bytes,
     },
     Unsubscribe {
diff --git a/src/core/mod.rs b/src/core/mod.rs
index 8645334..903bc11 100644
--- a/src/core/mod.rs
+++ b/src/core/mod.rs
@@ -135,7 +135,7 @@ impl App {
         self.sessions.remove(&cid);
     }
 
-    pub async fn publish(&mut self, topic: String, payload: Bytes) {
+    pub async fn publish(&mut self, topic: String, publish_qos: QosLevel, payload: Bytes) {
         let subs = match self.subscriptions.get(topic.clone()) {
             Ok(subs) => subs,
             Err(_) => {
@@ -143,7 +143,9 @@ impl App {
             }
         };
 
-        for (id, _, qos) in subs {
+        for (id, _, granted_qos) in subs {
+            // never above the QoS the message was published with [MQTT-3.8.4-6]
+            let qos = granted_qos.min(publish_qos);
             // deliver on the current connection of the session that subscribed
             let session = match self.sessions.values_mut().find(|s| s.id == id) {
                 Some(session) => session,
diff --git a/src/handler.rs b/src/handler.rs
index 5088d23..d206438 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -168,6 +168,7 @@ where
                             message_bridge
                             .send(Command::Publish {
                                 topic,
+                                qos: packet.fixed.get_qos()?,
                                 payload,
                             })
                             .await
diff --git a/src/main.rs b/src/main.rs
index 7325fdb..94f8828 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -73,7 +73,11 @@ async fn main() -> Result<(), MqttError> {
                     callback,
                 } => context.subscribe(client, topics, callback),
 
-                Command::Publish { topic, payload } => context.publish(topic, payload).await,
+                Command::Publish {
+                    topic,
+                    qos,
+                    payload,
+                } => context.publish(topic, qos, payload).await,
                 Command::Unsubscribe {
                     topics,
                     cid,
-- 
2.43.0


From 1fef9c334fa73bc59c57273569e5e65eb2e56efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:30 +0000
Subject: [PATCH 19/29] fix: format core/mod.rs

---
 src/core/mod.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/core/mod.rs b/src/core/mod.rs
index 903bc11..09ae9a2 100644
--- a/src/core/mod.rs
+++ b/src/core/mod.rs
@@ -156,14 +156,8 @@ impl App {
             } else {
                 None
             };
-            let packet = Packet::make_publish(
-                false,
-                qos,
-                false,
-                topic.clone(),
-                packet_id,
-                payload.clone(),
-            );
+            let packet =
+                Packet::make_publish(false, qos, false, topic.clone(), packet_id, payload.clone());
             if let Err(e) = session.bridge.send(ClientEvent::Message(packet)).await {
                 log::error!("receiver dropped: {}", e);
             }
-- 
2.43.0


From f1dbced70f6dfd544a653010c28a57428128f74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:32 +0000
Subject: [PATCH 20/29] fix: honour the clean session flag and report session
 present [MQTT-3.1.2-4] [MQTT-3.1.2-6] [MQTT-3.2.2-2]

---
 src/core/enums.rs   |  2 +-
 src/core/mod.rs     | 34 +++++++++++++++++++++-------------
 src/core/session.rs |  4 +++-
 src/handler.rs      |  6 +++---
 4 files changed, 28 insertions(+), 18 deletions(-)

diff --git a/src/core/enums.rs b/src/core/enums.rs
index 2f4c3eb..5a1cec7 100644
--- a/src/core/enums.rs
+++ b/src/core/enums.rs
@@ -14,7 +14,7 @@ pub enum Command {
         message_channel: Receiver<ClientEvent>,
         protocol: ProtocalVersion,
         clean_session: bool,
-        callback: Responder<Result<(), MqttError>>,
+        callback: Responder<Result<bool, MqttError>>,
     },
 
     Subscribe {
diff --git a/src/core/mod.rs b/src/core/mod.rs
index 09ae9a2..cfe2326 100644
--- a/src/core/mod.rs
+++ b/src/core/mod.rs
@@ -104,8 +104,8 @@ impl App {
         client_id: String,
         message_channel: Sender<ClientEvent>,
         _protocol: ProtocalVersion,
-        _clean_session: bool,
-        callback: tokio::sync::oneshot::Sender<Result<(), MqttError>>,
+        clean_session: bool,
+        callback: tokio::sync::oneshot::Sender<Result<bool, MqttError>>,
     ) {
         debug!("New client connecting with id of '{}'", client_id);
         if self.sessions.contains_key(&client_id) {
@@ -116,23 +116,31 @@ impl App {
             }
         }
 
-        if let Some(existing_client) = self.sessions.get_mut(&client_id) {
-            existing_client.bridge = message_channel;
-        } else {
-            self.sessions
-                .insert(client_id, Session::new(message_channel));
-        }
+        // a stored session is only resumed when neither side of it is clean [MQTT-3.1.2-4] [MQTT-3.1.2-6]
+        let session_present = match self.sessions.get_mut(&client_id) {
+            Some(existing_client) if !clean_session && !existing_client.clean => {
+                existing_client.bridge = message_channel;
+                true
+            }
+            _ => {
+                self.sessions
+                    .insert(client_id, Session::new(message_channel, clean_session));
+                false
+            }
+        };
 
-        if callback.send(Ok(())).is_err() {
+        if callback.send(Ok(session_present)).is_err() {
             log::error!("Client no longer exists");
         }
     }
 
     pub fn disconnect(&mut self, cid: String) {
-        /*if let Some(client) = self.sessions.get(&cid) {
-
-        }*/
-        self.sessions.remove(&cid);
+        // a session that is not clean outlives its connection [MQTT-3.1.2-4]
+        if let Some(client) = self.sessions.get(&cid) {
+            if client.clean {
+                self.sessions.remove(&cid);
+            }
+        }
     }
 
     pub async fn publish(&mut self, topic: String, publish_qos: QosLevel, payload: Bytes) {
diff --git a/src/core/session.rs b/src/core/session.rs
index 30123d1..0a5cd9c 100644
--- a/src/core/session.rs
+++ b/src/core/session.rs
@@ -6,16 +6,18 @@ use super::enums::ClientEvent;
 pub struct Session {
     pub id: u128,
     pub bridge: Sender<ClientEvent>,
+    pub clean: bool,
     last_packet_id: u16,
 }
 
 impl Session {
-    pub fn new(bridge: Sender<ClientEvent>) -> Self {
+    pub fn new(bridge: Sender<ClientEvent>, clean: bool) -> Self {
         let id = Uuid::new_v4().as_u128();
 
         Self {
             id,
             bridge,
+            clean,
             last_packet_id: 0,
         }
     }
diff --git a/src/handler.rs b/src/handler.rs
index d206438..bc6b22a 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -90,7 +90,7 @@ where
 
                             protocol = protocol_version;
 
-                            let (r_tx, r_rx) = tokio::sync::oneshot::channel::<Result<(), MqttError>>();
+                            let (r_tx, r_rx) = tokio::sync::oneshot::channel::<Result<bool, MqttError>>();
                             cid = Some(client_id.clone());
 
                             if message_bridge
@@ -106,12 +106,12 @@ where
                                 break 'ctrl;
                           }
 
-                          r_rx.await.map_err(|_| MqttError::QueuePoisonError)??;
+                          let session_present = r_rx.await.map_err(|_| MqttError::QueuePoisonError)??;
                           has_connected = true;
                           keepalive_duration = (keepalive as u64) + 4;
                           keepalive_timer.as_mut().reset(Instant::now() + Duration::from_secs(keepalive_duration));
 
-                          let resp = Packet::make_connack(ConnectReturnCode::Accepted,false);
+                          let resp = Packet::make_connack(ConnectReturnCode::Accepted, session_present);
 
                           let len = writer.write(&resp).await?;
                           debug!("Wrote {} bytes", len);
-- 
2.43.0


From fc769658ac3db204beddbfeb19f1991767355dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:07 +0000
Subject: [PATCH 21/29] fix: a replaced connection's DISCONNECT must not end
 the session of the newer one

---
 src/core/enums.rs | 2 +-
 src/core/mod.rs   | 7 ++++---
 src/handler.rs    | 2 +-
 src/main.rs       | 4 +++-
 4 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/core/enums.rs b/src/core/enums.rs
index 5a1cec7..3f8f58d 100644
--- a/src/core/enums.rs
+++ b/src/core/enums.rs
@@ -33,7 +33,7 @@ pub enum Command {
         cid: String,
         callback: Responder<Result<(), MqttError>>,
     },
-    DisconnectClient(String),
+    DisconnectClient(String, Receiver<ClientEvent>),
     Exit,
 }
 
diff --git a/src/core/mod.rs b/src/core/mod.rs
index cfe2326..a8379db 100644
--- a/src/core/mod.rs
+++ b/src/core/mod.rs
@@ -134,10 +134,11 @@ impl App {
         }
     }
 
-    pub fn disconnect(&mut self, cid: String) {
-        // a session that is not clean outlives its connection [MQTT-3.1.2-4]
+    pub fn disconnect(&mut self, cid: String, message_channel: Sender<ClientEvent>) {
+        // a session that is not clean outlives its connection [MQTT-3.1.2-4],
+        // and one taken over by a newer connection is no longer this connection's to end
         if let Some(client) = self.sessions.get(&cid) {
-            if client.clean {
+            if client.clean && client.bridge.same_channel(&message_channel) {
                 self.sessions.remove(&cid);
             }
         }
diff --git a/src/handler.rs b/src/handler.rs
index bc6b22a..5644861 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -214,7 +214,7 @@ where
                             debug!("Disconnect Called");
                             let id = cid.as_ref().ok_or_else(|| MqttError::FailedToGetCId)?;
                             if message_bridge
-                            .send(Command::DisconnectClient(id.clone()))
+                            .send(Command::DisconnectClient(id.clone(), tx.clone()))
                             .await
                             .is_err()
                             {
diff --git a/src/main.rs b/src/main.rs
index 94f8828..169a0ce 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -83,7 +83,9 @@ async fn main() -> Result<(), MqttError> {
                     cid,
                     callback,
                 } => context.unsubscribe(cid, topics, callback),
-                Command::DisconnectClient(cid) => context.disconnect(cid),
+                Command::DisconnectClient(cid, message_channel) => {
+                    context.disconnect(cid, message_channel)
+                }
                 Command::Exit => break,
             }
         }
-- 
2.43.0


From ef147addbb76c0027398a596f9c91ae92c5e3368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:09 +0000
Subject: [PATCH 22/29] fix: end the handler when the client closes the
 connection instead of spinning

---
 src/handler.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/handler.rs b/src/handler.rs
index 5644861..145c67c 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -56,7 +56,8 @@ where
                     Ok(bytes) => {
                         let len = bytes.len();
                         if len == 0 {
-                            continue;
+                            debug!("Connection closed");
+                            break 'ctrl;
                         }
                         let (packet, packet_size) = Packet::unpack(bytes, protocol)?;
                         broker_info::sent_data(packet_size);
-- 
2.43.0


From 6abf3d88cb55bf39dbb7c2bec4d3688c7da8208c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:11 +0000
Subject: [PATCH 23/29] fix: write packets completely, a short write must not
 truncate one

---
 src/handler.rs | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/handler.rs b/src/handler.rs
index 145c67c..a0f6534 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -83,8 +83,8 @@ where
                                 // The Server MUST process a second CONNECT Packet sent from a Client as a protocol violation and disconnect the Client
                                 let resp = Packet::make_connack(ConnectReturnCode::V4UnacceptableProtocal,false);
 
-                                let len = writer.write(&resp).await?;
-                                debug!("Wrote {} bytes", len);
+                                writer.write_all(&resp).await?;
+                                debug!("Wrote {} bytes", resp.len());
 
                                 break 'ctrl;
                             }
@@ -114,8 +114,8 @@ where
 
                           let resp = Packet::make_connack(ConnectReturnCode::Accepted, session_present);
 
-                          let len = writer.write(&resp).await?;
-                          debug!("Wrote {} bytes", len);
+                          writer.write_all(&resp).await?;
+                          debug!("Wrote {} bytes", resp.len());
                         },
                         VariableHeader::Subscribe { packet_id, tuples,.. } => {
                             let id = cid.as_ref().ok_or_else(|| MqttError::FailedToGetCId)?;
@@ -138,8 +138,8 @@ where
 
                             let resp = Packet::make_suback(packet_id, codes);
 
-                            let len = writer.write(&resp).await?;
-                            debug!("Wrote {} bytes", len);
+                            writer.write_all(&resp).await?;
+                            debug!("Wrote {} bytes", resp.len());
                         },
                         VariableHeader::Unsubscribe { packet_id, tuples, .. } => {
                             let id = cid.as_ref().ok_or_else(|| MqttError::FailedToGetCId)?;
@@ -162,8 +162,8 @@ where
                             r_rx.await.map_err(|_| MqttError::QueuePoisonError)??;
 
                             let resp = Packet::make_unsuback(packet_id);
-                            let len = writer.write(&resp).await?;
-                            debug!("Wrote {} bytes", len);
+                            writer.write_all(&resp).await?;
+                            debug!("Wrote {} bytes", resp.len());
                         },
                         VariableHeader::Publish { topic, packet_id, payload, .. } => {
                             message_bridge
@@ -190,26 +190,26 @@ where
                             };
 
                             if let Some(resp) = data {
-                                let len = writer.write(&resp).await?;
-                                debug!("Wrote {} bytes", len);
+                                writer.write_all(&resp).await?;
+                                debug!("Wrote {} bytes", resp.len());
                             }
                         }
                         VariableHeader::PubRec { packet_id, .. } => {
                             let resp = Packet::make_pubrel(packet_id);
-                            let len = writer.write(&resp).await?;
-                            debug!("Wrote {} bytes", len);
+                            writer.write_all(&resp).await?;
+                            debug!("Wrote {} bytes", resp.len());
                         },
                         VariableHeader::PubRel { packet_id, .. } => {
                             let resp = Packet::make_pubcomp(packet_id);
-                            let len = writer.write(&resp).await?;
-                            debug!("Wrote {} bytes", len);
+                            writer.write_all(&resp).await?;
+                            debug!("Wrote {} bytes", resp.len());
                         },
                         VariableHeader::PubComp { packet_id: _, ..} | VariableHeader::PubAck { packet_id: _, .. } => {}
                         VariableHeader::PingReq => {
                             keepalive_timer.as_mut().reset(Instant::now() + Duration::from_secs(keepalive_duration));
                             let resp = Packet::make_ping_resp();
-                            let len = writer.write(&resp).await?;
-                            debug!("Wrote {} bytes", len);
+                            writer.write_all(&resp).await?;
+                            debug!("Wrote {} bytes", resp.len());
                         },
                         VariableHeader::Disconnect { .. } => {
                             debug!("Disconnect Called");
@@ -234,8 +234,8 @@ where
                 if let Some(ev) = event {
                     match ev {
                         ClientEvent::Message(msg) => {
-                            let len = writer.write(&msg).await?;
-                            debug!("Wrote {} bytes",len);
+                            writer.write_all(&msg).await?;
+                            debug!("Wrote {} bytes", msg.len());
                         },
                         ClientEvent::Disconnect => break 'ctrl,
                     }
-- 
2.43.0


From 8ff9ac3ba9cf774df227af15593314b82e123703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:13 +0000
Subject: [PATCH 24/29] fix: refuse packets before CONNECT [MQTT-3.1.0-1]

---
 src/handler.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/handler.rs b/src/handler.rs
index a0f6534..339b3ec 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -75,6 +75,12 @@ where
                     }
                 };
 
+                // the first packet of a connection must be a CONNECT [MQTT-3.1.0-1]
+                if !has_connected && !matches!(packet.variable, VariableHeader::Connect { .. }) {
+                    debug!("Seen a packet before the connect packet!");
+                    break 'ctrl;
+                }
+
                 match packet.variable {
                         VariableHeader::Connect { flags, keepalive, client_id, protocol_version, .. } => {
                             if has_connected {
-- 
2.43.0


From d0a096cfed0c8f9fc9cdb7fcb06ed7d0b53480f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:15 +0000
Subject: [PATCH 25/29] fix: forward a QoS 2 message once until its PUBREL
 [MQTT-4.3.3-2]

---
 src/handler.rs | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/handler.rs b/src/handler.rs
index 339b3ec..e1d260e 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -1,4 +1,4 @@
-use std::time::Duration;
+use std::{collections::HashSet, time::Duration};
 
 use log::{debug, error};
 use tokio::{
@@ -37,6 +37,8 @@ where
     let mut has_connected = false;
     let mut protocol = ProtocalVersion::Unknown;
     let mut cid = None;
+    // identifiers of the QoS 2 messages that were forwarded and not yet released
+    let mut received = HashSet::new();
     let keepalive_timer = tokio::time::sleep(Duration::from_secs(60));
     let mut reader = tokio::io::BufReader::new(read_stream);
     let (tx, mut rx) = channel::<ClientEvent>(100);
@@ -172,16 +174,25 @@ where
                             debug!("Wrote {} bytes", resp.len());
                         },
                         VariableHeader::Publish { topic, packet_id, payload, .. } => {
-                            message_bridge
-                            .send(Command::Publish {
-                                topic,
-                                qos: packet.fixed.get_qos()?,
-                                payload,
-                            })
-                            .await
-                            .map_err(MqttError::ChannelError)?;
+                            // a QoS 2 message is forwarded once until it is released [MQTT-4.3.3-2]
+                            let qos = packet.fixed.get_qos()?;
+                            let forward = match packet_id {
+                                Some(id) if qos == QosLevel::Exactly => received.insert(id),
+                                _ => true,
+                            };
+
+                            if forward {
+                                message_bridge
+                                .send(Command::Publish {
+                                    topic,
+                                    qos,
+                                    payload,
+                                })
+                                .await
+                                .map_err(MqttError::ChannelError)?;
+                            }
 
-                            let data = match packet.fixed.get_qos()? {
+                            let data = match qos {
                                 QosLevel::AtMost => None,
                                 QosLevel::AtLeast => {
                                     let id = packet_id.ok_or_else(|| MqttError::ProtocolViolation)?;
@@ -206,6 +217,7 @@ where
                             debug!("Wrote {} bytes", resp.len());
                         },
                         VariableHeader::PubRel { packet_id, .. } => {
+                            received.remove(&packet_id);
                             let resp = Packet::make_pubcomp(packet_id);
                             writer.write_all(&resp).await?;
                             debug!("Wrote {} bytes", resp.len());
-- 
2.43.0


From 60598bf59e1cb1db383c26a59fa37dd0c1b18654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:17 +0000
Subject: [PATCH 26/29] fix: keep alive is reset by every packet, ends after
 1.5 periods and is off when zero [MQTT-3.1.2-24]

---
 src/handler.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/handler.rs b/src/handler.rs
index e1d260e..f940aec 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -33,7 +33,7 @@ where
 {
     broker_info::client_inc();
 
-    let mut keepalive_duration: u64 = 60;
+    let mut keepalive_duration = Duration::from_secs(60);
     let mut has_connected = false;
     let mut protocol = ProtocalVersion::Unknown;
     let mut cid = None;
@@ -50,7 +50,7 @@ where
             () = cancellation.cancelled() => {
                 break 'ctrl;
             }
-            () = &mut keepalive_timer => {
+            () = &mut keepalive_timer, if !keepalive_duration.is_zero() => {
                 break 'ctrl;
             }
             buffer = reader.fill_buf() => {
@@ -83,6 +83,9 @@ where
                     break 'ctrl;
                 }
 
+                // every packet shows that the client is alive, not only PINGREQ
+                keepalive_timer.as_mut().reset(Instant::now() + keepalive_duration);
+
                 match packet.variable {
                         VariableHeader::Connect { flags, keepalive, client_id, protocol_version, .. } => {
                             if has_connected {
@@ -117,8 +120,9 @@ where
 
                           let session_present = r_rx.await.map_err(|_| MqttError::QueuePoisonError)??;
                           has_connected = true;
-                          keepalive_duration = (keepalive as u64) + 4;
-                          keepalive_timer.as_mut().reset(Instant::now() + Duration::from_secs(keepalive_duration));
+                          // one and a half times the keep alive, and no limit when it is zero [MQTT-3.1.2-24]
+                          keepalive_duration = Duration::from_millis(keepalive as u64 * 1500);
+                          keepalive_timer.as_mut().reset(Instant::now() + keepalive_duration);
 
                           let resp = Packet::make_connack(ConnectReturnCode::Accepted, session_present);
 
@@ -224,7 +228,6 @@ where
                         },
                         VariableHeader::PubComp { packet_id: _, ..} | VariableHeader::PubAck { packet_id: _, .. } => {}
                         VariableHeader::PingReq => {
-                            keepalive_timer.as_mut().reset(Instant::now() + Duration::from_secs(keepalive_duration));
                             let resp = Packet::make_ping_resp();
                             writer.write_all(&resp).await?;
                             debug!("Wrote {} bytes", resp.len());
-- 
2.43.0


From 99e82dbdc645ec766147bf0b33b08974eabcd33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:44 +0000
Subject: [PATCH 27/29] fix: reassemble packets that arrive in pieces instead
 of failing on them

---
 src/handler.rs     | 54 ++++++++++++++++++++++++++++++++++------------
 src/packets/mod.rs | 16 ++++++++++++++
 2 files changed, 56 insertions(+), 14 deletions(-)

diff --git a/src/handler.rs b/src/handler.rs
index f940aec..33372e5 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -1,8 +1,9 @@
 use std::{collections::HashSet, time::Duration};
 
+use bytes::BytesMut;
 use log::{debug, error};
 use tokio::{
-    io::{AsyncBufReadExt, AsyncRead, AsyncWrite, AsyncWriteExt},
+    io::{AsyncBufRead, AsyncBufReadExt, AsyncRead, AsyncWrite, AsyncWriteExt},
     select,
     sync::mpsc::{channel, Sender},
     time::Instant,
@@ -21,6 +22,34 @@ use crate::{
     },
 };
 
+/// Read the next packet, its bytes may arrive in any number of pieces and together with
+/// other packets. `None` at the end of the stream.
+///
+/// Cancel safe: the bytes of an incomplete packet stay in `pending`.
+async fn read_packet<R>(
+    reader: &mut R,
+    pending: &mut BytesMut,
+    protocol: ProtocalVersion,
+) -> Result<Option<(Packet, usize)>, MqttError>
+where
+    R: AsyncBufRead + Unpin,
+{
+    loop {
+        if let Some(len) = Packet::complete_len(pending)? {
+            let bytes = pending.split_to(len);
+            return Ok(Some(Packet::unpack(&bytes, protocol)?));
+        }
+
+        let bytes = reader.fill_buf().await?;
+        let len = bytes.len();
+        if len == 0 {
+            return Ok(None);
+        }
+        pending.extend_from_slice(bytes);
+        reader.consume(len);
+    }
+}
+
 pub async fn client_handler<R, W>(
     read_stream: R,
     mut writer: W,
@@ -41,6 +70,7 @@ where
     let mut received = HashSet::new();
     let keepalive_timer = tokio::time::sleep(Duration::from_secs(60));
     let mut reader = tokio::io::BufReader::new(read_stream);
+    let mut pending = BytesMut::new();
     let (tx, mut rx) = channel::<ClientEvent>(100);
 
     tokio::pin!(keepalive_timer);
@@ -53,27 +83,23 @@ where
             () = &mut keepalive_timer, if !keepalive_duration.is_zero() => {
                 break 'ctrl;
             }
-            buffer = reader.fill_buf() => {
-                let packet = match buffer {
-                    Ok(bytes) => {
-                        let len = bytes.len();
-                        if len == 0 {
-                            debug!("Connection closed");
-                            break 'ctrl;
-                        }
-                        let (packet, packet_size) = Packet::unpack(bytes, protocol)?;
+            result = read_packet(&mut reader, &mut pending, protocol) => {
+                let packet = match result {
+                    Ok(Some((packet, packet_size))) => {
                         broker_info::sent_data(packet_size);
-
-                        reader.consume(packet_size);
                         packet
                     }
-                    Err(ref e) if e.kind() == std::io::ErrorKind::ConnectionReset || e.kind() == std::io::ErrorKind::ConnectionReset => {
+                    Ok(None) => {
+                        debug!("Connection closed");
+                        break 'ctrl;
+                    }
+                    Err(MqttError::Io(ref e)) if e.kind() == std::io::ErrorKind::ConnectionReset => {
                         debug!("Connection lost");
                         break 'ctrl;
                     }
                     Err(err) => {
                         error!("{}",err);
-                        return Err(MqttError::Io(err));
+                        return Err(err);
                     }
                 };
 
diff --git a/src/packets/mod.rs b/src/packets/mod.rs
index bba1090..a77c2e0 100644
--- a/src/packets/mod.rs
+++ b/src/packets/mod.rs
@@ -858,6 +858,22 @@ impl Packet {
 
         buffer.freeze()
     }
+    /// Size of the packet at the start of the bytes, once they hold all of it.
+    pub fn complete_len(bytes: &[u8]) -> Result<Option<usize>, MqttError> {
+        let mut iter = bytes.iter();
+
+        let fixed = match FixedHeader::from_bytes(&mut iter, None) {
+            Err(MqttError::RequiredByteMissing(_)) => return Ok(None),
+            header => header?,
+        };
+
+        let len = fixed.get_remaing_len() + fixed.get_rl_len() + 1;
+        if bytes.len() < len {
+            return Ok(None);
+        }
+
+        Ok(Some(len))
+    }
     pub fn unpack(bytes: &[u8], protocal: ProtocalVersion) -> Result<(Self, usize), MqttError> {
         let mut iter = bytes.iter();
 
-- 
2.43.0


From 7dfd804ed7bebe12c69571d79062e150d3e5528f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:46 +0000
Subject: [PATCH 28/29] fix: answer a refused CONNECT with its CONNACK return
 code [MQTT-3.1.2-2] [MQTT-3.1.3-8]

---
 src/handler.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/handler.rs b/src/handler.rs
index 33372e5..88a4bd6 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -97,6 +97,17 @@ where
                         debug!("Connection lost");
                         break 'ctrl;
                     }
+                    // tell the client why its CONNECT is refused [MQTT-3.1.2-2] [MQTT-3.1.3-8]
+                    Err(MqttError::UnacceptableProtocolLevel) if !has_connected => {
+                        let resp = Packet::make_connack(ConnectReturnCode::V4UnacceptableProtocal, false);
+                        writer.write_all(&resp).await?;
+                        break 'ctrl;
+                    }
+                    Err(MqttError::ClientIdentifierRejected) if !has_connected => {
+                        let resp = Packet::make_connack(ConnectReturnCode::V4IdentifierRejected, false);
+                        writer.write_all(&resp).await?;
+                        break 'ctrl;
+                    }
                     Err(err) => {
                         error!("{}",err);
                         return Err(err);
-- 
2.43.0


From 3f67272dbb4693f3223320d3c7f49ab9ae8abe4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:56 +0000
Subject: [PATCH 29/29] fix: refuse filters too deep for the stack

The subscription tree is walked recursively, so one SUBSCRIBE whose filter has
some thousands of levels overflowed the stack and aborted the broker. Filters
of more than 1024 levels are answered with 0x80.
---
 src/utils.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/utils.rs b/src/utils.rs
index 9358525..ea8b378 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -20,6 +20,10 @@ pub fn tokenise_topic(value: String) -> Result<(Vec<String>, Option<String>), u8
     Ok((topic.iter().map(|x| x.to_string()).collect(), sharename))
 }
 
+/// The levels a topic filter may have. The subscriptions are a tree that is walked recursively, a
+/// level at a time: a filter that is deeper than the stack allows would bring the broker down.
+const MAX_FILTER_LEVELS: usize = 1024;
+
 /// A topic filter is not empty [MQTT-4.7.3-1], has '#' only as its last level [MQTT-4.7.1-2]
 /// and '+' only as a complete level [MQTT-4.7.1-3]
 pub fn is_valid_filter(levels: &[String]) -> bool {
@@ -27,6 +31,10 @@ pub fn is_valid_filter(levels: &[String]) -> bool {
         return false;
     }
 
+    if levels.len() > MAX_FILTER_LEVELS {
+        return false;
+    }
+
     for idx in 0..levels.len() {
         let level = &levels[idx];
         if level == "#" {
-- 
2.43.0

