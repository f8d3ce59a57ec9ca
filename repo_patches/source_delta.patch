From 8f64b998d32a0774a947ac82ffb9d2afa4259554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:08 +0000
Subject: [PATCH 1/8] fix: write CONNECT flags relative to the start of the
 packet

The flags byte was patched at an absolute buffer index, so writing CONNECT
behind bytes already queued overwrote one of those and left the flags zero.
---
 src/connect.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/connect.rs b/src/connect.rs
index 0cfe773..de8597f 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -96,13 +96,14 @@ impl Connect {
         buffer: &mut BytesMut,
     ) -> Result<usize, Error> {
         let len = self.len(will, l);
+        let start = buffer.len();
 
         buffer.put_u8(0b0001_0000);
         let count = write_remaining_length(buffer, len)?;
         write_mqtt_string(buffer, &mqtt_string_new("MQTT"))?;
 
         buffer.put_u8(0x05);
-        let flags_index = 1 + count + 2 + 4 + 1;
+        let flags_index = start + 1 + count + 2 + 4 + 1;
 
         let mut connect_flags = 0;
         if self.clean_start {
-- 
2.43.0


From e8a30b70f361920fd9fcfab4295b94639bf9eac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:08 +0000
Subject: [PATCH 2/8] fix: do not count the subscription identifier's id byte
 twice

The byte was counted when the property id was read. Counting it again ended
the property loop early and left properties in the payload or filter list.
---
 src/publish.rs   | 2 +-
 src/subscribe.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/publish.rs b/src/publish.rs
index 1536467..2576c96 100644
--- a/src/publish.rs
+++ b/src/publish.rs
@@ -231,7 +231,7 @@ impl PublishProperties {
                 }
                 PropertyType::SubscriptionIdentifier => {
                     let (id_len, id) = length(bytes.iter())?;
-                    cursor += 1 + id_len;
+                    cursor += id_len;
                     bytes.advance(id_len);
                     subscription_identifiers.push(id);
                 }
diff --git a/src/subscribe.rs b/src/subscribe.rs
index 7c25bb5..ec8f7cf 100644
--- a/src/subscribe.rs
+++ b/src/subscribe.rs
@@ -242,7 +242,7 @@ impl SubscribeProperties {
                 PropertyType::SubscriptionIdentifier => {
                     let (id_len, sub_id) = length(bytes.iter())?;
                     // TODO: Validate 1 +. Tests are working either way
-                    cursor += 1 + id_len;
+                    cursor += id_len;
                     bytes.advance(id_len);
                     id = Some(sub_id);
                 }
-- 
2.43.0


From 3c7a88cacb91b6acda3f3a253295e8fc3ace87eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:08 +0000
Subject: [PATCH 3/8] fix: DISCONNECT length, lost reason code and omitted
 property length

Without properties the remaining length was one byte short; with an empty
property block the packet was taken for a normal disconnection and its reason
was lost. Reading accepts a reason code without a property length, as
MQTT 5 section 3.14.2.2.1 allows.
---
 src/disconnect.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/disconnect.rs b/src/disconnect.rs
index 7931da4..78efaa0 100644
--- a/src/disconnect.rs
+++ b/src/disconnect.rs
@@ -260,18 +260,17 @@ impl Disconnect {
         if self.reason_code == DisconnectReasonCode::NormalDisconnection
             && self.properties.is_none()
         {
-            return 2; // Packet type + 0x00
+            return 0; // nothing follows the fixed header
         }
 
-        let mut length = 0;
+        let mut length = 1; // Disconnect Reason Code
 
         if let Some(properties) = &self.properties {
-            length += 1; // Disconnect Reason Code
-
             let properties_len = properties.len();
             let properties_len_len = len_len(properties_len);
             length += properties_len_len + properties_len;
         } else {
+            // just 1 byte representing 0 len
             length += 1;
         }
 
@@ -281,10 +280,6 @@ impl Disconnect {
     #[must_use]
     pub fn size(&self) -> usize {
         let len = self.len();
-        if len == 2 {
-            return len;
-        }
-
         let remaining_len_size = len_len(len);
 
         1 + remaining_len_size + len
@@ -310,9 +305,16 @@ impl Disconnect {
 
         let reason_code = read_u8(&mut bytes)?;
 
+        // The property length may be omitted if there are no properties
+        let properties = if fixed_header.remaining_len < 2 {
+            None
+        } else {
+            DisconnectProperties::extract(&mut bytes)?
+        };
+
         let disconnect = Self {
             reason_code: reason_code.try_into()?,
-            properties: DisconnectProperties::extract(&mut bytes)?,
+            properties,
         };
 
         Ok(disconnect)
@@ -323,9 +325,9 @@ impl Disconnect {
 
         let length = self.len();
 
-        if length == 2 {
+        if length == 0 {
             buffer.put_u8(0x00);
-            return Ok(length);
+            return Ok(2);
         }
 
         let len_len = write_remaining_length(buffer, length)?;
-- 
2.43.0


From c174deb1b184b1862ac44088232535a1b2811a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:27 +0000
Subject: [PATCH 4/8] fix: refuse CONNACK return codes of earlier protocol
 versions

Writing one of the three version 3 codes hit unreachable!() and panicked.
---
 src/connack.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/connack.rs b/src/connack.rs
index f9ace21..abf340c 100644
--- a/src/connack.rs
+++ b/src/connack.rs
@@ -94,7 +94,7 @@ impl ConnAck {
 
         let count = write_remaining_length(buffer, len)?;
         buffer.put_u8(u8::from(self.session_present));
-        buffer.put_u8(connect_code(self.code));
+        buffer.put_u8(connect_code(self.code)?);
 
         if let Some(p) = &self.properties {
             p.write(buffer)?;
@@ -466,8 +466,8 @@ fn connect_return(num: u8) -> Result<ConnectReturnCode, Error> {
     Ok(code)
 }
 
-fn connect_code(return_code: ConnectReturnCode) -> u8 {
-    match return_code {
+fn connect_code(return_code: ConnectReturnCode) -> Result<u8, Error> {
+    let code = match return_code {
         ConnectReturnCode::Success => 0,
         ConnectReturnCode::UnspecifiedError => 128,
         ConnectReturnCode::MalformedPacket => 129,
@@ -490,8 +490,11 @@ fn connect_code(return_code: ConnectReturnCode) -> u8 {
         ConnectReturnCode::UseAnotherServer => 156,
         ConnectReturnCode::ServerMoved => 157,
         ConnectReturnCode::ConnectionRateExceeded => 159,
-        _ => unreachable!(),
-    }
+        // Return codes of earlier protocol versions have no encoding in MQTT 5
+        other => return Err(Error::InvalidConnectReturnCode(other as u8)),
+    };
+
+    Ok(code)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 726f18cba3139010d0144b12ebf419da39f80149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:27 +0000
Subject: [PATCH 5/8] fix: do not ask for more bytes inside a complete frame

A property length or subscription identifier cut off by the end of its frame
was reported as InsufficientBytes after the frame had been taken off the
stream, so a caller would wait for bytes that belong to the next packet.
---
 src/lib.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7c80fe6..6a9efb5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -428,7 +428,11 @@ pub(crate) fn parse_fixed_header(mut stream: Iter<u8>) -> Result<FixedHeader, Er
     }
 
     let byte1 = stream.next().unwrap();
-    let (len_len, len) = length(stream)?;
+    let (len_len, len) = match length(stream) {
+        // The rest of the length is still to come. Wait for one more byte
+        Err(Error::MalformedPacket) => return Err(Error::InsufficientBytes(1)),
+        other => other?,
+    };
 
     Ok(FixedHeader::new(*byte1, len_len, len))
 }
@@ -466,10 +470,10 @@ fn length(stream: Iter<u8>) -> Result<(usize, usize), Error> {
         }
     }
 
-    // Not enough bytes to frame remaining length. wait for
-    // one more byte
+    // The stream ends inside the length. Within a framed packet
+    // nothing more is going to come
     if !done {
-        return Err(Error::InsufficientBytes(1));
+        return Err(Error::MalformedPacket);
     }
 
     Ok((len_len, len))
-- 
2.43.0


From 1088b480e381b8b21468a71242c0b29e1e8057a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:27 +0000
Subject: [PATCH 6/8] fix: take back what a failed Packet::write has appended

A packet with no encoding left its first bytes in the outgoing buffer, where
they corrupted the stream.
---
 src/lib.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6a9efb5..a07a86a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -216,7 +216,8 @@ impl Packet {
     }
 
     pub fn write(&self, write: &mut BytesMut) -> Result<usize, Error> {
-        match self {
+        let start = write.len();
+        let result = match self {
             Self::Publish(publish) => publish.write(write),
             Self::Subscribe(subscription) => subscription.write(write),
             Self::Unsubscribe(unsubscribe) => unsubscribe.write(write),
@@ -231,7 +232,14 @@ impl Packet {
             Self::PingReq(_) => PingReq::write(write),
             Self::PingResp(_) => PingResp::write(write),
             Self::Disconnect(disconnect) => disconnect.write(write),
+        };
+
+        // Leave no part of a packet that could not be written
+        if result.is_err() {
+            write.truncate(start);
         }
+
+        result
     }
 }
 
-- 
2.43.0


From d13bc060c8760d68ff9d528b46103c9b2812c514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:27 +0000
Subject: [PATCH 7/8] fix: reject properties that run past their property block

The loops stopped once the cursor passed the declared length, so a property
could extend over the following fields, which were then read from bytes
that belong to the property.
---
 src/connack.rs     |  5 +++++
 src/connect.rs     | 10 ++++++++++
 src/disconnect.rs  |  5 +++++
 src/puback.rs      |  5 +++++
 src/pubcomp.rs     |  5 +++++
 src/publish.rs     |  5 +++++
 src/pubrec.rs      |  5 +++++
 src/pubrel.rs      |  5 +++++
 src/suback.rs      |  5 +++++
 src/subscribe.rs   |  5 +++++
 src/unsuback.rs    |  5 +++++
 src/unsubscribe.rs |  5 +++++
 12 files changed, 65 insertions(+)

diff --git a/src/connack.rs b/src/connack.rs
index abf340c..fbcb669 100644
--- a/src/connack.rs
+++ b/src/connack.rs
@@ -320,6 +320,11 @@ impl ConnAckProperties {
             }
         }
 
+        // the last property must end where the property block ends
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(ConnAckProperties {
             session_expiry_interval,
             receive_max,
diff --git a/src/connect.rs b/src/connect.rs
index de8597f..8638a86 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -239,6 +239,11 @@ impl ConnectProperties {
             }
         }
 
+        // the last property must end where the property block ends
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(ConnectProperties {
             session_expiry_interval,
             receive_maximum,
@@ -533,6 +538,11 @@ impl LastWillProperties {
             }
         }
 
+        // the last property must end where the property block ends
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(LastWillProperties {
             delay_interval,
             payload_format_indicator,
diff --git a/src/disconnect.rs b/src/disconnect.rs
index 78efaa0..5f931f2 100644
--- a/src/disconnect.rs
+++ b/src/disconnect.rs
@@ -208,6 +208,11 @@ impl DisconnectProperties {
             }
         }
 
+        // the last property must end where the property block ends
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         let properties = Self {
             session_expiry_interval,
             reason_string,
diff --git a/src/puback.rs b/src/puback.rs
index bb7902f..aa868ec 100644
--- a/src/puback.rs
+++ b/src/puback.rs
@@ -179,6 +179,11 @@ impl PubAckProperties {
             }
         }
 
+        // the last property must end where the property block ends
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(PubAckProperties {
             reason_string,
             user_properties,
diff --git a/src/pubcomp.rs b/src/pubcomp.rs
index d3cc6f1..a7f5551 100644
--- a/src/pubcomp.rs
+++ b/src/pubcomp.rs
@@ -172,6 +172,11 @@ impl PubCompProperties {
             }
         }
 
+        // the last property must end where the property block ends
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(PubCompProperties {
             reason_string,
             user_properties,
diff --git a/src/publish.rs b/src/publish.rs
index 2576c96..8d4ac68 100644
--- a/src/publish.rs
+++ b/src/publish.rs
@@ -244,6 +244,11 @@ impl PublishProperties {
             }
         }
 
+        // the last property must end where the property block ends
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(PublishProperties {
             payload_format_indicator,
             message_expiry_interval,
diff --git a/src/pubrec.rs b/src/pubrec.rs
index 888a5af..5e6ad59 100644
--- a/src/pubrec.rs
+++ b/src/pubrec.rs
@@ -174,6 +174,11 @@ impl PubRecProperties {
             }
         }
 
+        // the last property must end where the property block ends
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(PubRecProperties {
             reason_string,
             user_properties,
diff --git a/src/pubrel.rs b/src/pubrel.rs
index 70c4065..053f12b 100644
--- a/src/pubrel.rs
+++ b/src/pubrel.rs
@@ -173,6 +173,11 @@ impl PubRelProperties {
             }
         }
 
+        // the last property must end where the property block ends
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(PubRelProperties {
             reason_string,
             user_properties,
diff --git a/src/suback.rs b/src/suback.rs
index 8319041..81e5153 100644
--- a/src/suback.rs
+++ b/src/suback.rs
@@ -151,6 +151,11 @@ impl SubAckProperties {
             }
         }
 
+        // the last property must end where the property block ends
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(SubAckProperties {
             reason_string,
             user_properties,
diff --git a/src/subscribe.rs b/src/subscribe.rs
index ec8f7cf..4477d3b 100644
--- a/src/subscribe.rs
+++ b/src/subscribe.rs
@@ -256,6 +256,11 @@ impl SubscribeProperties {
             }
         }
 
+        // the last property must end where the property block ends
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(SubscribeProperties {
             id,
             user_properties,
diff --git a/src/unsuback.rs b/src/unsuback.rs
index 76a7bbc..b62e6e1 100644
--- a/src/unsuback.rs
+++ b/src/unsuback.rs
@@ -148,6 +148,11 @@ impl UnsubAckProperties {
             }
         }
 
+        // the last property must end where the property block ends
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(UnsubAckProperties {
             reason_string,
             user_properties,
diff --git a/src/unsubscribe.rs b/src/unsubscribe.rs
index cef2250..d146761 100644
--- a/src/unsubscribe.rs
+++ b/src/unsubscribe.rs
@@ -137,6 +137,11 @@ impl UnsubscribeProperties {
             }
         }
 
+        // the last property must end where the property block ends
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(UnsubscribeProperties { user_properties }))
     }
 
-- 
2.43.0


From 95773b48ed00148a270a6998d914dc60456f8478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:28 +0000
Subject: [PATCH 8/8] fix: leave no part of a refused packet in the buffer,
 whichever writer is used

Packet::write took back what a failed write had appended, but the packets' own
public writers (Publish::write and so on) still left it in the stream.
---
 src/connack.rs     | 10 +++++++---
 src/connect.rs     | 15 ++++++++++++---
 src/disconnect.rs  |  6 +++++-
 src/lib.rs         | 26 +++++++++++++++++---------
 src/puback.rs      |  8 ++++++--
 src/pubcomp.rs     |  8 ++++++--
 src/publish.rs     | 10 +++++++---
 src/pubrec.rs      |  8 ++++++--
 src/pubrel.rs      |  8 ++++++--
 src/suback.rs      |  8 ++++++--
 src/subscribe.rs   |  9 +++++++--
 src/unsuback.rs    |  8 ++++++--
 src/unsubscribe.rs |  9 +++++++--
 13 files changed, 98 insertions(+), 35 deletions(-)

diff --git a/src/connack.rs b/src/connack.rs
index fbcb669..1567a22 100644
--- a/src/connack.rs
+++ b/src/connack.rs
@@ -1,9 +1,9 @@
 use crate::MqttString;
 
 use super::{
-    len_len, length, property, read_mqtt_bytes, read_mqtt_string, read_u16, read_u32, read_u8,
-    write_mqtt_bytes, write_mqtt_string, write_remaining_length, Debug, Error, FixedHeader,
-    PropertyType,
+    all_or_nothing, len_len, length, property, read_mqtt_bytes, read_mqtt_string, read_u16,
+    read_u32, read_u8, write_mqtt_bytes, write_mqtt_string, write_remaining_length, Debug, Error,
+    FixedHeader, PropertyType,
 };
 use bytes::{Buf, BufMut, Bytes, BytesMut};
 
@@ -89,6 +89,10 @@ impl ConnAck {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        all_or_nothing(buffer, |buffer| self.encode(buffer))
+    }
+
+    fn encode(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         let len = Self::len(self);
         buffer.put_u8(0x20);
 
diff --git a/src/connect.rs b/src/connect.rs
index 8638a86..c44daeb 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -1,9 +1,9 @@
 use crate::{mqtt_string_eq, mqtt_string_new, MqttString};
 
 use super::{
-    len_len, length, property, qos, read_mqtt_bytes, read_mqtt_string, read_u16, read_u32, read_u8,
-    write_mqtt_bytes, write_mqtt_string, write_remaining_length, BufMut, BytesMut, Debug, Error,
-    FixedHeader, PropertyType, QoS,
+    all_or_nothing, len_len, length, property, qos, read_mqtt_bytes, read_mqtt_string, read_u16,
+    read_u32, read_u8, write_mqtt_bytes, write_mqtt_string, write_remaining_length, BufMut,
+    BytesMut, Debug, Error, FixedHeader, PropertyType, QoS,
 };
 use bytes::{Buf, Bytes};
 
@@ -94,6 +94,15 @@ impl Connect {
         will: &Option<LastWill>,
         l: &Option<Login>,
         buffer: &mut BytesMut,
+    ) -> Result<usize, Error> {
+        all_or_nothing(buffer, |buffer| self.encode(will, l, buffer))
+    }
+
+    fn encode(
+        &self,
+        will: &Option<LastWill>,
+        l: &Option<Login>,
+        buffer: &mut BytesMut,
     ) -> Result<usize, Error> {
         let len = self.len(will, l);
         let start = buffer.len();
diff --git a/src/disconnect.rs b/src/disconnect.rs
index 5f931f2..415ebfe 100644
--- a/src/disconnect.rs
+++ b/src/disconnect.rs
@@ -5,7 +5,7 @@ use bytes::{BufMut, Bytes, BytesMut};
 use crate::MqttString;
 
 use super::{
-    len_len, length, read_mqtt_string, read_u32, read_u8, write_mqtt_string,
+    all_or_nothing, len_len, length, read_mqtt_string, read_u32, read_u8, write_mqtt_string,
     write_remaining_length, Buf, Debug, Error, FixedHeader, PacketType,
 };
 
@@ -326,6 +326,10 @@ impl Disconnect {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        all_or_nothing(buffer, |buffer| self.encode(buffer))
+    }
+
+    fn encode(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         buffer.put_u8(0xE0);
 
         let length = self.len();
diff --git a/src/lib.rs b/src/lib.rs
index a07a86a..2784b3a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -216,8 +216,7 @@ impl Packet {
     }
 
     pub fn write(&self, write: &mut BytesMut) -> Result<usize, Error> {
-        let start = write.len();
-        let result = match self {
+        match self {
             Self::Publish(publish) => publish.write(write),
             Self::Subscribe(subscription) => subscription.write(write),
             Self::Unsubscribe(unsubscribe) => unsubscribe.write(write),
@@ -232,14 +231,7 @@ impl Packet {
             Self::PingReq(_) => PingReq::write(write),
             Self::PingResp(_) => PingResp::write(write),
             Self::Disconnect(disconnect) => disconnect.write(write),
-        };
-
-        // Leave no part of a packet that could not be written
-        if result.is_err() {
-            write.truncate(start);
         }
-
-        result
     }
 }
 
@@ -530,6 +522,22 @@ fn read_mqtt_string(stream: &mut Bytes) -> Result<MqttString, Error> {
     read_mqtt_bytes(stream)
 }
 
+/// Takes back what a failed `write` has appended: no part of a packet that
+/// could not be written stays in the stream
+#[inline]
+fn all_or_nothing(
+    stream: &mut BytesMut,
+    write: impl FnOnce(&mut BytesMut) -> Result<usize, Error>,
+) -> Result<usize, Error> {
+    let start = stream.len();
+    let result = write(stream);
+    if result.is_err() {
+        stream.truncate(start);
+    }
+
+    result
+}
+
 /// Serializes bytes to stream (including length)
 #[inline]
 fn write_mqtt_bytes(stream: &mut BytesMut, bytes: &[u8]) -> Result<(), Error> {
diff --git a/src/puback.rs b/src/puback.rs
index aa868ec..9e00afd 100644
--- a/src/puback.rs
+++ b/src/puback.rs
@@ -1,8 +1,8 @@
 use crate::MqttString;
 
 use super::{
-    len_len, length, property, read_mqtt_string, read_u16, read_u8, write_mqtt_string,
-    write_remaining_length, Debug, Error, FixedHeader, PropertyType,
+    all_or_nothing, len_len, length, property, read_mqtt_string, read_u16, read_u8,
+    write_mqtt_string, write_remaining_length, Debug, Error, FixedHeader, PropertyType,
 };
 use bytes::{Buf, BufMut, Bytes, BytesMut};
 
@@ -104,6 +104,10 @@ impl PubAck {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        all_or_nothing(buffer, |buffer| self.encode(buffer))
+    }
+
+    fn encode(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         let len = self.len();
         buffer.put_u8(0x40);
 
diff --git a/src/pubcomp.rs b/src/pubcomp.rs
index a7f5551..37cd7a2 100644
--- a/src/pubcomp.rs
+++ b/src/pubcomp.rs
@@ -1,8 +1,8 @@
 use crate::MqttString;
 
 use super::{
-    len_len, length, property, read_mqtt_string, read_u16, read_u8, write_mqtt_string,
-    write_remaining_length, Debug, Error, FixedHeader, PropertyType,
+    all_or_nothing, len_len, length, property, read_mqtt_string, read_u16, read_u8,
+    write_mqtt_string, write_remaining_length, Debug, Error, FixedHeader, PropertyType,
 };
 use bytes::{Buf, BufMut, Bytes, BytesMut};
 
@@ -97,6 +97,10 @@ impl PubComp {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        all_or_nothing(buffer, |buffer| self.encode(buffer))
+    }
+
+    fn encode(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         let len = self.len();
         buffer.put_u8(0x70);
         let count = write_remaining_length(buffer, len)?;
diff --git a/src/publish.rs b/src/publish.rs
index 8d4ac68..87c0978 100644
--- a/src/publish.rs
+++ b/src/publish.rs
@@ -1,9 +1,9 @@
 use crate::MqttString;
 
 use super::{
-    len_len, length, property, qos, read_mqtt_bytes, read_mqtt_string, read_u16, read_u32, read_u8,
-    write_mqtt_bytes, write_mqtt_string, write_remaining_length, BufMut, BytesMut, Debug, Error,
-    FixedHeader, PropertyType, QoS,
+    all_or_nothing, len_len, length, property, qos, read_mqtt_bytes, read_mqtt_string, read_u16,
+    read_u32, read_u8, write_mqtt_bytes, write_mqtt_string, write_remaining_length, BufMut,
+    BytesMut, Debug, Error, FixedHeader, PropertyType, QoS,
 };
 use bytes::{Buf, Bytes};
 
@@ -96,6 +96,10 @@ impl Publish {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        all_or_nothing(buffer, |buffer| self.encode(buffer))
+    }
+
+    fn encode(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         let len = self.len();
 
         let dup = u8::from(self.dup);
diff --git a/src/pubrec.rs b/src/pubrec.rs
index 5e6ad59..5ff8574 100644
--- a/src/pubrec.rs
+++ b/src/pubrec.rs
@@ -1,8 +1,8 @@
 use crate::MqttString;
 
 use super::{
-    len_len, length, property, read_mqtt_string, read_u16, read_u8, write_mqtt_string,
-    write_remaining_length, Debug, Error, FixedHeader, PropertyType,
+    all_or_nothing, len_len, length, property, read_mqtt_string, read_u16, read_u8,
+    write_mqtt_string, write_remaining_length, Debug, Error, FixedHeader, PropertyType,
 };
 use bytes::{Buf, BufMut, Bytes, BytesMut};
 
@@ -99,6 +99,10 @@ impl PubRec {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        all_or_nothing(buffer, |buffer| self.encode(buffer))
+    }
+
+    fn encode(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         let len = self.len();
         buffer.put_u8(0x50);
         let count = write_remaining_length(buffer, len)?;
diff --git a/src/pubrel.rs b/src/pubrel.rs
index 053f12b..26f56d4 100644
--- a/src/pubrel.rs
+++ b/src/pubrel.rs
@@ -1,8 +1,8 @@
 use crate::MqttString;
 
 use super::{
-    len_len, length, property, read_mqtt_string, read_u16, read_u8, write_mqtt_string,
-    write_remaining_length, Debug, Error, FixedHeader, PropertyType,
+    all_or_nothing, len_len, length, property, read_mqtt_string, read_u16, read_u8,
+    write_mqtt_string, write_remaining_length, Debug, Error, FixedHeader, PropertyType,
 };
 use bytes::{Buf, BufMut, Bytes, BytesMut};
 
@@ -98,6 +98,10 @@ impl PubRel {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        all_or_nothing(buffer, |buffer| self.encode(buffer))
+    }
+
+    fn encode(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         let len = self.len();
         buffer.put_u8(0x62);
         let count = write_remaining_length(buffer, len)?;
diff --git a/src/suback.rs b/src/suback.rs
index 81e5153..8c6fbd0 100644
--- a/src/suback.rs
+++ b/src/suback.rs
@@ -1,8 +1,8 @@
 use crate::MqttString;
 
 use super::{
-    len_len, length, property, read_mqtt_string, read_u16, read_u8, write_mqtt_string,
-    write_remaining_length, Debug, Error, FixedHeader, PropertyType, QoS,
+    all_or_nothing, len_len, length, property, read_mqtt_string, read_u16, read_u8,
+    write_mqtt_string, write_remaining_length, Debug, Error, FixedHeader, PropertyType, QoS,
 };
 use bytes::{Buf, BufMut, Bytes, BytesMut};
 
@@ -65,6 +65,10 @@ impl SubAck {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        all_or_nothing(buffer, |buffer| self.encode(buffer))
+    }
+
+    fn encode(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         buffer.put_u8(0x90);
         let remaining_len = self.len();
         let remaining_len_bytes = write_remaining_length(buffer, remaining_len)?;
diff --git a/src/subscribe.rs b/src/subscribe.rs
index 4477d3b..0bf7309 100644
--- a/src/subscribe.rs
+++ b/src/subscribe.rs
@@ -1,8 +1,9 @@
 use crate::MqttString;
 
 use super::{
-    len_len, length, property, qos, read_mqtt_string, read_u16, read_u8, vec, write_mqtt_string,
-    write_remaining_length, BufMut, BytesMut, Debug, Error, FixedHeader, PropertyType, QoS,
+    all_or_nothing, len_len, length, property, qos, read_mqtt_string, read_u16, read_u8, vec,
+    write_mqtt_string, write_remaining_length, BufMut, BytesMut, Debug, Error, FixedHeader,
+    PropertyType, QoS,
 };
 use bytes::{Buf, Bytes};
 
@@ -79,6 +80,10 @@ impl Subscribe {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        all_or_nothing(buffer, |buffer| self.encode(buffer))
+    }
+
+    fn encode(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         // write packet type
         buffer.put_u8(0x82);
 
diff --git a/src/unsuback.rs b/src/unsuback.rs
index b62e6e1..3e4c498 100644
--- a/src/unsuback.rs
+++ b/src/unsuback.rs
@@ -1,8 +1,8 @@
 use crate::MqttString;
 
 use super::{
-    len_len, length, property, read_mqtt_string, read_u16, read_u8, write_mqtt_string,
-    write_remaining_length, Debug, Error, FixedHeader, PropertyType,
+    all_or_nothing, len_len, length, property, read_mqtt_string, read_u16, read_u8,
+    write_mqtt_string, write_remaining_length, Debug, Error, FixedHeader, PropertyType,
 };
 use bytes::{Buf, BufMut, Bytes, BytesMut};
 
@@ -65,6 +65,10 @@ impl UnsubAck {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        all_or_nothing(buffer, |buffer| self.encode(buffer))
+    }
+
+    fn encode(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         buffer.put_u8(0xB0);
         let remaining_len = self.len();
         let remaining_len_bytes = write_remaining_length(buffer, remaining_len)?;
diff --git a/src/unsubscribe.rs b/src/unsubscribe.rs
index d146761..1c409d5 100644
--- a/src/unsubscribe.rs
+++ b/src/unsubscribe.rs
@@ -1,8 +1,9 @@
 use crate::MqttString;
 
 use super::{
-    len_len, length, property, read_mqtt_string, read_u16, read_u8, vec, write_mqtt_string,
-    write_remaining_length, BufMut, BytesMut, Debug, Error, FixedHeader, PropertyType,
+    all_or_nothing, len_len, length, property, read_mqtt_string, read_u16, read_u8, vec,
+    write_mqtt_string, write_remaining_length, BufMut, BytesMut, Debug, Error, FixedHeader,
+    PropertyType,
 };
 use bytes::{Buf, Bytes};
 
@@ -70,6 +71,10 @@ impl Unsubscribe {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        all_or_nothing(buffer, |buffer| self.encode(buffer))
+    }
+
+    fn encode(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         buffer.put_u8(0xA2);
 
         // write remaining length
-- 
2.43.0

