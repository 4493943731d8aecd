From 9dd37bb4cfea97ad219a659b2dc7605b944c5f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:35 +0000
Subject: [PATCH 01/35] fix: discard a partially received frame when the
 transport is closed

A frame cut off by a lost transport stayed in the packet builder and
swallowed the first bytes of the next connection.
---
 src/mqtt/connection/core.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 75f227e..544669f 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -731,6 +731,9 @@ where
         // Set status to disconnected
         self.status = ConnectionStatus::Disconnected;
 
+        // Discard a partially received frame
+        self.packet_builder.reset();
+
         // Clear topic alias management
         self.topic_alias_send = None;
         self.topic_alias_recv = None;
-- 
2.43.0


From 200e73f660971067868c637975cf318f84a518b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:04 +0000
Subject: [PATCH 02/35] fix: accept a CONNECT that carries Topic Alias Maximum
 0

TopicAliasSend::new(0) panics; 0 means that the client does not accept
topic aliases, which is the state without a send table.
---
 src/mqtt/connection/core.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 544669f..c568cea 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -2618,7 +2618,7 @@ where
                     self.clear_store_related();
                 }
                 packet.props().iter().for_each(|prop| match prop {
-                    Property::TopicAliasMaximum(p) => {
+                    Property::TopicAliasMaximum(p) if p.val() != 0 => {
                         self.topic_alias_send = Some(TopicAliasSend::new(p.val()));
                     }
                     Property::ReceiveMaximum(p) => {
-- 
2.43.0


From 74ff0822c4d3f03600cd21c3c57761c56abcca37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:59 +0000
Subject: [PATCH 03/35] fix: a value outside the range is not used

is_used() answered true for values that can never be handed out, so
releasing packet identifier 0 panicked in deallocate().
---
 src/mqtt/common/value_allocator.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mqtt/common/value_allocator.rs b/src/mqtt/common/value_allocator.rs
index 7c22238..482e487 100644
--- a/src/mqtt/common/value_allocator.rs
+++ b/src/mqtt/common/value_allocator.rs
@@ -167,7 +167,9 @@ where
     }
 
     pub fn is_used(&self, value: T) -> bool {
-        !self.pool.iter().any(|iv| iv.contains(value))
+        self.lowest <= value
+            && value <= self.highest
+            && !self.pool.iter().any(|iv| iv.contains(value))
     }
 
     pub fn clear(&mut self) {
-- 
2.43.0


From b6eb2abdef3660258230be7979247a04bf6d777a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:29 +0000
Subject: [PATCH 04/35] fix: deallocating an already free type maximum
 overflowed

The neighbour test computes value + 1 whenever an interval is found at or
above the value, including the interval that already contains it.
---
 src/mqtt/common/value_allocator.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mqtt/common/value_allocator.rs b/src/mqtt/common/value_allocator.rs
index 482e487..ce95ebf 100644
--- a/src/mqtt/common/value_allocator.rs
+++ b/src/mqtt/common/value_allocator.rs
@@ -118,6 +118,11 @@ where
     pub fn deallocate(&mut self, value: T) {
         assert!(self.lowest <= value && value <= self.highest);
 
+        // Deallocating a free value has no effect
+        if self.pool.contains(&ValueInterval::new_single(value)) {
+            return;
+        }
+
         let right = self
             .pool
             .range(ValueInterval::new_single(value)..)
-- 
2.43.0


From a5d098066b310ebaddf8a85506b189914c179a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:22 +0000
Subject: [PATCH 05/35] fix: reject packet identifier 0 when parsing

PUBLISH(QoS>0), SUBSCRIBE, SUBACK, UNSUBSCRIBE and UNSUBACK accepted a zero
packet identifier that the builders (and the specification) reject; a QoS>0
PUBLISH with id 0 made an endpoint with automatic responses panic.
---
 src/mqtt/packet/v3_1_1/publish.rs     | 3 +++
 src/mqtt/packet/v3_1_1/suback.rs      | 3 +++
 src/mqtt/packet/v3_1_1/subscribe.rs   | 3 +++
 src/mqtt/packet/v3_1_1/unsuback.rs    | 3 +++
 src/mqtt/packet/v3_1_1/unsubscribe.rs | 3 +++
 src/mqtt/packet/v5_0/publish.rs       | 3 +++
 src/mqtt/packet/v5_0/suback.rs        | 3 +++
 src/mqtt/packet/v5_0/subscribe.rs     | 3 +++
 src/mqtt/packet/v5_0/unsuback.rs      | 3 +++
 src/mqtt/packet/v5_0/unsubscribe.rs   | 3 +++
 10 files changed, 30 insertions(+)

diff --git a/src/mqtt/packet/v3_1_1/publish.rs b/src/mqtt/packet/v3_1_1/publish.rs
index e8075aa..4627424 100644
--- a/src/mqtt/packet/v3_1_1/publish.rs
+++ b/src/mqtt/packet/v3_1_1/publish.rs
@@ -644,6 +644,9 @@ where
             let mut buf = PacketIdType::Buffer::default();
             buf.as_mut()
                 .copy_from_slice(&data_arc[cursor..cursor + buffer_size]);
+            if PacketIdType::from_buffer(buf.as_ref()).is_zero() {
+                return Err(MqttError::MalformedPacket);
+            }
             cursor += buffer_size;
             Some(buf)
         } else {
diff --git a/src/mqtt/packet/v3_1_1/suback.rs b/src/mqtt/packet/v3_1_1/suback.rs
index 2ce652b..bb81490 100644
--- a/src/mqtt/packet/v3_1_1/suback.rs
+++ b/src/mqtt/packet/v3_1_1/suback.rs
@@ -322,6 +322,9 @@ where
         }
 
         let packet_id = PacketIdType::from_buffer(&data[0..buffer_size]);
+        if packet_id.is_zero() {
+            return Err(MqttError::MalformedPacket);
+        }
         let packet_id_buf = packet_id.to_buffer();
         cursor += buffer_size;
 
diff --git a/src/mqtt/packet/v3_1_1/subscribe.rs b/src/mqtt/packet/v3_1_1/subscribe.rs
index f9049ff..a440d7f 100644
--- a/src/mqtt/packet/v3_1_1/subscribe.rs
+++ b/src/mqtt/packet/v3_1_1/subscribe.rs
@@ -316,6 +316,9 @@ where
         }
 
         let packet_id = PacketIdType::from_buffer(&data[0..buffer_size]);
+        if packet_id.is_zero() {
+            return Err(MqttError::MalformedPacket);
+        }
         let packet_id_buf = packet_id.to_buffer();
         cursor += buffer_size;
 
diff --git a/src/mqtt/packet/v3_1_1/unsuback.rs b/src/mqtt/packet/v3_1_1/unsuback.rs
index 70ca4b3..67efb51 100644
--- a/src/mqtt/packet/v3_1_1/unsuback.rs
+++ b/src/mqtt/packet/v3_1_1/unsuback.rs
@@ -349,6 +349,9 @@ where
         }
 
         let packet_id = PacketIdType::from_buffer(&data[0..buffer_size]);
+        if packet_id.is_zero() {
+            return Err(MqttError::MalformedPacket);
+        }
         let packet_id_buf = packet_id.to_buffer();
         cursor += buffer_size;
 
diff --git a/src/mqtt/packet/v3_1_1/unsubscribe.rs b/src/mqtt/packet/v3_1_1/unsubscribe.rs
index 1898c15..ee52a45 100644
--- a/src/mqtt/packet/v3_1_1/unsubscribe.rs
+++ b/src/mqtt/packet/v3_1_1/unsubscribe.rs
@@ -331,6 +331,9 @@ where
         }
 
         let packet_id = PacketIdType::from_buffer(&data[0..buffer_size]);
+        if packet_id.is_zero() {
+            return Err(MqttError::MalformedPacket);
+        }
         let packet_id_buf = packet_id.to_buffer();
         cursor += buffer_size;
 
diff --git a/src/mqtt/packet/v5_0/publish.rs b/src/mqtt/packet/v5_0/publish.rs
index 6d38a21..2750f56 100644
--- a/src/mqtt/packet/v5_0/publish.rs
+++ b/src/mqtt/packet/v5_0/publish.rs
@@ -983,6 +983,9 @@ where
             let mut buf = PacketIdType::Buffer::default();
             buf.as_mut()
                 .copy_from_slice(&data_arc[cursor..cursor + buffer_size]);
+            if PacketIdType::from_buffer(buf.as_ref()).is_zero() {
+                return Err(MqttError::MalformedPacket);
+            }
             cursor += buffer_size;
             Some(buf)
         } else {
diff --git a/src/mqtt/packet/v5_0/suback.rs b/src/mqtt/packet/v5_0/suback.rs
index 1367aa0..528e3d2 100644
--- a/src/mqtt/packet/v5_0/suback.rs
+++ b/src/mqtt/packet/v5_0/suback.rs
@@ -366,6 +366,9 @@ where
         }
 
         let packet_id = PacketIdType::from_buffer(&data[0..buffer_size]);
+        if packet_id.is_zero() {
+            return Err(MqttError::MalformedPacket);
+        }
         let packet_id_buf = packet_id.to_buffer();
         cursor += buffer_size;
 
diff --git a/src/mqtt/packet/v5_0/subscribe.rs b/src/mqtt/packet/v5_0/subscribe.rs
index ae98c80..99d71cc 100644
--- a/src/mqtt/packet/v5_0/subscribe.rs
+++ b/src/mqtt/packet/v5_0/subscribe.rs
@@ -336,6 +336,9 @@ where
         }
 
         let packet_id = PacketIdType::from_buffer(&data[0..buffer_size]);
+        if packet_id.is_zero() {
+            return Err(MqttError::MalformedPacket);
+        }
         let packet_id_buf = packet_id.to_buffer();
         cursor += buffer_size;
 
diff --git a/src/mqtt/packet/v5_0/unsuback.rs b/src/mqtt/packet/v5_0/unsuback.rs
index c63e7ee..c4ac22b 100644
--- a/src/mqtt/packet/v5_0/unsuback.rs
+++ b/src/mqtt/packet/v5_0/unsuback.rs
@@ -361,6 +361,9 @@ where
         }
 
         let packet_id = PacketIdType::from_buffer(&data[0..buffer_size]);
+        if packet_id.is_zero() {
+            return Err(MqttError::MalformedPacket);
+        }
         let packet_id_buf = packet_id.to_buffer();
         cursor += buffer_size;
 
diff --git a/src/mqtt/packet/v5_0/unsubscribe.rs b/src/mqtt/packet/v5_0/unsubscribe.rs
index 178f354..20b1f5e 100644
--- a/src/mqtt/packet/v5_0/unsubscribe.rs
+++ b/src/mqtt/packet/v5_0/unsubscribe.rs
@@ -347,6 +347,9 @@ where
         }
 
         let packet_id = PacketIdType::from_buffer(&data[0..buffer_size]);
+        if packet_id.is_zero() {
+            return Err(MqttError::MalformedPacket);
+        }
         let packet_id_buf = packet_id.to_buffer();
         cursor += buffer_size;
 
-- 
2.43.0


From a944e0929842a7feccd146c3e3e103f11e3ef30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:58 +0000
Subject: [PATCH 06/35] fix: reject variable byte integers that are not
 minimally encoded

MQTT-1.5.5-1 requires the minimum number of bytes. Parsers that accepted a
non-minimal property length produced packets whose size() disagreed with
their serialisation.
---
 src/mqtt/packet/variable_byte_integer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mqtt/packet/variable_byte_integer.rs b/src/mqtt/packet/variable_byte_integer.rs
index 5f29816..a022003 100644
--- a/src/mqtt/packet/variable_byte_integer.rs
+++ b/src/mqtt/packet/variable_byte_integer.rs
@@ -113,7 +113,8 @@ impl VariableByteInteger {
             if (b & 0x80) == 0 {
                 // complete
                 return match Self::from_u32(value) {
-                    Some(vbi) => DecodeResult::Ok(vbi, i + 1),
+                    Some(vbi) if vbi.size() == i + 1 => DecodeResult::Ok(vbi, i + 1),
+                    Some(_) => DecodeResult::Err("Malformed VariableByteInteger: not minimal"),
                     None => DecodeResult::Err("Encoding failure"),
                 };
             }
-- 
2.43.0


From a9662c0694ba2aa2670df3ca004eeff70d7d2412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:29 +0000
Subject: [PATCH 07/35] fix: reject PUBLISH topic names that the builders
 reject when parsing

Wildcards (both versions) and an empty v3.1.1 topic name were accepted from
the wire although no builder produces them.
---
 src/mqtt/packet/v3_1_1/publish.rs | 3 +++
 src/mqtt/packet/v5_0/publish.rs   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/mqtt/packet/v3_1_1/publish.rs b/src/mqtt/packet/v3_1_1/publish.rs
index 4627424..5628257 100644
--- a/src/mqtt/packet/v3_1_1/publish.rs
+++ b/src/mqtt/packet/v3_1_1/publish.rs
@@ -628,6 +628,9 @@ where
 
         let (topic_name, consumed) = MqttString::decode(&data_arc[cursor..])?;
         cursor += consumed;
+        if topic_name.as_str().is_empty() || topic_name.as_str().contains(['#', '+']) {
+            return Err(MqttError::MalformedPacket);
+        }
 
         let qos = match qos_value {
             0 => Qos::AtMostOnce,
diff --git a/src/mqtt/packet/v5_0/publish.rs b/src/mqtt/packet/v5_0/publish.rs
index 2750f56..17f321a 100644
--- a/src/mqtt/packet/v5_0/publish.rs
+++ b/src/mqtt/packet/v5_0/publish.rs
@@ -967,6 +967,9 @@ where
 
         let (topic_name, consumed) = MqttString::decode(&data_arc[cursor..])?;
         cursor += consumed;
+        if topic_name.as_str().contains(['#', '+']) {
+            return Err(MqttError::MalformedPacket);
+        }
 
         let qos = match qos_value {
             0 => Qos::AtMostOnce,
-- 
2.43.0


From e55f23dc2432964ef74c049f55004f6a12a55871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:53 +0000
Subject: [PATCH 08/35] fix: reject a v5.0 PUBLISH with neither topic name nor
 topic alias when parsing

The builder rejects it; the connection still reports it as Topic Alias
invalid.
---
 src/mqtt/packet/v5_0/publish.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mqtt/packet/v5_0/publish.rs b/src/mqtt/packet/v5_0/publish.rs
index 17f321a..b607255 100644
--- a/src/mqtt/packet/v5_0/publish.rs
+++ b/src/mqtt/packet/v5_0/publish.rs
@@ -1004,6 +1004,11 @@ where
         } else {
             (VariableByteInteger::from_u32(0).unwrap(), Properties::new())
         };
+        if topic_name.as_str().is_empty()
+            && !props.iter().any(|p| matches!(p, Property::TopicAlias(_)))
+        {
+            return Err(MqttError::TopicAliasInvalid);
+        }
 
         let payload_len = data_arc.len() - cursor;
         let payload = if payload_len > 0 {
-- 
2.43.0


From fadc67b7606219bdd55805b19285e3b1eaec2daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:37 +0000
Subject: [PATCH 09/35] fix: reject invalid CONNECT flags when parsing

The reserved bit, will QoS 3, and will QoS/retain without the will flag were
accepted from the wire although no builder produces them.
---
 src/mqtt/packet/v3_1_1/connect.rs | 11 +++++++++++
 src/mqtt/packet/v5_0/connect.rs   | 11 +++++++++++
 2 files changed, 22 insertions(+)

diff --git a/src/mqtt/packet/v3_1_1/connect.rs b/src/mqtt/packet/v3_1_1/connect.rs
index 3bb1dc2..cdcd00a 100644
--- a/src/mqtt/packet/v3_1_1/connect.rs
+++ b/src/mqtt/packet/v3_1_1/connect.rs
@@ -559,6 +559,17 @@ impl Connect {
         let connect_flags = data[cursor];
         let connect_flags_buf = [connect_flags];
         cursor += 1;
+        if (connect_flags & 0b0000_0001) != 0 {
+            // reserved bit
+            return Err(MqttError::MalformedPacket);
+        }
+        let will_bits = connect_flags & 0b0011_1100;
+        if (will_bits & 0b0001_1000) == 0b0001_1000
+            || (will_bits != 0 && (will_bits & 0b0000_0100) == 0)
+        {
+            // will QoS 3, or will QoS/retain without the will flag
+            return Err(MqttError::MalformedPacket);
+        }
 
         // Keep Alive
         if data.len() < cursor + 2 {
diff --git a/src/mqtt/packet/v5_0/connect.rs b/src/mqtt/packet/v5_0/connect.rs
index 7a27792..fb73fcb 100644
--- a/src/mqtt/packet/v5_0/connect.rs
+++ b/src/mqtt/packet/v5_0/connect.rs
@@ -589,6 +589,17 @@ impl Connect {
         let connect_flags = data[cursor];
         let connect_flags_buf = [connect_flags];
         cursor += 1;
+        if (connect_flags & 0b0000_0001) != 0 {
+            // reserved bit
+            return Err(MqttError::MalformedPacket);
+        }
+        let will_bits = connect_flags & 0b0011_1100;
+        if (will_bits & 0b0001_1000) == 0b0001_1000
+            || (will_bits != 0 && (will_bits & 0b0000_0100) == 0)
+        {
+            // will QoS 3, or will QoS/retain without the will flag
+            return Err(MqttError::MalformedPacket);
+        }
 
         // Keep Alive
         if data.len() < cursor + 2 {
-- 
2.43.0


From 613577ef05d0996e7be996e030a4e8e377446099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:05 +0000
Subject: [PATCH 10/35] fix: reject reserved CONNACK flags when parsing v5.0

They were kept in the packet although no builder produces them.
---
 src/mqtt/packet/v5_0/connack.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mqtt/packet/v5_0/connack.rs b/src/mqtt/packet/v5_0/connack.rs
index 63fe40b..b7cdc7b 100644
--- a/src/mqtt/packet/v5_0/connack.rs
+++ b/src/mqtt/packet/v5_0/connack.rs
@@ -410,7 +410,10 @@ impl Connack {
         }
         let flags = data[cursor];
         cursor += 1;
-        let _session = (flags & 0x01) != 0;
+        if (flags & 0b1111_1110) != 0 {
+            // reserved bits
+            return Err(MqttError::MalformedPacket);
+        }
         let code = data[cursor];
         cursor += 1;
         let _reason = ConnectReasonCode::try_from(code).map_err(|_| MqttError::MalformedPacket)?;
-- 
2.43.0


From dbe3f209608d8e97118d633d5616002e2e088692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:12 +0000
Subject: [PATCH 11/35] fix: track every incomplete outbound exchange for
 Receive Maximum and release

The counter missed retransmitted exchanges and underflowed on their acknowledgement,
and an exchange between PUBREC and PUBREL was not tracked, so its packet id was never
released when a non persistent connection closed.
---
 src/mqtt/connection/core.rs | 69 +++++++++++++++++++++++++++----------
 1 file changed, 50 insertions(+), 19 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index c568cea..1901a0d 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -150,6 +150,8 @@ where
     pid_unsuback: HashSet<PacketIdType>,
     pid_puback: HashSet<PacketIdType>,
     pid_pubrec: HashSet<PacketIdType>,
+    // PUBREC received but PUBREL not yet sent
+    pid_pubrel: HashSet<PacketIdType>,
     pid_pubcomp: HashSet<PacketIdType>,
 
     need_store: bool,
@@ -173,8 +175,8 @@ where
     // Maximum number of concurrent PUBLISH packets for receiving
     publish_recv_max: Option<u16>,
     // Maximum number of concurrent PUBLISH packets for sending
-    // Current count of PUBLISH packets being sent
-    publish_send_count: u16,
+    // Current count of incomplete outbound QoS 1 and 2 exchanges
+    publish_send_count: usize,
 
     // Set of received PUBLISH packets (for flow control)
     publish_recv: HashSet<PacketIdType>,
@@ -260,6 +262,7 @@ where
             pid_unsuback: HashSet::default(),
             pid_puback: HashSet::default(),
             pid_pubrec: HashSet::default(),
+            pid_pubrel: HashSet::default(),
             pid_pubcomp: HashSet::default(),
             need_store: false,
             store: GenericStore::new(),
@@ -774,6 +777,14 @@ where
                 }
             }
 
+            // Release packet IDs waiting for PUBREL to be sent
+            for packet_id in self.pid_pubrel.drain() {
+                if self.pid_man.is_used_id(packet_id) {
+                    self.pid_man.release_id(packet_id);
+                    events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
+                }
+            }
+
             // Release packet IDs for PUBCOMP
             for packet_id in self.pid_pubcomp.drain() {
                 if self.pid_man.is_used_id(packet_id) {
@@ -783,6 +794,12 @@ where
             }
         }
 
+        // Flow control does not outlive the connection
+        self.publish_send_max = None;
+        self.publish_recv_max = None;
+        self.publish_send_count = 0;
+        self.publish_recv.clear();
+
         // Cancel all timers
         self.cancel_timers(&mut events);
 
@@ -843,8 +860,9 @@ where
     /// The remaining capacity for outgoing PUBLISH packets, or `None` if no limit is set
     pub fn get_receive_maximum_vacancy_for_send(&self) -> Option<u16> {
         // If publish_recv_max is set, return the remaining capacity
-        self.publish_send_max
-            .map(|max| max.saturating_sub(self.publish_send_count))
+        self.publish_send_max.map(|max| {
+            max.saturating_sub(u16::try_from(self.publish_send_count).unwrap_or(u16::MAX))
+        })
     }
 
     /// Enable or disable offline publishing
@@ -1147,10 +1165,7 @@ where
             self.pid_puback.remove(&packet_id);
             self.pid_pubrec.remove(&packet_id);
 
-            // For V5.0, decrement publish send count if flow control is enabled
-            if self.publish_send_max.is_some() && self.publish_send_count > 0 {
-                self.publish_send_count -= 1;
-            }
+            self.update_publish_send_count();
 
             // Release the packet ID if it's managed
             if self.pid_man.is_used_id(packet_id) {
@@ -1236,7 +1251,19 @@ where
         self.pid_puback.clear();
         self.pid_pubrec.clear();
         self.pid_pubcomp.clear();
+        self.pid_pubrel.clear();
         self.store.clear();
+        self.update_publish_send_count();
+    }
+
+    /// Recompute the number of incomplete outbound QoS 1 and 2 exchanges
+    ///
+    /// Retransmitted packets count as well as newly sent ones.
+    fn update_publish_send_count(&mut self) {
+        self.publish_send_count = self.pid_puback.len()
+            + self.pid_pubrec.len()
+            + self.pid_pubrel.len()
+            + self.pid_pubcomp.len();
     }
 
     /// Send all stored packets for retransmission
@@ -1255,6 +1282,7 @@ where
             });
             true // Keep in store
         });
+        self.update_publish_send_count();
 
         events
     }
@@ -1713,7 +1741,9 @@ where
         // Check receive_maximum for sending (QoS 1 and 2 packets)
         if packet.qos() == Qos::AtLeastOnce || packet.qos() == Qos::ExactlyOnce {
             if let Some(max) = self.publish_send_max {
-                if self.publish_send_count == max {
+                if self.status != ConnectionStatus::Disconnected
+                    && self.publish_send_count >= max as usize
+                {
                     events.push(GenericEvent::NotifyError(MqttError::ReceiveMaximumExceeded));
                     if let Some(packet_id) = packet_id_opt {
                         if self.pid_man.is_used_id(packet_id) {
@@ -1726,8 +1756,8 @@ where
                     }
                     return events;
                 }
-                self.publish_send_count += 1;
             }
+            self.update_publish_send_count();
         }
 
         if self.status == ConnectionStatus::Connected {
@@ -1849,9 +1879,11 @@ where
         if self.need_store {
             self.store.add(packet.clone().try_into().unwrap()).unwrap();
         }
+        self.pid_pubrel.remove(&packet_id);
 
         if self.status == ConnectionStatus::Connected {
             self.pid_pubcomp.insert(packet_id);
+            self.update_publish_send_count();
             events.push(GenericEvent::RequestSendPacket {
                 packet: packet.into(),
                 release_packet_id_if_send_error: None,
@@ -1885,9 +1917,11 @@ where
         if self.need_store {
             self.store.add(packet.clone().try_into().unwrap()).unwrap();
         }
+        self.pid_pubrel.remove(&packet_id);
 
         if self.status == ConnectionStatus::Connected {
             self.pid_pubcomp.insert(packet_id);
+            self.update_publish_send_count();
             events.push(GenericEvent::RequestSendPacket {
                 packet: packet.into(),
                 release_packet_id_if_send_error: None,
@@ -2632,6 +2666,7 @@ where
                     }
                     _ => {}
                 });
+                self.update_publish_send_count();
                 events.extend(self.refresh_pingreq_recv());
                 events.push(GenericEvent::NotifyPacketReceived(packet.into()));
             }
@@ -3045,9 +3080,7 @@ where
                         self.pid_man.release_id(packet_id);
                         events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
                     }
-                    if self.publish_send_max.is_some() {
-                        self.publish_send_count -= 1;
-                    }
+                    self.update_publish_send_count();
                     events.extend(self.refresh_pingreq_recv());
                     events.push(GenericEvent::NotifyPacketReceived(packet.into()));
                 } else {
@@ -3073,6 +3106,7 @@ where
                 let packet_id = packet.packet_id();
                 if self.pid_pubrec.remove(&packet_id) {
                     self.store.erase(ResponsePacket::V3_1_1Pubrec, packet_id);
+                    self.pid_pubrel.insert(packet_id);
                     if self.auto_pub_response && self.status == ConnectionStatus::Connected {
                         let pubrel = v3_1_1::GenericPubrel::<PacketIdType>::builder()
                             .packet_id(packet_id)
@@ -3107,6 +3141,7 @@ where
                     self.store.erase(ResponsePacket::V5_0Pubrec, packet_id);
                     let reason_code = packet.reason_code();
                     if reason_code.is_none() || reason_code.unwrap() == PubrecReasonCode::Success {
+                        self.pid_pubrel.insert(packet_id);
                         if self.auto_pub_response && self.status == ConnectionStatus::Connected {
                             let pubrel = v5_0::GenericPubrel::<PacketIdType>::builder()
                                 .packet_id(packet_id)
@@ -3119,10 +3154,8 @@ where
                             self.pid_man.release_id(packet_id);
                             events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
                         }
-                        if self.publish_send_max.is_some() {
-                            self.publish_send_count -= 1;
-                        }
                     }
+                    self.update_publish_send_count();
                     events.extend(self.refresh_pingreq_recv());
                     events.push(GenericEvent::NotifyPacketReceived(packet.into()));
                 } else {
@@ -3249,9 +3282,7 @@ where
                         self.pid_man.release_id(packet_id);
                         events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
                     }
-                    if self.publish_send_max.is_some() {
-                        self.publish_send_count -= 1;
-                    }
+                    self.update_publish_send_count();
                     events.extend(self.refresh_pingreq_recv());
                     events.push(GenericEvent::NotifyPacketReceived(packet.into()));
                 } else {
-- 
2.43.0


From 9578064bfd47b85f807307c169b8a325f621179e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:41 +0000
Subject: [PATCH 12/35] fix: a PUBREL stored while offline awaits its PUBCOMP
 and arms no timer

---
 src/mqtt/connection/core.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 1901a0d..20f95c7 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1880,16 +1880,16 @@ where
             self.store.add(packet.clone().try_into().unwrap()).unwrap();
         }
         self.pid_pubrel.remove(&packet_id);
+        self.pid_pubcomp.insert(packet_id);
+        self.update_publish_send_count();
 
         if self.status == ConnectionStatus::Connected {
-            self.pid_pubcomp.insert(packet_id);
-            self.update_publish_send_count();
             events.push(GenericEvent::RequestSendPacket {
                 packet: packet.into(),
                 release_packet_id_if_send_error: None,
             });
+            self.send_post_process(&mut events);
         }
-        self.send_post_process(&mut events);
 
         events
     }
@@ -1918,16 +1918,16 @@ where
             self.store.add(packet.clone().try_into().unwrap()).unwrap();
         }
         self.pid_pubrel.remove(&packet_id);
+        self.pid_pubcomp.insert(packet_id);
+        self.update_publish_send_count();
 
         if self.status == ConnectionStatus::Connected {
-            self.pid_pubcomp.insert(packet_id);
-            self.update_publish_send_count();
             events.push(GenericEvent::RequestSendPacket {
                 packet: packet.into(),
                 release_packet_id_if_send_error: None,
             });
+            self.send_post_process(&mut events);
         }
-        self.send_post_process(&mut events);
 
         events
     }
-- 
2.43.0


From f7a13893a4a3ceb17e30cd7430694a77a765d240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:09 +0000
Subject: [PATCH 13/35] fix: refuse a QoS 1 or 2 PUBLISH that would neither be
 sent nor stored

---
 src/mqtt/connection/core.rs | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 20f95c7..6c6effa 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1256,6 +1256,11 @@ where
         self.update_publish_send_count();
     }
 
+    /// Whether a QoS 1 or 2 PUBLISH sent now would be kept in the store
+    fn will_store_publish(&self) -> bool {
+        self.need_store && (self.status != ConnectionStatus::Disconnected || self.offline_publish)
+    }
+
     /// Recompute the number of incomplete outbound QoS 1 and 2 exchanges
     ///
     /// Retransmitted packets count as well as newly sent ones.
@@ -1545,10 +1550,7 @@ where
         if packet.qos() == Qos::AtLeastOnce || packet.qos() == Qos::ExactlyOnce {
             // Register packet ID for QoS 1 or 2
             let packet_id = packet.packet_id().unwrap();
-            if self.status != ConnectionStatus::Connected
-                && !self.need_store
-                && !self.offline_publish
-            {
+            if self.status != ConnectionStatus::Connected && !self.will_store_publish() {
                 events.push(GenericEvent::NotifyError(MqttError::PacketNotAllowedToSend));
                 if self.pid_man.is_used_id(packet_id) {
                     self.pid_man.release_id(packet_id);
@@ -1563,9 +1565,7 @@ where
                 ));
                 return events;
             }
-            if self.need_store
-                && (self.status != ConnectionStatus::Disconnected || self.offline_publish)
-            {
+            if self.will_store_publish() {
                 let store_packet = packet.clone().set_dup(true);
                 self.store.add(store_packet.try_into().unwrap()).unwrap();
             } else {
@@ -1605,10 +1605,7 @@ where
         let mut topic_alias_validated = false;
         if packet.qos() == Qos::AtLeastOnce || packet.qos() == Qos::ExactlyOnce {
             let packet_id = packet.packet_id().unwrap();
-            if self.status != ConnectionStatus::Connected
-                && !self.need_store
-                && !self.offline_publish
-            {
+            if self.status != ConnectionStatus::Connected && !self.will_store_publish() {
                 events.push(GenericEvent::NotifyError(MqttError::PacketNotAllowedToSend));
                 if self.pid_man.is_used_id(packet_id) {
                     self.pid_man.release_id(packet_id);
@@ -1626,9 +1623,7 @@ where
                 return events;
             }
 
-            if self.need_store
-                && (self.status != ConnectionStatus::Disconnected || self.offline_publish)
-            {
+            if self.will_store_publish() {
                 let ta_opt = Self::get_topic_alias_from_props(packet.props());
                 if packet.topic_name().is_empty() {
                     // Topic name is empty, must validate topic alias
-- 
2.43.0


From cdd1478e83461815ad102ac20db82411ebd8820f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:41 +0000
Subject: [PATCH 14/35] fix: a CONNACK that is not expected is a protocol error
 and changes nothing

---
 src/mqtt/connection/core.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 6c6effa..1b96574 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -2690,12 +2690,29 @@ where
         events
     }
 
+    /// Whether a CONNACK may arrive in the current state
+    ///
+    /// It answers the CONNECT of a connecting client, and nothing else: not an established
+    /// connection, not a connection that acts as a server, and not one already disconnected.
+    /// (Before the first CONNECT of the object it is let through.)
+    fn is_connack_expected(&self) -> bool {
+        match self.status {
+            ConnectionStatus::Connecting => self.is_client,
+            ConnectionStatus::Disconnected => !self.is_client,
+            ConnectionStatus::Connected => false,
+        }
+    }
+
     fn process_recv_v3_1_1_connack(
         &mut self,
         raw_packet: RawPacket,
     ) -> Vec<GenericEvent<PacketIdType>> {
         let mut events = Vec::new();
 
+        if !self.is_connack_expected() {
+            Self::handle_v3_1_1_error(MqttError::ProtocolError, &mut events);
+            return events;
+        }
         match v3_1_1::Connack::parse(raw_packet.data_as_slice()) {
             Ok((packet, _consumed)) => {
                 if packet.return_code() == ConnectReturnCode::Accepted {
@@ -2724,6 +2741,10 @@ where
     ) -> Vec<GenericEvent<PacketIdType>> {
         let mut events = Vec::new();
 
+        if !self.is_connack_expected() {
+            self.handle_v5_0_error(MqttError::ProtocolError, &mut events);
+            return events;
+        }
         match v5_0::Connack::parse(raw_packet.data_as_slice()) {
             Ok((packet, _consumed)) => {
                 if packet.reason_code() == ConnectReasonCode::Success {
@@ -2791,11 +2812,7 @@ where
                 ));
             }
             Err(e) => {
-                if self.status == ConnectionStatus::Connected {
-                    self.handle_v5_0_error(e, &mut events);
-                } else {
-                    events.push(GenericEvent::NotifyError(e));
-                }
+                events.push(GenericEvent::NotifyError(e));
             }
         }
 
-- 
2.43.0


From 7c7a5a7b174654aba1997e342d92d12d841ac7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:34 +0000
Subject: [PATCH 15/35] fix: a new session starts without handled QoS 2 packet
 ids of the old one

---
 src/mqtt/connection/core.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 1b96574..80952f6 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1252,6 +1252,7 @@ where
         self.pid_pubrec.clear();
         self.pid_pubcomp.clear();
         self.pid_pubrel.clear();
+        self.qos2_publish_handled.clear();
         self.store.clear();
         self.update_publish_send_count();
     }
-- 
2.43.0


From 4315d28021d859aaf2123c165518e5756c1538fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:47 +0000
Subject: [PATCH 16/35] fix: CONNACK with Session Expiry Interval 0 does not
 drop unsent messages and packet ids

The session is present and ends at close, so what is in flight is retransmitted and its
identifiers stay in use; only the store is emptied.
---
 src/mqtt/connection/core.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 80952f6..d7b2552 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -2789,12 +2789,7 @@ where
                                 }
                             }
                             Property::SessionExpiryInterval(val) => {
-                                if val.val() == 0 {
-                                    self.need_store = false;
-                                    self.clear_store_related();
-                                } else {
-                                    self.need_store = true;
-                                }
+                                self.need_store = val.val() != 0;
                             }
                             _ => {
                                 // Ignore other properties
@@ -2804,6 +2799,10 @@ where
 
                     if packet.session_present() {
                         events.extend(self.send_stored());
+                        if !self.need_store {
+                            // The session ends at close, nothing is kept for another one
+                            self.store.clear();
+                        }
                     } else {
                         self.clear_store_related();
                     }
-- 
2.43.0


From bbceb1f8d92cf6a0310cf6f4ae9a241a04cd8359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:06 +0000
Subject: [PATCH 17/35] fix: a server that answers CONNECT without session
 present starts a new session

It also applies the Session Expiry Interval its own CONNACK carries.
---
 src/mqtt/connection/core.rs | 42 ++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index d7b2552..1ef55e1 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1257,6 +1257,19 @@ where
         self.update_publish_send_count();
     }
 
+    /// Retransmit the stored packets of the present session, or start a new one
+    fn resume_or_reset_session(
+        &mut self,
+        session_present: bool,
+        events: &mut Vec<GenericEvent<PacketIdType>>,
+    ) {
+        if session_present {
+            events.extend(self.send_stored());
+        } else {
+            self.clear_store_related();
+        }
+    }
+
     /// Whether a QoS 1 or 2 PUBLISH sent now would be kept in the store
     fn will_store_publish(&self) -> bool {
         self.need_store && (self.status != ConnectionStatus::Disconnected || self.offline_publish)
@@ -1448,6 +1461,7 @@ where
         }
         let mut events = Vec::new();
         let rc = packet.return_code();
+        let session_present = packet.session_present();
         events.push(GenericEvent::RequestSendPacket {
             packet: packet.into(),
             release_packet_id_if_send_error: None,
@@ -1460,7 +1474,7 @@ where
         }
 
         self.status = ConnectionStatus::Connected;
-        events.extend(self.send_stored());
+        self.resume_or_reset_session(session_present, &mut events);
         self.send_post_process(&mut events);
 
         events
@@ -1480,6 +1494,7 @@ where
 
         let mut events = Vec::new();
         let rc = packet.reason_code();
+        let session_present = packet.session_present();
         if rc == ConnectReasonCode::Success {
             // Process properties
             for prop in packet.props() {
@@ -1515,6 +1530,9 @@ where
                             });
                         }
                     }
+                    Property::SessionExpiryInterval(val) => {
+                        self.need_store = val.val() != 0;
+                    }
                     _ => {
                         // Ignore other properties
                     }
@@ -1535,7 +1553,7 @@ where
 
         self.status = ConnectionStatus::Connected;
 
-        events.extend(self.send_stored());
+        self.resume_or_reset_session(session_present, &mut events);
         self.send_post_process(&mut events);
 
         events
@@ -2718,11 +2736,7 @@ where
             Ok((packet, _consumed)) => {
                 if packet.return_code() == ConnectReturnCode::Accepted {
                     self.status = ConnectionStatus::Connected;
-                    if packet.session_present() {
-                        events.extend(self.send_stored());
-                    } else {
-                        self.clear_store_related();
-                    }
+                    self.resume_or_reset_session(packet.session_present(), &mut events);
                 }
                 events.push(GenericEvent::NotifyPacketReceived(
                     GenericPacket::V3_1_1Connack(packet),
@@ -2750,6 +2764,7 @@ where
             Ok((packet, _consumed)) => {
                 if packet.reason_code() == ConnectReasonCode::Success {
                     self.status = ConnectionStatus::Connected;
+                    let mut session_ends_at_close = false;
 
                     // Process properties
                     for prop in packet.props() {
@@ -2790,6 +2805,7 @@ where
                             }
                             Property::SessionExpiryInterval(val) => {
                                 self.need_store = val.val() != 0;
+                                session_ends_at_close = !self.need_store;
                             }
                             _ => {
                                 // Ignore other properties
@@ -2797,14 +2813,10 @@ where
                         }
                     }
 
-                    if packet.session_present() {
-                        events.extend(self.send_stored());
-                        if !self.need_store {
-                            // The session ends at close, nothing is kept for another one
-                            self.store.clear();
-                        }
-                    } else {
-                        self.clear_store_related();
+                    self.resume_or_reset_session(packet.session_present(), &mut events);
+                    if session_ends_at_close {
+                        // Nothing is kept for another connection
+                        self.store.clear();
                     }
                 }
                 events.push(GenericEvent::NotifyPacketReceived(
-- 
2.43.0


From 66e296d0e8da035bc91bd2e723d6514663d3164a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:13 +0000
Subject: [PATCH 18/35] fix: a refused PUBLISH, SUBSCRIBE or UNSUBSCRIBE always
 releases its packet id

---
 src/mqtt/connection/core.rs | 88 +++++++++++++++++++++----------------
 1 file changed, 50 insertions(+), 38 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 1ef55e1..04d4747 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -399,7 +399,8 @@ where
 
         // Return error if versions don't match
         if self.protocol_version != packet_version {
-            return vec![GenericEvent::NotifyError(MqttError::VersionMismatch)];
+            let packet_id = Self::get_request_packet_id(&packet);
+            return self.refuse_send(MqttError::VersionMismatch, packet_id);
         }
 
         match packet {
@@ -450,28 +451,32 @@ where
                 if role_id == client_id || role_id == any_id {
                     self.process_send_v3_1_1_subscribe(p)
                 } else {
-                    vec![GenericEvent::NotifyError(MqttError::PacketNotAllowedToSend)]
+                    let packet_id = p.packet_id();
+                    self.refuse_send(MqttError::PacketNotAllowedToSend, Some(packet_id))
                 }
             }
             GenericPacket::V5_0Subscribe(p) => {
                 if role_id == client_id || role_id == any_id {
                     self.process_send_v5_0_subscribe(p)
                 } else {
-                    vec![GenericEvent::NotifyError(MqttError::PacketNotAllowedToSend)]
+                    let packet_id = p.packet_id();
+                    self.refuse_send(MqttError::PacketNotAllowedToSend, Some(packet_id))
                 }
             }
             GenericPacket::V3_1_1Unsubscribe(p) => {
                 if role_id == client_id || role_id == any_id {
                     self.process_send_v3_1_1_unsubscribe(p)
                 } else {
-                    vec![GenericEvent::NotifyError(MqttError::PacketNotAllowedToSend)]
+                    let packet_id = p.packet_id();
+                    self.refuse_send(MqttError::PacketNotAllowedToSend, Some(packet_id))
                 }
             }
             GenericPacket::V5_0Unsubscribe(p) => {
                 if role_id == client_id || role_id == any_id {
                     self.process_send_v5_0_unsubscribe(p)
                 } else {
-                    vec![GenericEvent::NotifyError(MqttError::PacketNotAllowedToSend)]
+                    let packet_id = p.packet_id();
+                    self.refuse_send(MqttError::PacketNotAllowedToSend, Some(packet_id))
                 }
             }
             // SUBACK/UNSUBACK - Server/Any can send
@@ -1257,6 +1262,35 @@ where
         self.update_publish_send_count();
     }
 
+    /// Packet id of a packet that starts an exchange
+    fn get_request_packet_id(packet: &GenericPacket<PacketIdType>) -> Option<PacketIdType> {
+        match packet {
+            GenericPacket::V3_1_1Publish(p) => p.packet_id(),
+            GenericPacket::V5_0Publish(p) => p.packet_id(),
+            GenericPacket::V3_1_1Subscribe(p) => Some(p.packet_id()),
+            GenericPacket::V5_0Subscribe(p) => Some(p.packet_id()),
+            GenericPacket::V3_1_1Unsubscribe(p) => Some(p.packet_id()),
+            GenericPacket::V5_0Unsubscribe(p) => Some(p.packet_id()),
+            _ => None,
+        }
+    }
+
+    /// Refuse to send a packet, and release the packet id it carries
+    fn refuse_send(
+        &mut self,
+        error: MqttError,
+        packet_id: Option<PacketIdType>,
+    ) -> Vec<GenericEvent<PacketIdType>> {
+        let mut events = vec![GenericEvent::NotifyError(error)];
+        if let Some(packet_id) = packet_id {
+            if self.pid_man.is_used_id(packet_id) {
+                self.pid_man.release_id(packet_id);
+                events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
+            }
+        }
+        events
+    }
+
     /// Retransmit the stored packets of the present session, or start a new one
     fn resume_or_reset_session(
         &mut self,
@@ -1616,7 +1650,7 @@ where
         mut packet: v5_0::GenericPublish<PacketIdType>,
     ) -> Vec<GenericEvent<PacketIdType>> {
         if !self.validate_maximum_packet_size_send(packet.size()) {
-            return vec![GenericEvent::NotifyError(MqttError::PacketTooLarge)];
+            return self.refuse_send(MqttError::PacketTooLarge, packet.packet_id());
         }
 
         let mut events = Vec::new();
@@ -1994,12 +2028,7 @@ where
         let mut events = Vec::new();
         let packet_id = packet.packet_id();
         if self.status != ConnectionStatus::Connected {
-            events.push(GenericEvent::NotifyError(MqttError::PacketNotAllowedToSend));
-            if self.pid_man.is_used_id(packet_id) {
-                self.pid_man.release_id(packet_id);
-                events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
-            }
-            return events;
+            return self.refuse_send(MqttError::PacketNotAllowedToSend, Some(packet_id));
         }
         if !self.pid_man.is_used_id(packet_id) {
             error!("packet_id {packet_id} must be acquired or registered");
@@ -2023,19 +2052,13 @@ where
         &mut self,
         packet: v5_0::GenericSubscribe<PacketIdType>,
     ) -> Vec<GenericEvent<PacketIdType>> {
-        if !self.validate_maximum_packet_size_send(packet.size()) {
-            return vec![GenericEvent::NotifyError(MqttError::PacketTooLarge)];
-        }
-
         let mut events = Vec::new();
         let packet_id = packet.packet_id();
+        if !self.validate_maximum_packet_size_send(packet.size()) {
+            return self.refuse_send(MqttError::PacketTooLarge, Some(packet_id));
+        }
         if self.status != ConnectionStatus::Connected {
-            events.push(GenericEvent::NotifyError(MqttError::PacketNotAllowedToSend));
-            if self.pid_man.is_used_id(packet_id) {
-                self.pid_man.release_id(packet_id);
-                events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
-            }
-            return events;
+            return self.refuse_send(MqttError::PacketNotAllowedToSend, Some(packet_id));
         }
         if !self.pid_man.is_used_id(packet_id) {
             error!("packet_id {packet_id} must be acquired or registered");
@@ -2100,12 +2123,7 @@ where
         let mut events = Vec::new();
         let packet_id = packet.packet_id();
         if self.status != ConnectionStatus::Connected {
-            events.push(GenericEvent::NotifyError(MqttError::PacketNotAllowedToSend));
-            if self.pid_man.is_used_id(packet_id) {
-                self.pid_man.release_id(packet_id);
-                events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
-            }
-            return events;
+            return self.refuse_send(MqttError::PacketNotAllowedToSend, Some(packet_id));
         }
         if !self.pid_man.is_used_id(packet_id) {
             error!("packet_id {packet_id} must be acquired or registered");
@@ -2129,19 +2147,13 @@ where
         &mut self,
         packet: v5_0::GenericUnsubscribe<PacketIdType>,
     ) -> Vec<GenericEvent<PacketIdType>> {
-        if !self.validate_maximum_packet_size_send(packet.size()) {
-            return vec![GenericEvent::NotifyError(MqttError::PacketTooLarge)];
-        }
-
         let mut events = Vec::new();
         let packet_id = packet.packet_id();
+        if !self.validate_maximum_packet_size_send(packet.size()) {
+            return self.refuse_send(MqttError::PacketTooLarge, Some(packet_id));
+        }
         if self.status != ConnectionStatus::Connected {
-            events.push(GenericEvent::NotifyError(MqttError::PacketNotAllowedToSend));
-            if self.pid_man.is_used_id(packet_id) {
-                self.pid_man.release_id(packet_id);
-                events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
-            }
-            return events;
+            return self.refuse_send(MqttError::PacketNotAllowedToSend, Some(packet_id));
         }
         if !self.pid_man.is_used_id(packet_id) {
             error!("packet_id {packet_id} must be acquired or registered");
-- 
2.43.0


From d6aafd051978596a92ec51bc8f17b0b935492fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:46 +0000
Subject: [PATCH 19/35] fix: a stored packet dropped as oversize is no longer
 in flight

---
 src/mqtt/connection/core.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 04d4747..f850c56 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1325,8 +1325,13 @@ where
         self.store.for_each(|packet| {
             if packet.size() > self.maximum_packet_size_send as usize {
                 let packet_id = packet.packet_id();
-                self.pid_man.release_id(packet_id);
-                events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
+                self.pid_puback.remove(&packet_id);
+                self.pid_pubrec.remove(&packet_id);
+                self.pid_pubcomp.remove(&packet_id);
+                if self.pid_man.is_used_id(packet_id) {
+                    self.pid_man.release_id(packet_id);
+                    events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
+                }
                 return false; // Remove from store
             }
             events.push(GenericEvent::RequestSendPacket {
-- 
2.43.0


From b18bfac14e5df64058c0abefed10a6cadcfe8759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:57 +0000
Subject: [PATCH 20/35] fix: a close keeps a restored session, and empties the
 store of a non persistent one

---
 src/mqtt/connection/core.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index f850c56..1493b58 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -765,6 +765,7 @@ where
         // If not storing session state, clear QoS2 states and release publish-related packet IDs
         if !self.need_store {
             self.qos2_publish_handled.clear();
+            self.store.clear();
 
             // Release packet IDs for PUBACK
             for packet_id in self.pid_puback.drain() {
@@ -1021,6 +1022,10 @@ where
     ///
     /// * `pids` - A `HashSet` containing packet IDs of previously handled QoS 2 PUBLISH packets
     pub fn restore_qos2_publish_handled(&mut self, pids: HashSet<PacketIdType>) {
+        if !pids.is_empty() && self.status == ConnectionStatus::Disconnected {
+            // Restored session state outlives a close before the next CONNECT
+            self.need_store = true;
+        }
         self.qos2_publish_handled = pids;
     }
 
@@ -1033,6 +1038,10 @@ where
     ///
     /// * `packets` - Vector of packets to restore
     pub fn restore_packets(&mut self, packets: Vec<GenericStorePacket<PacketIdType>>) {
+        if !packets.is_empty() && self.status == ConnectionStatus::Disconnected {
+            // Restored session state outlives a close before the next CONNECT
+            self.need_store = true;
+        }
         for packet in packets {
             match &packet {
                 GenericStorePacket::V3_1_1Publish(p) => {
-- 
2.43.0


From 068d6f117afbfef62788850dad175da5a8cfc22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:46 +0000
Subject: [PATCH 21/35] fix: a stored packet skipped on restore is not tracked
 as in flight

---
 src/mqtt/connection/core.rs | 57 ++++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 30 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 1493b58..c09784d 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1045,23 +1045,21 @@ where
         for packet in packets {
             match &packet {
                 GenericStorePacket::V3_1_1Publish(p) => {
-                    // Add to appropriate QoS tracking set
-                    match p.qos() {
-                        Qos::AtLeastOnce => {
-                            self.pid_puback.insert(p.packet_id().unwrap());
-                        }
-                        Qos::ExactlyOnce => {
-                            self.pid_pubrec.insert(p.packet_id().unwrap());
-                        }
-                        _ => {
-                            // QoS 0 shouldn't be in store, but handle gracefully
-                            warn!("QoS 0 packet found in store, skipping");
-                            continue;
-                        }
+                    let qos = p.qos();
+                    if qos == Qos::AtMostOnce {
+                        // QoS 0 shouldn't be in store, but handle gracefully
+                        warn!("QoS 0 packet found in store, skipping");
+                        continue;
                     }
                     // Register packet ID and add to store
                     let packet_id = p.packet_id().unwrap();
                     if self.pid_man.register_id(packet_id).is_ok() {
+                        // Add to appropriate QoS tracking set
+                        if qos == Qos::AtLeastOnce {
+                            self.pid_puback.insert(packet_id);
+                        } else {
+                            self.pid_pubrec.insert(packet_id);
+                        }
                         if let Err(_e) = self.store.add(packet) {
                             error!("Failed to add packet to store: {:?}", _e);
                         }
@@ -1070,23 +1068,21 @@ where
                     }
                 }
                 GenericStorePacket::V5_0Publish(p) => {
-                    // Add to appropriate QoS tracking set
-                    match p.qos() {
-                        Qos::AtLeastOnce => {
-                            self.pid_puback.insert(p.packet_id().unwrap());
-                        }
-                        Qos::ExactlyOnce => {
-                            self.pid_pubrec.insert(p.packet_id().unwrap());
-                        }
-                        _ => {
-                            // QoS 0 shouldn't be in store, but handle gracefully
-                            warn!("QoS 0 packet found in store, skipping");
-                            continue;
-                        }
+                    let qos = p.qos();
+                    if qos == Qos::AtMostOnce {
+                        // QoS 0 shouldn't be in store, but handle gracefully
+                        warn!("QoS 0 packet found in store, skipping");
+                        continue;
                     }
                     // Register packet ID and add to store
                     let packet_id = p.packet_id().unwrap();
                     if self.pid_man.register_id(packet_id).is_ok() {
+                        // Add to appropriate QoS tracking set
+                        if qos == Qos::AtLeastOnce {
+                            self.pid_puback.insert(packet_id);
+                        } else {
+                            self.pid_pubrec.insert(packet_id);
+                        }
                         if let Err(_e) = self.store.add(packet) {
                             error!("Failed to add packet to store: {:?}", _e);
                         }
@@ -1095,11 +1091,11 @@ where
                     }
                 }
                 GenericStorePacket::V3_1_1Pubrel(p) => {
-                    // Pubrel packets expect PUBCOMP response
-                    self.pid_pubcomp.insert(p.packet_id());
                     // Register packet ID and add to store
                     let packet_id = p.packet_id();
                     if self.pid_man.register_id(packet_id).is_ok() {
+                        // Pubrel packets expect PUBCOMP response
+                        self.pid_pubcomp.insert(packet_id);
                         if let Err(_e) = self.store.add(packet) {
                             error!("Failed to add packet to store: {:?}", _e);
                         }
@@ -1108,11 +1104,11 @@ where
                     }
                 }
                 GenericStorePacket::V5_0Pubrel(p) => {
-                    // Pubrel packets expect PUBCOMP response
-                    self.pid_pubcomp.insert(p.packet_id());
                     // Register packet ID and add to store
                     let packet_id = p.packet_id();
                     if self.pid_man.register_id(packet_id).is_ok() {
+                        // Pubrel packets expect PUBCOMP response
+                        self.pid_pubcomp.insert(packet_id);
                         if let Err(_e) = self.store.add(packet) {
                             error!("Failed to add packet to store: {:?}", _e);
                         }
@@ -1122,6 +1118,7 @@ where
                 }
             }
         }
+        self.update_publish_send_count();
     }
 
     /// Get stored packets for persistence
-- 
2.43.0


From 3cb3245a4ba13bd38bab22530a304119fc7cf704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:53 +0000
Subject: [PATCH 22/35] fix: a refused v5.0 PUBLISH changes no topic alias, and
 an alias is bound only by a packet sent

Automatic mapping also falls back to the plain packet when the alias would make it exceed
the Maximum Packet Size of the peer.
---
 src/mqtt/connection/core.rs | 252 ++++++++++++++++--------------------
 1 file changed, 113 insertions(+), 139 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index c09784d..71c74a7 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1376,6 +1376,17 @@ where
         Some(topic.to_string())
     }
 
+    /// Topic name bound to the topic alias, without updating LRU
+    fn peek_topic_alias(&self, topic_alias_opt: Option<u16>) -> Option<String> {
+        let topic_alias = topic_alias_opt?;
+        if !self.validate_topic_alias_range(topic_alias) {
+            return None;
+        }
+        let topic = self.topic_alias_send.as_ref()?.peek(topic_alias)?;
+
+        Some(topic.to_string())
+    }
+
     /// Validate that topic alias is within the allowed range
     ///
     /// Checks if the topic alias value is valid according to the configured
@@ -1660,58 +1671,62 @@ where
         &mut self,
         mut packet: v5_0::GenericPublish<PacketIdType>,
     ) -> Vec<GenericEvent<PacketIdType>> {
+        // Check everything before anything is changed, so that a refused packet leaves no trace
+        let packet_id_opt = packet.packet_id();
         if !self.validate_maximum_packet_size_send(packet.size()) {
-            return self.refuse_send(MqttError::PacketTooLarge, packet.packet_id());
+            return self.refuse_send(MqttError::PacketTooLarge, packet_id_opt);
         }
-
-        let mut events = Vec::new();
-        let mut release_packet_id_if_send_error: Option<PacketIdType> = None;
-        let mut topic_alias_validated = false;
-        if packet.qos() == Qos::AtLeastOnce || packet.qos() == Qos::ExactlyOnce {
-            let packet_id = packet.packet_id().unwrap();
-            if self.status != ConnectionStatus::Connected && !self.will_store_publish() {
-                events.push(GenericEvent::NotifyError(MqttError::PacketNotAllowedToSend));
-                if self.pid_man.is_used_id(packet_id) {
-                    self.pid_man.release_id(packet_id);
-                    events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
-                }
-                return events;
-            }
-
-            // Extract topic_name from TopicAlias and remove TopicAlias property, then store it
+        if self.status != ConnectionStatus::Connected
+            && !(packet_id_opt.is_some() && self.will_store_publish())
+        {
+            return self.refuse_send(MqttError::PacketNotAllowedToSend, packet_id_opt);
+        }
+        if let Some(packet_id) = packet_id_opt {
             if !self.pid_man.is_used_id(packet_id) {
                 error!("packet_id {packet_id} must be acquired or registered");
-                events.push(GenericEvent::NotifyError(
+                return vec![GenericEvent::NotifyError(
                     MqttError::PacketIdentifierInvalid,
-                ));
-                return events;
+                )];
             }
+        }
 
+        // Check manually provided TopicAlias
+        let ta_opt = Self::get_topic_alias_from_props(packet.props());
+        let mut extracted_topic = None;
+        if packet.topic_name().is_empty() {
+            extracted_topic = self.peek_topic_alias(ta_opt);
+            if extracted_topic.is_none() {
+                return self.refuse_send(MqttError::PacketNotAllowedToSend, packet_id_opt);
+            }
+        } else if let Some(ta) = ta_opt {
+            if !self.validate_topic_alias_range(ta) {
+                return self.refuse_send(MqttError::PacketNotAllowedToSend, packet_id_opt);
+            }
+        }
+
+        // Check receive_maximum for sending (QoS 1 and 2 packets)
+        if packet_id_opt.is_some() && self.status != ConnectionStatus::Disconnected {
+            if let Some(max) = self.publish_send_max {
+                if self.publish_send_count >= max as usize {
+                    return self.refuse_send(MqttError::ReceiveMaximumExceeded, packet_id_opt);
+                }
+            }
+        }
+
+        let mut events = Vec::new();
+        let mut release_packet_id_if_send_error: Option<PacketIdType> = None;
+        if let Some(packet_id) = packet_id_opt {
             if self.will_store_publish() {
-                let ta_opt = Self::get_topic_alias_from_props(packet.props());
-                if packet.topic_name().is_empty() {
-                    // Topic name is empty, must validate topic alias
-                    let topic_opt = self.validate_topic_alias(ta_opt);
-                    if topic_opt.is_none() {
-                        events.push(GenericEvent::NotifyError(MqttError::PacketNotAllowedToSend));
-                        if self.pid_man.is_used_id(packet_id) {
-                            self.pid_man.release_id(packet_id);
-                            events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
-                        }
-                        return events;
-                    }
-                    topic_alias_validated = true;
-                    let store_packet = packet
+                // Store the packet with the full topic name and without TopicAlias property
+                let store_packet = match extracted_topic {
+                    Some(topic) => packet
                         .clone()
-                        .remove_topic_alias_add_topic(topic_opt.unwrap())
-                        .unwrap()
-                        .set_dup(true);
-                    self.store.add(store_packet.try_into().unwrap()).unwrap();
-                } else {
-                    // Topic name is not empty, remove topic alias if present
-                    let store_packet = packet.clone().remove_topic_alias().set_dup(true);
-                    self.store.add(store_packet.try_into().unwrap()).unwrap();
+                        .remove_topic_alias_add_topic(topic)
+                        .unwrap(),
+                    None => packet.clone().remove_topic_alias(),
                 }
+                .set_dup(true);
+                self.store.add(store_packet.try_into().unwrap()).unwrap();
             } else {
                 release_packet_id_if_send_error = Some(packet_id);
             }
@@ -1720,114 +1735,73 @@ where
             } else {
                 self.pid_puback.insert(packet_id);
             }
-        } else if self.status != ConnectionStatus::Connected {
-            events.push(GenericEvent::NotifyError(MqttError::PacketNotAllowedToSend));
+            self.update_publish_send_count();
+        }
+
+        if self.status != ConnectionStatus::Connected {
+            // Stored only. It is going to be sent without TopicAlias.
             return events;
         }
 
-        let packet_id_opt = packet.packet_id();
-        let ta_opt = Self::get_topic_alias_from_props(packet.props());
         if packet.topic_name().is_empty() {
-            // process manually provided TopicAlias
-            if !topic_alias_validated && self.validate_topic_alias(ta_opt).is_none() {
-                events.push(GenericEvent::NotifyError(MqttError::PacketNotAllowedToSend));
-                if let Some(packet_id) = packet_id_opt {
-                    if self.pid_man.is_used_id(packet_id) {
-                        self.pid_man.release_id(packet_id);
-                        self.store.erase_publish(packet_id);
-                        self.pid_puback.remove(&packet_id);
-                        self.pid_pubrec.remove(&packet_id);
-                        events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
-                    }
-                }
-                return events;
-            }
+            // LRU updated here
+            self.validate_topic_alias(ta_opt);
         } else if let Some(ta) = ta_opt {
-            // Topic alias is provided
-            if self.validate_topic_alias_range(ta) {
-                trace!(
-                    "topic alias: {} - {} is registered.",
-                    packet.topic_name(),
-                    ta
-                );
-                if let Some(ref mut topic_alias_send) = self.topic_alias_send {
-                    topic_alias_send.insert_or_update(packet.topic_name(), ta);
-                }
-            } else {
-                events.push(GenericEvent::NotifyError(MqttError::PacketNotAllowedToSend));
-                if let Some(packet_id) = packet_id_opt {
-                    if self.pid_man.is_used_id(packet_id) {
-                        self.pid_man.release_id(packet_id);
-                        self.store.erase_publish(packet_id);
-                        self.pid_puback.remove(&packet_id);
-                        self.pid_pubrec.remove(&packet_id);
-                        events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
-                    }
-                }
-                return events;
-            }
-        } else if self.status == ConnectionStatus::Connected {
-            // process auto applying TopicAlias if the option is enabled
-            if self.auto_map_topic_alias_send {
-                if let Some(ref mut topic_alias_send) = self.topic_alias_send {
-                    if let Some(found_ta) = topic_alias_send.find_by_topic(packet.topic_name()) {
-                        trace!(
-                            "topic alias: {} - {} is found.",
-                            packet.topic_name(),
-                            found_ta
-                        );
-                        packet = packet.remove_topic_add_topic_alias(found_ta);
-                    } else {
-                        let lru_ta = topic_alias_send.get_lru_alias();
-                        topic_alias_send.insert_or_update(packet.topic_name(), lru_ta);
-                        packet = packet.add_topic_alias(lru_ta);
-                    }
-                }
-            } else if self.auto_replace_topic_alias_send {
-                if let Some(ref topic_alias_send) = self.topic_alias_send {
-                    if let Some(found_ta) = topic_alias_send.find_by_topic(packet.topic_name()) {
-                        trace!(
-                            "topic alias: {} - {} is found.",
-                            packet.topic_name(),
-                            found_ta
-                        );
-                        packet = packet.remove_topic_add_topic_alias(found_ta);
-                    }
-                }
+            trace!(
+                "topic alias: {} - {} is registered.",
+                packet.topic_name(),
+                ta
+            );
+            if let Some(ref mut topic_alias_send) = self.topic_alias_send {
+                topic_alias_send.insert_or_update(packet.topic_name(), ta);
             }
+        } else {
+            packet = self.apply_topic_alias(packet);
         }
 
-        // Check receive_maximum for sending (QoS 1 and 2 packets)
-        if packet.qos() == Qos::AtLeastOnce || packet.qos() == Qos::ExactlyOnce {
-            if let Some(max) = self.publish_send_max {
-                if self.status != ConnectionStatus::Disconnected
-                    && self.publish_send_count >= max as usize
-                {
-                    events.push(GenericEvent::NotifyError(MqttError::ReceiveMaximumExceeded));
-                    if let Some(packet_id) = packet_id_opt {
-                        if self.pid_man.is_used_id(packet_id) {
-                            self.pid_man.release_id(packet_id);
-                            self.store.erase_publish(packet_id);
-                            self.pid_puback.remove(&packet_id);
-                            self.pid_pubrec.remove(&packet_id);
-                            events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
-                        }
-                    }
-                    return events;
+        events.push(GenericEvent::RequestSendPacket {
+            packet: packet.into(),
+            release_packet_id_if_send_error,
+        });
+        self.send_post_process(&mut events);
+
+        events
+    }
+
+    /// Apply TopicAlias automatically if one of the options is enabled
+    ///
+    /// The packet is left as is if it would exceed the maximum packet size with the alias.
+    fn apply_topic_alias(
+        &mut self,
+        packet: v5_0::GenericPublish<PacketIdType>,
+    ) -> v5_0::GenericPublish<PacketIdType> {
+        if !self.auto_map_topic_alias_send && !self.auto_replace_topic_alias_send {
+            return packet;
+        }
+        let Some(ref topic_alias_send) = self.topic_alias_send else {
+            return packet;
+        };
+        if let Some(found_ta) = topic_alias_send.find_by_topic(packet.topic_name()) {
+            trace!(
+                "topic alias: {} - {} is found.",
+                packet.topic_name(),
+                found_ta
+            );
+            let replaced = packet.clone().remove_topic_add_topic_alias(found_ta);
+            if self.validate_maximum_packet_size_send(replaced.size()) {
+                return replaced;
+            }
+        } else if self.auto_map_topic_alias_send {
+            let lru_ta = topic_alias_send.get_lru_alias();
+            let mapped = packet.clone().add_topic_alias(lru_ta);
+            if self.validate_maximum_packet_size_send(mapped.size()) {
+                if let Some(ref mut topic_alias_send) = self.topic_alias_send {
+                    topic_alias_send.insert_or_update(packet.topic_name(), lru_ta);
                 }
+                return mapped;
             }
-            self.update_publish_send_count();
-        }
-
-        if self.status == ConnectionStatus::Connected {
-            events.push(GenericEvent::RequestSendPacket {
-                packet: packet.into(),
-                release_packet_id_if_send_error,
-            });
-            self.send_post_process(&mut events);
         }
-
-        events
+        packet
     }
 
     pub(crate) fn process_send_v3_1_1_puback(
-- 
2.43.0


From dad3be455cee5937905bf547939a00b18b8da6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:49 +0000
Subject: [PATCH 23/35] fix: the keep alive of one connection does not time the
 next one

---
 src/mqtt/connection/core.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 71c74a7..c74bf7b 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1255,6 +1255,7 @@ where
         self.is_client = is_client;
         self.pingreq_keep_alive_ms = 0;
         self.pingreq_server_keep_alive_ms = None;
+        self.pingreq_recv_timeout_ms = 0;
     }
 
     fn clear_store_related(&mut self) {
-- 
2.43.0


From f2eff6ebadf90e6f42326ab2990a56574c54f4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:17 +0000
Subject: [PATCH 24/35] fix: a packet received after DISCONNECT was sent arms
 no timer

---
 src/mqtt/connection/core.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index c74bf7b..705cd4f 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -3675,7 +3675,7 @@ where
 
     fn refresh_pingreq_recv(&mut self) -> Vec<GenericEvent<PacketIdType>> {
         let mut events = Vec::new();
-        if self.pingreq_recv_timeout_ms != 0 {
+        if self.pingreq_recv_timeout_ms != 0 && self.status != ConnectionStatus::Disconnected {
             self.pingreq_recv_set = true;
             events.push(GenericEvent::RequestTimerReset {
                 kind: TimerKind::PingreqRecv,
-- 
2.43.0


From e62c27f7a6d0c266494fe547589e765655c84950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:41 +0000
Subject: [PATCH 25/35] fix: a server never arms the PINGREQ send timer

---
 src/mqtt/connection/core.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 705cd4f..28b790c 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -845,7 +845,7 @@ where
                     self.pingreq_send_set = false;
                     events.push(GenericEvent::RequestTimerCancel(TimerKind::PingreqSend));
                 }
-            } else if self.status == ConnectionStatus::Connected {
+            } else if self.status == ConnectionStatus::Connected && self.is_client {
                 self.pingreq_send_set = true;
                 events.push(GenericEvent::RequestTimerReset {
                     kind: TimerKind::PingreqSend,
-- 
2.43.0


From dbf79a95d3760908b97a632a2fe3c1bcb0f48134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:38 +0000
Subject: [PATCH 26/35] fix: close the connection even if the peer does not
 accept the size of DISCONNECT

---
 src/mqtt/connection/core.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 28b790c..18c2b69 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -678,7 +678,7 @@ where
                                 .reason_code(DisconnectReasonCode::KeepAliveTimeout)
                                 .build()
                             {
-                                events.extend(self.process_send_v5_0_disconnect(disconnect));
+                                events.extend(self.disconnect_v5_0(disconnect));
                             }
                         }
                     }
@@ -703,7 +703,7 @@ where
                                 .reason_code(DisconnectReasonCode::KeepAliveTimeout)
                                 .build()
                             {
-                                events.extend(self.process_send_v5_0_disconnect(disconnect));
+                                events.extend(self.disconnect_v5_0(disconnect));
                             }
                         }
                     }
@@ -2329,6 +2329,22 @@ where
         events
     }
 
+    /// Disconnect for a reason found by the connection itself
+    ///
+    /// If the peer does not accept a packet as large as DISCONNECT, only close.
+    fn disconnect_v5_0(&mut self, packet: v5_0::Disconnect) -> Vec<GenericEvent<PacketIdType>> {
+        if self.status == ConnectionStatus::Connected
+            && !self.validate_maximum_packet_size_send(packet.size())
+        {
+            let mut events = Vec::new();
+            self.status = ConnectionStatus::Disconnected;
+            self.cancel_timers(&mut events);
+            events.push(GenericEvent::RequestClose);
+            return events;
+        }
+        self.process_send_v5_0_disconnect(packet)
+    }
+
     pub(crate) fn process_send_v5_0_auth(
         &mut self,
         packet: v5_0::Auth,
@@ -2417,7 +2433,7 @@ where
                 .build()
                 .unwrap();
             // Send disconnect packet directly without generic constraints
-            events.extend(self.process_send_v5_0_disconnect(disconnect_packet));
+            events.extend(self.disconnect_v5_0(disconnect_packet));
             events.push(GenericEvent::NotifyError(MqttError::PacketTooLarge));
             return events;
         }
@@ -3669,7 +3685,7 @@ where
             .reason_code(e.into())
             .build()
             .unwrap();
-        events.extend(self.process_send_v5_0_disconnect(disconnect));
+        events.extend(self.disconnect_v5_0(disconnect));
         events.push(GenericEvent::NotifyError(e));
     }
 
-- 
2.43.0


From 3f51f51346dbffb7db4f2ab1a634094304c6db1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:07 +0000
Subject: [PATCH 27/35] fix: PUBREC 'No matching subscribers' is a success and
 continues with PUBREL

---
 src/mqtt/connection/core.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 18c2b69..19db28b 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -61,7 +61,7 @@ use crate::mqtt::packet::ResponsePacket;
 use crate::mqtt::packet::{Property, TopicAliasRecv, TopicAliasSend};
 use crate::mqtt::prelude::GenericPacketTrait;
 use crate::mqtt::result_code::{
-    ConnectReasonCode, ConnectReturnCode, DisconnectReasonCode, MqttError, PubrecReasonCode,
+    ConnectReasonCode, ConnectReturnCode, DisconnectReasonCode, MqttError,
 };
 
 /// MQTT protocol maximum packet size limit
@@ -3177,8 +3177,7 @@ where
                 let packet_id = packet.packet_id();
                 if self.pid_pubrec.remove(&packet_id) {
                     self.store.erase(ResponsePacket::V5_0Pubrec, packet_id);
-                    let reason_code = packet.reason_code();
-                    if reason_code.is_none() || reason_code.unwrap() == PubrecReasonCode::Success {
+                    if !packet.reason_code().is_some_and(|rc| rc.is_failure()) {
                         self.pid_pubrel.insert(packet_id);
                         if self.auto_pub_response && self.status == ConnectionStatus::Connected {
                             let pubrel = v5_0::GenericPubrel::<PacketIdType>::builder()
-- 
2.43.0


From 5e477d3622d0f4a9857fef5ccb76da75f7273e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:32 +0000
Subject: [PATCH 28/35] fix: releasing a packet id ends the exchange that owned
 it

---
 src/mqtt/connection/core.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 19db28b..352d4cc 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -994,6 +994,14 @@ where
         let mut events = Vec::new();
 
         if self.pid_man.is_used_id(packet_id) {
+            // The exchange that owned the packet id is over
+            self.pid_suback.remove(&packet_id);
+            self.pid_unsuback.remove(&packet_id);
+            self.pid_puback.remove(&packet_id);
+            self.pid_pubrec.remove(&packet_id);
+            self.pid_pubrel.remove(&packet_id);
+            self.pid_pubcomp.remove(&packet_id);
+            self.update_publish_send_count();
             self.pid_man.release_id(packet_id);
             events.push(GenericEvent::NotifyPacketIdReleased(packet_id));
         }
@@ -1720,10 +1728,7 @@ where
             if self.will_store_publish() {
                 // Store the packet with the full topic name and without TopicAlias property
                 let store_packet = match extracted_topic {
-                    Some(topic) => packet
-                        .clone()
-                        .remove_topic_alias_add_topic(topic)
-                        .unwrap(),
+                    Some(topic) => packet.clone().remove_topic_alias_add_topic(topic).unwrap(),
                     None => packet.clone().remove_topic_alias(),
                 }
                 .set_dup(true);
-- 
2.43.0


From c541468d53da59fda1757a994a0adff8964c9464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:25 +0000
Subject: [PATCH 29/35] fix: a rejected v5.0 PUBLISH changes no receive state,
 and an unanswerable duplicate is reported

Only a PUBLISH that passed topic alias validation is recorded as received, a
retransmission does not count twice against Receive Maximum, and a QoS 2 duplicate that
arrives before the connection is established no longer disappears silently.
---
 src/mqtt/connection/core.rs | 101 ++++++++++++++++++------------------
 1 file changed, 50 insertions(+), 51 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 352d4cc..9ef605d 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -2885,8 +2885,10 @@ where
                                 let packet_id = packet.packet_id().unwrap();
                                 let already_handled = !self.qos2_publish_handled.insert(packet_id);
 
-                                if self.status == ConnectionStatus::Connected
-                                    && (self.auto_pub_response || already_handled)
+                                // A duplicate that cannot be answered is reported as an error
+                                if already_handled
+                                    || (self.auto_pub_response
+                                        && self.status == ConnectionStatus::Connected)
                                 {
                                     let pubrec = v3_1_1::GenericPubrec::builder()
                                         .packet_id(packet_id)
@@ -2925,55 +2927,18 @@ where
             PacketData::Publish(arc) => {
                 match v5_0::GenericPublish::parse(flags, arc.clone()) {
                     Ok((mut packet, _consumed)) => {
-                        let mut already_handled = false;
-                        let mut puback_send = false;
-                        let mut pubrec_send = false;
-
-                        let mut check_receive_maximum =
-                            |events: &mut Vec<GenericEvent<PacketIdType>>| {
-                                if let Some(max) = self.publish_recv_max {
-                                    if self.publish_recv.len() >= max as usize {
-                                        self.handle_v5_0_error(
-                                            MqttError::ReceiveMaximumExceeded,
-                                            events,
-                                        );
-                                        return false;
-                                    }
-                                }
-                                true
-                            };
-
-                        match packet.qos() {
-                            Qos::AtLeastOnce => {
-                                let packet_id = packet.packet_id().unwrap();
-                                if !check_receive_maximum(&mut events) {
-                                    return events;
-                                }
-                                self.publish_recv.insert(packet_id);
-                                if self.auto_pub_response
-                                    && self.status == ConnectionStatus::Connected
-                                {
-                                    puback_send = true;
-                                }
-                            }
-                            Qos::ExactlyOnce => {
-                                let packet_id = packet.packet_id().unwrap();
-                                if !check_receive_maximum(&mut events) {
-                                    return events;
-                                }
-                                self.publish_recv.insert(packet_id);
-
-                                if !self.qos2_publish_handled.insert(packet_id) {
-                                    already_handled = true;
-                                }
-                                if self.status == ConnectionStatus::Connected
-                                    && (self.auto_pub_response || already_handled)
-                                {
-                                    pubrec_send = true;
-                                }
-                            }
-                            Qos::AtMostOnce => {
-                                // No packet ID handling for QoS 0
+                        // Check receive_maximum for receiving (QoS 1 and 2 packets)
+                        if let (Some(packet_id), Some(max)) =
+                            (packet.packet_id(), self.publish_recv_max)
+                        {
+                            if !self.publish_recv.contains(&packet_id)
+                                && self.publish_recv.len() >= max as usize
+                            {
+                                self.handle_v5_0_error(
+                                    MqttError::ReceiveMaximumExceeded,
+                                    &mut events,
+                                );
+                                return events;
                             }
                         }
 
@@ -3038,6 +3003,40 @@ where
                             }
                         }
 
+                        // The packet is accepted
+                        let mut already_handled = false;
+                        let mut puback_send = false;
+                        let mut pubrec_send = false;
+                        match packet.qos() {
+                            Qos::AtLeastOnce => {
+                                let packet_id = packet.packet_id().unwrap();
+                                self.publish_recv.insert(packet_id);
+                                if self.auto_pub_response
+                                    && self.status == ConnectionStatus::Connected
+                                {
+                                    puback_send = true;
+                                }
+                            }
+                            Qos::ExactlyOnce => {
+                                let packet_id = packet.packet_id().unwrap();
+                                self.publish_recv.insert(packet_id);
+
+                                if !self.qos2_publish_handled.insert(packet_id) {
+                                    already_handled = true;
+                                }
+                                // A duplicate that cannot be answered is reported as an error
+                                if already_handled
+                                    || (self.auto_pub_response
+                                        && self.status == ConnectionStatus::Connected)
+                                {
+                                    pubrec_send = true;
+                                }
+                            }
+                            Qos::AtMostOnce => {
+                                // No packet ID handling for QoS 0
+                            }
+                        }
+
                         // Send response packets
                         if puback_send {
                             let puback = v5_0::GenericPuback::builder()
-- 
2.43.0


From c58ef1e3037b504e2acd2e4f2acea7def1ec7814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:17 +0000
Subject: [PATCH 30/35] fix: a server starting a new session keeps what that
 session did since its CONNECT

A client may send packets right after CONNECT; answering it without session present must
forget the old session only.
---
 src/mqtt/connection/core.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 9ef605d..2df708d 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -201,6 +201,10 @@ where
 
     // QoS2 PUBLISH packet handling state (for duplicate detection)
     qos2_publish_handled: HashSet<PacketIdType>,
+    // The ones of them that arrived while connecting, they belong to a session just starting
+    qos2_publish_connecting: HashSet<PacketIdType>,
+    // CONNECT has already started a new session
+    session_started: bool,
 
     // Timer state flags
     pingreq_send_set: bool,
@@ -286,6 +290,8 @@ where
             pingreq_recv_timeout_ms: 0,
             pingresp_recv_timeout_ms: 0,
             qos2_publish_handled: HashSet::default(),
+            qos2_publish_connecting: HashSet::default(),
+            session_started: false,
             pingreq_send_set: false,
             pingreq_recv_set: false,
             pingresp_recv_set: false,
@@ -1264,6 +1270,8 @@ where
         self.pingreq_keep_alive_ms = 0;
         self.pingreq_server_keep_alive_ms = None;
         self.pingreq_recv_timeout_ms = 0;
+        self.qos2_publish_connecting.clear();
+        self.session_started = false;
     }
 
     fn clear_store_related(&mut self) {
@@ -1312,10 +1320,12 @@ where
         session_present: bool,
         events: &mut Vec<GenericEvent<PacketIdType>>,
     ) {
-        if session_present {
+        let connecting = core::mem::take(&mut self.qos2_publish_connecting);
+        if session_present || self.session_started {
             events.extend(self.send_stored());
         } else {
             self.clear_store_related();
+            self.qos2_publish_handled = connecting;
         }
     }
 
@@ -2636,6 +2646,7 @@ where
                 }
                 if packet.clean_session() {
                     self.clear_store_related();
+                    self.session_started = true;
                 } else {
                     self.need_store = true;
                 }
@@ -2683,6 +2694,7 @@ where
                 }
                 if packet.clean_start() {
                     self.clear_store_related();
+                    self.session_started = true;
                 }
                 packet.props().iter().for_each(|prop| match prop {
                     Property::TopicAliasMaximum(p) if p.val() != 0 => {
@@ -2884,6 +2896,9 @@ where
                             Qos::ExactlyOnce => {
                                 let packet_id = packet.packet_id().unwrap();
                                 let already_handled = !self.qos2_publish_handled.insert(packet_id);
+                                if !already_handled && self.status == ConnectionStatus::Connecting {
+                                    self.qos2_publish_connecting.insert(packet_id);
+                                }
 
                                 // A duplicate that cannot be answered is reported as an error
                                 if already_handled
@@ -3023,6 +3038,8 @@ where
 
                                 if !self.qos2_publish_handled.insert(packet_id) {
                                     already_handled = true;
+                                } else if self.status == ConnectionStatus::Connecting {
+                                    self.qos2_publish_connecting.insert(packet_id);
                                 }
                                 // A duplicate that cannot be answered is reported as an error
                                 if already_handled
@@ -3224,6 +3241,7 @@ where
             Ok((packet, _)) => {
                 let packet_id = packet.packet_id();
                 self.qos2_publish_handled.remove(&packet_id);
+                self.qos2_publish_connecting.remove(&packet_id);
                 if self.auto_pub_response && self.status == ConnectionStatus::Connected {
                     let pubcomp = v3_1_1::GenericPubcomp::<PacketIdType>::builder()
                         .packet_id(packet_id)
@@ -3252,6 +3270,7 @@ where
             Ok((packet, _)) => {
                 let packet_id = packet.packet_id();
                 let removed = self.qos2_publish_handled.remove(&packet_id);
+                self.qos2_publish_connecting.remove(&packet_id);
                 if self.auto_pub_response && self.status == ConnectionStatus::Connected {
                     if removed {
                         let pubcomp = v5_0::GenericPubcomp::<PacketIdType>::builder()
-- 
2.43.0


From bebf5b5105f837ca3249818afa6c4af87ac06d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:44 +0000
Subject: [PATCH 31/35] fix: retransmission after CONNACK re-arms the PINGREQ
 send timer

---
 src/mqtt/connection/core.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 2df708d..fd7b127 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1322,7 +1322,14 @@ where
     ) {
         let connecting = core::mem::take(&mut self.qos2_publish_connecting);
         if session_present || self.session_started {
-            events.extend(self.send_stored());
+            let stored_events = self.send_stored();
+            let sent = stored_events
+                .iter()
+                .any(|e| matches!(e, GenericEvent::RequestSendPacket { .. }));
+            events.extend(stored_events);
+            if sent {
+                self.send_post_process(events);
+            }
         } else {
             self.clear_store_related();
             self.qos2_publish_handled = connecting;
-- 
2.43.0


From a3aa2a64a2a7e47bd51bb6718350a247012e9e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:31 +0000
Subject: [PATCH 32/35] fix: a v3.1.1 UNSUBACK with 32-bit packet id has the
 right Remaining Length

---
 src/mqtt/packet/v3_1_1/unsuback.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mqtt/packet/v3_1_1/unsuback.rs b/src/mqtt/packet/v3_1_1/unsuback.rs
index 67efb51..6e14ba1 100644
--- a/src/mqtt/packet/v3_1_1/unsuback.rs
+++ b/src/mqtt/packet/v3_1_1/unsuback.rs
@@ -470,7 +470,8 @@ where
         self.validate()?;
 
         let packet_id_buf = self.packet_id_buf.unwrap();
-        let remaining_length = VariableByteInteger::from_u32(2).unwrap(); // packet_id(2)
+        let remaining = mem::size_of::<PacketIdType>();
+        let remaining_length = VariableByteInteger::from_u32(remaining as u32).unwrap();
 
         Ok(GenericUnsuback {
             fixed_header: [FixedHeader::Unsuback.as_u8()],
-- 
2.43.0


From 585e9cd15352672f9b21d435d95dc1a35b7d4cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:21 +0000
Subject: [PATCH 33/35] fix: checked_send of another protocol version releases
 the packet id it refuses

---
 src/mqtt/connection/core.rs            | 12 ++++++++++--
 src/mqtt/connection/sendable.rs        | 11 +++++++++--
 src/mqtt/connection/sendable_helper.rs |  7 +++++++
 3 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index fd7b127..807fed0 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -405,8 +405,7 @@ where
 
         // Return error if versions don't match
         if self.protocol_version != packet_version {
-            let packet_id = Self::get_request_packet_id(&packet);
-            return self.refuse_send(MqttError::VersionMismatch, packet_id);
+            return self.refuse_version_mismatch(packet);
         }
 
         match packet {
@@ -1298,6 +1297,15 @@ where
         }
     }
 
+    /// Refuse to send a packet of a protocol version that the connection doesn't use
+    pub(crate) fn refuse_version_mismatch(
+        &mut self,
+        packet: GenericPacket<PacketIdType>,
+    ) -> Vec<GenericEvent<PacketIdType>> {
+        let packet_id = Self::get_request_packet_id(&packet);
+        self.refuse_send(MqttError::VersionMismatch, packet_id)
+    }
+
     /// Refuse to send a packet, and release the packet id it carries
     fn refuse_send(
         &mut self,
diff --git a/src/mqtt/connection/sendable.rs b/src/mqtt/connection/sendable.rs
index 921c635..bd5109f 100644
--- a/src/mqtt/connection/sendable.rs
+++ b/src/mqtt/connection/sendable.rs
@@ -30,7 +30,6 @@ use crate::mqtt::connection::GenericEvent;
 use crate::mqtt::packet::kind::PacketKind;
 use crate::mqtt::packet::GenericPacket;
 use crate::mqtt::packet::IsPacketId;
-use crate::mqtt::result_code::MqttError;
 use alloc::vec::Vec;
 use core::fmt::Debug;
 
@@ -63,6 +62,14 @@ where
     Role: RoleType,
     PacketIdType: IsPacketId,
 {
+    // refuse to send a packet of a protocol version that the connection doesn't use
+    fn refuse_version_mismatch(
+        self,
+        _connection: &mut GenericConnection<Role, PacketIdType>,
+    ) -> Vec<GenericEvent<PacketIdType>> {
+        unreachable!("refuse_version_mismatch not implemented for this type")
+    }
+
     // v3.1.1 methods
     fn send_connect_v3_1_1(
         self,
@@ -287,7 +294,7 @@ where
     ) -> Vec<GenericEvent<PacketIdType>> {
         // Version check first
         if !T::check(&connection.get_protocol_version()) {
-            return vec![GenericEvent::NotifyError(MqttError::VersionMismatch)];
+            return self.refuse_version_mismatch(connection);
         }
 
         trace!("Static dispatch sent: {}", self);
diff --git a/src/mqtt/connection/sendable_helper.rs b/src/mqtt/connection/sendable_helper.rs
index 8b12e83..87240a4 100644
--- a/src/mqtt/connection/sendable_helper.rs
+++ b/src/mqtt/connection/sendable_helper.rs
@@ -34,6 +34,13 @@ macro_rules! impl_sendable_helper {
         where
             PacketIdType: IsPacketId,
         {
+            fn refuse_version_mismatch(
+                self,
+                connection: &mut GenericConnection<$role, PacketIdType>,
+            ) -> Vec<GenericEvent<PacketIdType>> {
+                connection.refuse_version_mismatch(self.into())
+            }
+
             fn $method(
                 self,
                 connection: &mut GenericConnection<$role, PacketIdType>,
-- 
2.43.0


From a7707d60bb758b3a7995ff970a9fc5b30856efef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:51 +0000
Subject: [PATCH 34/35] fix: parsing more bytes than a Remaining Length can
 express panicked

A byte string longer than 268,435,455 handed to a packet parser ended in the unwrap of
VariableByteInteger::from_u32. It is a malformed packet.
---
 src/mqtt/packet/v3_1_1/publish.rs     | 3 ++-
 src/mqtt/packet/v3_1_1/suback.rs      | 3 ++-
 src/mqtt/packet/v3_1_1/subscribe.rs   | 3 ++-
 src/mqtt/packet/v3_1_1/unsuback.rs    | 3 ++-
 src/mqtt/packet/v3_1_1/unsubscribe.rs | 3 ++-
 src/mqtt/packet/v5_0/auth.rs          | 3 ++-
 src/mqtt/packet/v5_0/connack.rs       | 3 ++-
 src/mqtt/packet/v5_0/connect.rs       | 3 ++-
 src/mqtt/packet/v5_0/disconnect.rs    | 3 ++-
 src/mqtt/packet/v5_0/puback.rs        | 3 ++-
 src/mqtt/packet/v5_0/pubcomp.rs       | 3 ++-
 src/mqtt/packet/v5_0/publish.rs       | 3 ++-
 src/mqtt/packet/v5_0/pubrec.rs        | 3 ++-
 src/mqtt/packet/v5_0/pubrel.rs        | 3 ++-
 src/mqtt/packet/v5_0/suback.rs        | 3 ++-
 src/mqtt/packet/v5_0/subscribe.rs     | 3 ++-
 src/mqtt/packet/v5_0/unsuback.rs      | 3 ++-
 src/mqtt/packet/v5_0/unsubscribe.rs   | 3 ++-
 18 files changed, 36 insertions(+), 18 deletions(-)

diff --git a/src/mqtt/packet/v3_1_1/publish.rs b/src/mqtt/packet/v3_1_1/publish.rs
index 5628257..d4fabeb 100644
--- a/src/mqtt/packet/v3_1_1/publish.rs
+++ b/src/mqtt/packet/v3_1_1/publish.rs
@@ -671,7 +671,8 @@ where
 
         let publish = GenericPublish {
             fixed_header: [fixed_header_byte],
-            remaining_length: VariableByteInteger::from_u32(remaining_size as u32).unwrap(),
+            remaining_length: VariableByteInteger::from_u32(remaining_size as u32)
+                .ok_or(MqttError::MalformedPacket)?,
             topic_name_buf: topic_name,
             packet_id_buf,
             payload_buf: payload,
diff --git a/src/mqtt/packet/v3_1_1/suback.rs b/src/mqtt/packet/v3_1_1/suback.rs
index bb81490..a5f51ea 100644
--- a/src/mqtt/packet/v3_1_1/suback.rs
+++ b/src/mqtt/packet/v3_1_1/suback.rs
@@ -341,7 +341,8 @@ where
         }
 
         let remaining_size = buffer_size + return_codes_buf.len();
-        let remaining_length = VariableByteInteger::from_u32(remaining_size as u32).unwrap();
+        let remaining_length = VariableByteInteger::from_u32(remaining_size as u32)
+            .ok_or(MqttError::MalformedPacket)?;
 
         let suback = GenericSuback {
             fixed_header: [FixedHeader::Suback as u8],
diff --git a/src/mqtt/packet/v3_1_1/subscribe.rs b/src/mqtt/packet/v3_1_1/subscribe.rs
index a440d7f..9202996 100644
--- a/src/mqtt/packet/v3_1_1/subscribe.rs
+++ b/src/mqtt/packet/v3_1_1/subscribe.rs
@@ -334,7 +334,8 @@ where
         }
 
         let remaining_size = buffer_size + entries.iter().map(|e| e.size()).sum::<usize>();
-        let remaining_length = VariableByteInteger::from_u32(remaining_size as u32).unwrap();
+        let remaining_length = VariableByteInteger::from_u32(remaining_size as u32)
+            .ok_or(MqttError::MalformedPacket)?;
 
         let subscribe = GenericSubscribe {
             fixed_header: [FixedHeader::Subscribe as u8],
diff --git a/src/mqtt/packet/v3_1_1/unsuback.rs b/src/mqtt/packet/v3_1_1/unsuback.rs
index 6e14ba1..76ed66b 100644
--- a/src/mqtt/packet/v3_1_1/unsuback.rs
+++ b/src/mqtt/packet/v3_1_1/unsuback.rs
@@ -356,7 +356,8 @@ where
         cursor += buffer_size;
 
         let remaining_size = buffer_size;
-        let remaining_length = VariableByteInteger::from_u32(remaining_size as u32).unwrap();
+        let remaining_length = VariableByteInteger::from_u32(remaining_size as u32)
+            .ok_or(MqttError::MalformedPacket)?;
 
         let unsuback = GenericUnsuback {
             fixed_header: [FixedHeader::Unsuback as u8],
diff --git a/src/mqtt/packet/v3_1_1/unsubscribe.rs b/src/mqtt/packet/v3_1_1/unsubscribe.rs
index ee52a45..d79d38f 100644
--- a/src/mqtt/packet/v3_1_1/unsubscribe.rs
+++ b/src/mqtt/packet/v3_1_1/unsubscribe.rs
@@ -349,7 +349,8 @@ where
         }
 
         let remaining_size = buffer_size + entries.iter().map(|e| e.size()).sum::<usize>();
-        let remaining_length = VariableByteInteger::from_u32(remaining_size as u32).unwrap();
+        let remaining_length = VariableByteInteger::from_u32(remaining_size as u32)
+            .ok_or(MqttError::MalformedPacket)?;
 
         let unsubscribe = GenericUnsubscribe {
             fixed_header: [FixedHeader::Unsubscribe as u8],
diff --git a/src/mqtt/packet/v5_0/auth.rs b/src/mqtt/packet/v5_0/auth.rs
index 295762c..4875fc5 100644
--- a/src/mqtt/packet/v5_0/auth.rs
+++ b/src/mqtt/packet/v5_0/auth.rs
@@ -369,7 +369,8 @@ impl Auth {
 
         let auth = Auth {
             fixed_header: [FixedHeader::Auth.as_u8()],
-            remaining_length: VariableByteInteger::from_u32(remaining_size as u32).unwrap(),
+            remaining_length: VariableByteInteger::from_u32(remaining_size as u32)
+                .ok_or(MqttError::MalformedPacket)?,
             reason_code_buf,
             property_length,
             props,
diff --git a/src/mqtt/packet/v5_0/connack.rs b/src/mqtt/packet/v5_0/connack.rs
index b7cdc7b..9d0d9e1 100644
--- a/src/mqtt/packet/v5_0/connack.rs
+++ b/src/mqtt/packet/v5_0/connack.rs
@@ -426,7 +426,8 @@ impl Connack {
 
         let connack = Connack {
             fixed_header: [FixedHeader::Connack.as_u8()],
-            remaining_length: VariableByteInteger::from_u32(cursor as u32).unwrap(),
+            remaining_length: VariableByteInteger::from_u32(cursor as u32)
+                .ok_or(MqttError::MalformedPacket)?,
             ack_flags: [flags],
             reason_code_buf: [code],
             property_length: prop_len,
diff --git a/src/mqtt/packet/v5_0/connect.rs b/src/mqtt/packet/v5_0/connect.rs
index fb73fcb..e21651d 100644
--- a/src/mqtt/packet/v5_0/connect.rs
+++ b/src/mqtt/packet/v5_0/connect.rs
@@ -672,7 +672,8 @@ impl Connect {
 
         let connect = Connect {
             fixed_header: [FixedHeader::Connect as u8],
-            remaining_length: VariableByteInteger::from_u32(cursor as u32).unwrap(),
+            remaining_length: VariableByteInteger::from_u32(cursor as u32)
+                .ok_or(MqttError::MalformedPacket)?,
             protocol_name,
             protocol_version_buf,
             connect_flags_buf,
diff --git a/src/mqtt/packet/v5_0/disconnect.rs b/src/mqtt/packet/v5_0/disconnect.rs
index 5b1c870..6f867a5 100644
--- a/src/mqtt/packet/v5_0/disconnect.rs
+++ b/src/mqtt/packet/v5_0/disconnect.rs
@@ -422,7 +422,8 @@ impl Disconnect {
 
         let disconnect = Disconnect {
             fixed_header: [FixedHeader::Disconnect.as_u8()],
-            remaining_length: VariableByteInteger::from_u32(remaining_size as u32).unwrap(),
+            remaining_length: VariableByteInteger::from_u32(remaining_size as u32)
+                .ok_or(MqttError::MalformedPacket)?,
             reason_code_buf,
             property_length,
             props,
diff --git a/src/mqtt/packet/v5_0/puback.rs b/src/mqtt/packet/v5_0/puback.rs
index 05cf5e3..38794ee 100644
--- a/src/mqtt/packet/v5_0/puback.rs
+++ b/src/mqtt/packet/v5_0/puback.rs
@@ -460,7 +460,8 @@ where
 
         let puback = GenericPuback {
             fixed_header: [FixedHeader::Puback.as_u8()],
-            remaining_length: VariableByteInteger::from_u32(remaining_size as u32).unwrap(),
+            remaining_length: VariableByteInteger::from_u32(remaining_size as u32)
+                .ok_or(MqttError::MalformedPacket)?,
             packet_id_buf,
             reason_code_buf,
             property_length,
diff --git a/src/mqtt/packet/v5_0/pubcomp.rs b/src/mqtt/packet/v5_0/pubcomp.rs
index cd77e35..7b94aea 100644
--- a/src/mqtt/packet/v5_0/pubcomp.rs
+++ b/src/mqtt/packet/v5_0/pubcomp.rs
@@ -464,7 +464,8 @@ where
 
         let pubcomp = GenericPubcomp {
             fixed_header: [FixedHeader::Pubcomp.as_u8()],
-            remaining_length: VariableByteInteger::from_u32(remaining_size as u32).unwrap(),
+            remaining_length: VariableByteInteger::from_u32(remaining_size as u32)
+                .ok_or(MqttError::MalformedPacket)?,
             packet_id_buf,
             reason_code_buf,
             property_length,
diff --git a/src/mqtt/packet/v5_0/publish.rs b/src/mqtt/packet/v5_0/publish.rs
index b607255..6b02898 100644
--- a/src/mqtt/packet/v5_0/publish.rs
+++ b/src/mqtt/packet/v5_0/publish.rs
@@ -1027,7 +1027,8 @@ where
 
         let publish = GenericPublish {
             fixed_header: [fixed_header_byte],
-            remaining_length: VariableByteInteger::from_u32(remaining_size as u32).unwrap(),
+            remaining_length: VariableByteInteger::from_u32(remaining_size as u32)
+                .ok_or(MqttError::MalformedPacket)?,
             topic_name_buf: topic_name,
             packet_id_buf,
             property_length,
diff --git a/src/mqtt/packet/v5_0/pubrec.rs b/src/mqtt/packet/v5_0/pubrec.rs
index 41ac1d4..051c53c 100644
--- a/src/mqtt/packet/v5_0/pubrec.rs
+++ b/src/mqtt/packet/v5_0/pubrec.rs
@@ -506,7 +506,8 @@ where
 
         let pubrec = GenericPubrec {
             fixed_header: [FixedHeader::Pubrec.as_u8()],
-            remaining_length: VariableByteInteger::from_u32(remaining_size as u32).unwrap(),
+            remaining_length: VariableByteInteger::from_u32(remaining_size as u32)
+                .ok_or(MqttError::MalformedPacket)?,
             packet_id_buf,
             reason_code_buf,
             property_length,
diff --git a/src/mqtt/packet/v5_0/pubrel.rs b/src/mqtt/packet/v5_0/pubrel.rs
index dbdd32c..fa9c608 100644
--- a/src/mqtt/packet/v5_0/pubrel.rs
+++ b/src/mqtt/packet/v5_0/pubrel.rs
@@ -473,7 +473,8 @@ where
 
         let pubrel = GenericPubrel {
             fixed_header: [FixedHeader::Pubrel.as_u8()],
-            remaining_length: VariableByteInteger::from_u32(remaining_size as u32).unwrap(),
+            remaining_length: VariableByteInteger::from_u32(remaining_size as u32)
+                .ok_or(MqttError::MalformedPacket)?,
             packet_id_buf,
             reason_code_buf,
             property_length,
diff --git a/src/mqtt/packet/v5_0/suback.rs b/src/mqtt/packet/v5_0/suback.rs
index 528e3d2..e94ef7f 100644
--- a/src/mqtt/packet/v5_0/suback.rs
+++ b/src/mqtt/packet/v5_0/suback.rs
@@ -390,7 +390,8 @@ where
         }
 
         let remaining_size = buffer_size + property_length + reason_codes_buf.len();
-        let remaining_length = VariableByteInteger::from_u32(remaining_size as u32).unwrap();
+        let remaining_length = VariableByteInteger::from_u32(remaining_size as u32)
+            .ok_or(MqttError::MalformedPacket)?;
 
         let suback = GenericSuback {
             fixed_header: [FixedHeader::Suback as u8],
diff --git a/src/mqtt/packet/v5_0/subscribe.rs b/src/mqtt/packet/v5_0/subscribe.rs
index 99d71cc..65882eb 100644
--- a/src/mqtt/packet/v5_0/subscribe.rs
+++ b/src/mqtt/packet/v5_0/subscribe.rs
@@ -365,7 +365,8 @@ where
 
         let remaining_size =
             buffer_size + property_length + entries.iter().map(|e| e.size()).sum::<usize>();
-        let remaining_length = VariableByteInteger::from_u32(remaining_size as u32).unwrap();
+        let remaining_length = VariableByteInteger::from_u32(remaining_size as u32)
+            .ok_or(MqttError::MalformedPacket)?;
 
         let subscribe = GenericSubscribe {
             fixed_header: [FixedHeader::Subscribe as u8],
diff --git a/src/mqtt/packet/v5_0/unsuback.rs b/src/mqtt/packet/v5_0/unsuback.rs
index c4ac22b..114cbaf 100644
--- a/src/mqtt/packet/v5_0/unsuback.rs
+++ b/src/mqtt/packet/v5_0/unsuback.rs
@@ -385,7 +385,8 @@ where
         }
 
         let remaining_size = buffer_size + property_length + reason_codes_buf.len();
-        let remaining_length = VariableByteInteger::from_u32(remaining_size as u32).unwrap();
+        let remaining_length = VariableByteInteger::from_u32(remaining_size as u32)
+            .ok_or(MqttError::MalformedPacket)?;
 
         let unsuback = GenericUnsuback {
             fixed_header: [FixedHeader::Unsuback as u8],
diff --git a/src/mqtt/packet/v5_0/unsubscribe.rs b/src/mqtt/packet/v5_0/unsubscribe.rs
index 20b1f5e..a8aaeaf 100644
--- a/src/mqtt/packet/v5_0/unsubscribe.rs
+++ b/src/mqtt/packet/v5_0/unsubscribe.rs
@@ -376,7 +376,8 @@ where
 
         let remaining_size =
             buffer_size + property_length + entries.iter().map(|e| e.size()).sum::<usize>();
-        let remaining_length = VariableByteInteger::from_u32(remaining_size as u32).unwrap();
+        let remaining_length = VariableByteInteger::from_u32(remaining_size as u32)
+            .ok_or(MqttError::MalformedPacket)?;
 
         let unsubscribe = GenericUnsubscribe {
             fixed_header: [FixedHeader::Unsubscribe as u8],
-- 
2.43.0


From c0b86b8ba3df8c6df1a915f5190594048329855d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:40 +0000
Subject: [PATCH 35/35] fix: replacing a topic name by its alias or back
 panicked at the maximum size

A PUBLISH close to the largest Remaining Length no longer fits in it once the topic
name of its alias is added (on reception or for the store), or an alias is added
(automatic mapping). The unwrap of the length panicked.
---
 src/mqtt/connection/core.rs     | 46 +++++++++++++++++----------------
 src/mqtt/packet/v5_0/publish.rs | 46 ++++++++++++++++++++++++---------
 2 files changed, 58 insertions(+), 34 deletions(-)

diff --git a/src/mqtt/connection/core.rs b/src/mqtt/connection/core.rs
index 807fed0..5acd3aa 100644
--- a/src/mqtt/connection/core.rs
+++ b/src/mqtt/connection/core.rs
@@ -1726,11 +1726,16 @@ where
 
         // Check manually provided TopicAlias
         let ta_opt = Self::get_topic_alias_from_props(packet.props());
-        let mut extracted_topic = None;
+        let mut store_packet = None;
         if packet.topic_name().is_empty() {
-            extracted_topic = self.peek_topic_alias(ta_opt);
-            if extracted_topic.is_none() {
+            let Some(topic) = self.peek_topic_alias(ta_opt) else {
                 return self.refuse_send(MqttError::PacketNotAllowedToSend, packet_id_opt);
+            };
+            if packet_id_opt.is_some() && self.will_store_publish() {
+                match packet.clone().remove_topic_alias_add_topic(topic) {
+                    Ok(extracted) => store_packet = Some(extracted),
+                    Err(e) => return self.refuse_send(e, packet_id_opt),
+                }
             }
         } else if let Some(ta) = ta_opt {
             if !self.validate_topic_alias_range(ta) {
@@ -1752,11 +1757,9 @@ where
         if let Some(packet_id) = packet_id_opt {
             if self.will_store_publish() {
                 // Store the packet with the full topic name and without TopicAlias property
-                let store_packet = match extracted_topic {
-                    Some(topic) => packet.clone().remove_topic_alias_add_topic(topic).unwrap(),
-                    None => packet.clone().remove_topic_alias(),
-                }
-                .set_dup(true);
+                let store_packet = store_packet
+                    .unwrap_or_else(|| packet.clone().remove_topic_alias())
+                    .set_dup(true);
                 self.store.add(store_packet.try_into().unwrap()).unwrap();
             } else {
                 release_packet_id_if_send_error = Some(packet_id);
@@ -1818,18 +1821,20 @@ where
                 packet.topic_name(),
                 found_ta
             );
-            let replaced = packet.clone().remove_topic_add_topic_alias(found_ta);
-            if self.validate_maximum_packet_size_send(replaced.size()) {
-                return replaced;
+            if let Ok(replaced) = packet.clone().try_remove_topic_add_topic_alias(found_ta) {
+                if self.validate_maximum_packet_size_send(replaced.size()) {
+                    return replaced;
+                }
             }
         } else if self.auto_map_topic_alias_send {
             let lru_ta = topic_alias_send.get_lru_alias();
-            let mapped = packet.clone().add_topic_alias(lru_ta);
-            if self.validate_maximum_packet_size_send(mapped.size()) {
-                if let Some(ref mut topic_alias_send) = self.topic_alias_send {
-                    topic_alias_send.insert_or_update(packet.topic_name(), lru_ta);
+            if let Ok(mapped) = packet.clone().try_add_topic_alias(lru_ta) {
+                if self.validate_maximum_packet_size_send(mapped.size()) {
+                    if let Some(ref mut topic_alias_send) = self.topic_alias_send {
+                        topic_alias_send.insert_or_update(packet.topic_name(), lru_ta);
+                    }
+                    return mapped;
                 }
-                return mapped;
             }
         }
         packet
@@ -2993,12 +2998,9 @@ where
                                             Ok(extracted) => {
                                                 packet = extracted;
                                             }
-                                            Err(_e) => {
-                                                error!("topic alias extract failed: {_e}");
-                                                self.handle_v5_0_error(
-                                                    MqttError::TopicAliasInvalid,
-                                                    &mut events,
-                                                );
+                                            Err(e) => {
+                                                error!("topic alias extract failed: {e}");
+                                                self.handle_v5_0_error(e, &mut events);
                                                 return events;
                                             }
                                         }
diff --git a/src/mqtt/packet/v5_0/publish.rs b/src/mqtt/packet/v5_0/publish.rs
index 6b02898..d1129df 100644
--- a/src/mqtt/packet/v5_0/publish.rs
+++ b/src/mqtt/packet/v5_0/publish.rs
@@ -543,7 +543,7 @@ where
             .retain(|prop| !matches!(prop, crate::mqtt::packet::Property::TopicAlias(_)));
 
         // Recalculate property_length and remaining_length
-        self.recalculate_lengths();
+        self.recalculate_lengths()?;
 
         Ok(self)
     }
@@ -580,8 +580,8 @@ where
         self.props
             .retain(|prop| !matches!(prop, crate::mqtt::packet::Property::TopicAlias(_)));
 
-        // Recalculate property_length and remaining_length
-        self.recalculate_lengths();
+        // Recalculate property_length and remaining_length. They never get longer here.
+        self.recalculate_lengths().unwrap();
         self
     }
 
@@ -643,7 +643,7 @@ where
         self.topic_name_extracted = true;
 
         // Recalculate remaining_length (property_length stays the same)
-        self.recalculate_lengths();
+        self.recalculate_lengths()?;
 
         Ok(self)
     }
@@ -684,11 +684,19 @@ where
     /// assert_eq!(publish_with_alias.topic_name(), "");
     /// // props() now contains TopicAlias property with value 42
     /// ```
-    pub fn remove_topic_add_topic_alias(mut self, topic_alias: TopicAliasType) -> Self {
+    pub fn remove_topic_add_topic_alias(self, topic_alias: TopicAliasType) -> Self {
+        self.try_remove_topic_add_topic_alias(topic_alias).unwrap()
+    }
+
+    /// Fails if the packet no longer fits in the maximum remaining length
+    pub(crate) fn try_remove_topic_add_topic_alias(
+        mut self,
+        topic_alias: TopicAliasType,
+    ) -> Result<Self, MqttError> {
         // Set topic name to empty string
         self.topic_name_buf = MqttString::new("").unwrap();
 
-        self.add_topic_alias(topic_alias)
+        self.try_add_topic_alias(topic_alias)
     }
 
     /// Add TopicAlias property
@@ -726,7 +734,15 @@ where
     /// let publish_with_alias = publish_with_topic.add_topic_alias(42);
     /// // props() now contains TopicAlias property with value 42
     /// ```
-    pub fn add_topic_alias(mut self, topic_alias: TopicAliasType) -> Self {
+    pub fn add_topic_alias(self, topic_alias: TopicAliasType) -> Self {
+        self.try_add_topic_alias(topic_alias).unwrap()
+    }
+
+    /// Fails if the packet no longer fits in the maximum remaining length
+    pub(crate) fn try_add_topic_alias(
+        mut self,
+        topic_alias: TopicAliasType,
+    ) -> Result<Self, MqttError> {
         // Add TopicAlias property to the end of properties
         let topic_alias_property =
             Property::TopicAlias(crate::mqtt::packet::TopicAlias::new(topic_alias).unwrap());
@@ -738,9 +754,9 @@ where
         self.props.push(topic_alias_property);
 
         // Recalculate lengths
-        self.recalculate_lengths();
+        self.recalculate_lengths()?;
 
-        self
+        Ok(self)
     }
 
     /// Recalculate property_length and remaining_length after modifications
@@ -752,10 +768,13 @@ where
     /// The method calculates:
     /// - Property length based on the current properties
     /// - Remaining length including topic name, packet ID (if QoS > 0), properties, and payload
-    fn recalculate_lengths(&mut self) {
+    ///
+    /// Fails if the packet doesn't fit in the maximum remaining length.
+    fn recalculate_lengths(&mut self) -> Result<(), MqttError> {
         // Calculate property length
         let props_size: usize = self.props.size();
-        self.property_length = VariableByteInteger::from_u32(props_size as u32).unwrap();
+        self.property_length =
+            VariableByteInteger::from_u32(props_size as u32).ok_or(MqttError::PacketTooLarge)?;
 
         // Calculate remaining length
         let mut remaining_size = self.topic_name_buf.size();
@@ -775,7 +794,10 @@ where
         // Add payload size
         remaining_size += self.payload_buf.len();
 
-        self.remaining_length = VariableByteInteger::from_u32(remaining_size as u32).unwrap();
+        self.remaining_length = VariableByteInteger::from_u32(remaining_size as u32)
+            .ok_or(MqttError::PacketTooLarge)?;
+
+        Ok(())
     }
 
     /// Returns the total size of the PUBLISH packet in bytes
-- 
2.43.0

