From d9dba9a957c3347c19a48fefea2a0fc853c12160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:33 +0000
Subject: [PATCH 01/41] fix: flush the stream after writing a packet

---
 src/connection/io.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/connection/io.rs b/src/connection/io.rs
index 986ab5b..839a0f0 100644
--- a/src/connection/io.rs
+++ b/src/connection/io.rs
@@ -135,6 +135,13 @@ impl Connection {
             .await??;
             self.seq_id = self.seq_id.wrapping_add(1);
         }
+
+        Timeout::new(
+            self.stream.flush(),
+            self.data.sleep,
+            self.options.timeout(),
+        )
+        .await??;
         Ok(())
     }
 
-- 
2.43.0


From 8601cb7e007c978d7b0a1bebfb2bc0a2be9998c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:05 +0000
Subject: [PATCH 02/41] fix: skip the header when parsing EOF packets

---
 src/connection/packets/ok.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/connection/packets/ok.rs b/src/connection/packets/ok.rs
index 087b086..fbb9147 100644
--- a/src/connection/packets/ok.rs
+++ b/src/connection/packets/ok.rs
@@ -83,6 +83,7 @@ impl OkPacket {
         capabilities: CapabilityFlags,
     ) -> Result<Self, ProtocolError> {
         let mut buf = ParseBuf(&packet);
+        buf.skip(1);
         // We need to skip affected_rows and insert_id here
         // because valid content of EOF packet includes
         // packet marker, server status and warning count only.
@@ -120,6 +121,7 @@ impl OkPacket {
         _capabilities: CapabilityFlags,
     ) -> Result<Self, ProtocolError> {
         let mut buf = ParseBuf(&packet);
+        buf.skip(1);
         // We assume that CLIENT_PROTOCOL_41 was set
         let warnings = buf.checked_eat_u16()?;
         let status = StatusFlags::from_bits_truncate(buf.checked_eat_u16()?);
-- 
2.43.0


From 4b84cbb5529a60227cb7a0742230f4f25b2a6836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:07 +0000
Subject: [PATCH 03/41] fix: read the EOF packets of servers without
 DEPRECATE_EOF

---
 src/connection/io.rs                 |  7 +-----
 src/connection/prepared_statement.rs |  9 ++++++--
 src/connection/result_set.rs         | 32 ++++++++++++++++++++++++++--
 3 files changed, 38 insertions(+), 10 deletions(-)

diff --git a/src/connection/io.rs b/src/connection/io.rs
index 839a0f0..8bcdbc9 100644
--- a/src/connection/io.rs
+++ b/src/connection/io.rs
@@ -136,12 +136,7 @@ impl Connection {
             self.seq_id = self.seq_id.wrapping_add(1);
         }
 
-        Timeout::new(
-            self.stream.flush(),
-            self.data.sleep,
-            self.options.timeout(),
-        )
-        .await??;
+        Timeout::new(self.stream.flush(), self.data.sleep, self.options.timeout()).await??;
         Ok(())
     }
 
diff --git a/src/connection/prepared_statement.rs b/src/connection/prepared_statement.rs
index ef018c7..504a557 100644
--- a/src/connection/prepared_statement.rs
+++ b/src/connection/prepared_statement.rs
@@ -55,8 +55,13 @@ impl Connection {
             _ => return Err(ProtocolError::unexpected_packet(Vec::clone(&packet), None).into()),
         };
 
-        for _ in 0..(stmt.params_len as usize + stmt.columns_len as usize) {
-            self.read_packet().await?;
+        for len in [stmt.params_len, stmt.columns_len] {
+            for _ in 0..len {
+                self.read_packet().await?;
+            }
+            if len > 0 {
+                self.read_intermediate_eof().await?;
+            }
         }
 
         Ok(PreparedStatement {
diff --git a/src/connection/result_set.rs b/src/connection/result_set.rs
index 76951a4..54a5886 100644
--- a/src/connection/result_set.rs
+++ b/src/connection/result_set.rs
@@ -5,8 +5,10 @@ use {
     },
     crate::{
         bitflags::CapabilityFlags,
+        error::ProtocolError,
         model::{FromQueryResult, FromQueryResultMapping},
         packets::{ErrPacket, OkPacket},
+        pool::PoolItem,
         Deserialize, Error, ParseBuf,
     },
     std::marker::PhantomData,
@@ -47,6 +49,7 @@ where
                 conn.pending_result = true;
                 let columns_len = ParseBuf(&packet).checked_eat_lenenc_int()?;
                 let columns = conn.read_column_defs(columns_len as usize).await?;
+                conn.read_intermediate_eof().await?;
                 Ok(ResultSet::new(columns, conn))
             }
         }
@@ -79,7 +82,7 @@ where
             packet[0] == 0xFE && packet.len() < 8
         };
         if is_last_result_set_packet {
-            self.ok_packet = Some(OkPacket::read_eof(packet, self.conn.data.capabilities)?);
+            self.ok_packet = Some(self.conn.decode_eof(packet)?);
             self.conn.pending_result = false;
             Ok(None)
         } else {
@@ -146,6 +149,31 @@ where
 }
 
 impl Connection {
+    /// Reads the packet that follows column definitions
+    /// if the server does not use `DEPRECATE_EOF`.
+    pub(super) async fn read_intermediate_eof(&mut self) -> Result<(), Error> {
+        if !self
+            .data
+            .capabilities
+            .contains(CapabilityFlags::DEPRECATE_EOF)
+        {
+            let packet = self.read_packet().await?;
+            if packet.first() != Some(&0xFE) {
+                return Err(ProtocolError::unexpected_packet(packet.to_vec(), Some("Eof")).into());
+            }
+        }
+        Ok(())
+    }
+
+    fn decode_eof(&self, packet: PoolItem<'_, Vec<u8>>) -> Result<OkPacket, ProtocolError> {
+        let capabilities = self.data.capabilities;
+        if capabilities.contains(CapabilityFlags::DEPRECATE_EOF) {
+            OkPacket::read_eof(packet, capabilities)
+        } else {
+            OkPacket::read_old_eof(packet, capabilities)
+        }
+    }
+
     pub async fn cleanup(&mut self) -> Result<Option<OkPacket>, Error> {
         if self.pending_result {
             loop {
@@ -161,7 +189,7 @@ impl Connection {
                 };
                 if is_last_result_set_packet {
                     self.pending_result = false;
-                    return Ok(Some(OkPacket::read_eof(packet, self.data.capabilities)?));
+                    return Ok(Some(self.decode_eof(packet)?));
                 }
             }
         } else {
-- 
2.43.0


From 294da8e101c7f8e5ab21b0f8ffe1de2be71479cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:07 +0000
Subject: [PATCH 04/41] fix: read the length-encoded strings of column
 definitions

---
 src/connection/packets/column_def.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/connection/packets/column_def.rs b/src/connection/packets/column_def.rs
index 26846b5..01fa44a 100644
--- a/src/connection/packets/column_def.rs
+++ b/src/connection/packets/column_def.rs
@@ -23,17 +23,17 @@ impl<'de> Deserialize<'de> for ColumnDef<'de> {
     type Ctx = ();
 
     fn deserialize(buf: &mut ParseBuf<'de>, _ctx: Self::Ctx) -> Result<Self, ProtocolError> {
-        if buf.checked_eat_u8_slice()? != b"def" {
+        if buf.checked_eat_lenenc_slice()? != b"def" {
             return Err(ProtocolError::unexpected_packet(
                 buf.0.to_vec(),
                 Some("Column Definition"),
             ));
         }
-        let db = buf.checked_eat_u8_str()?;
-        let table = buf.checked_eat_u8_str()?;
-        let org_table = buf.checked_eat_u8_str()?;
-        let name = buf.checked_eat_u8_str()?;
-        let org_name = buf.checked_eat_u8_str()?;
+        let db = buf.checked_eat_lenenc_str()?;
+        let table = buf.checked_eat_lenenc_str()?;
+        let org_table = buf.checked_eat_lenenc_str()?;
+        let name = buf.checked_eat_lenenc_str()?;
+        let org_name = buf.checked_eat_lenenc_str()?;
         buf.check_len(13)?;
         if buf.eat_u8() != 12 {
             return Err(ProtocolError::eof());
-- 
2.43.0


From 8ea182e74b688889b2a0db4d5a8e17b5822f09c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:07 +0000
Subject: [PATCH 05/41] fix: decode LONGBLOB columns in text result sets

---
 src/types/value/text.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/types/value/text.rs b/src/types/value/text.rs
index 7b52306..831bb7d 100644
--- a/src/types/value/text.rs
+++ b/src/types/value/text.rs
@@ -367,6 +367,7 @@ impl Value {
                     | ColumnType::Blob
                     | ColumnType::TinyBlob
                     | ColumnType::MediumBlob
+                    | ColumnType::LongBlob
                     | ColumnType::Set
                     | ColumnType::Enum
                     | ColumnType::Decimal
-- 
2.43.0


From 76a216ea2116de8d5e59339073e70a2b40127437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:49 +0000
Subject: [PATCH 06/41] fix: consume the whole length of binary temporal values

---
 src/types/value/bin.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/types/value/bin.rs b/src/types/value/bin.rs
index 89d8461..ad8566c 100644
--- a/src/types/value/bin.rs
+++ b/src/types/value/bin.rs
@@ -125,7 +125,8 @@ impl Value {
 
     fn deserialize_date(buf: &mut ParseBuf<'_>) -> Result<Self, ProtocolError> {
         let len = buf.checked_eat_u8()?;
-        buf.check_len(len as usize)?;
+        // the value has exactly this length, even if it is longer than needed
+        let mut buf = ParseBuf(buf.checked_eat(len as usize)?);
 
         let mut year = 0u16;
         let mut month = 0u8;
@@ -142,7 +143,8 @@ impl Value {
 
     fn deserialize_datetime(buf: &mut ParseBuf<'_>) -> Result<Self, ProtocolError> {
         let len = buf.checked_eat_u8()?;
-        buf.check_len(len as usize)?;
+        // the value has exactly this length, even if it is longer than needed
+        let mut buf = ParseBuf(buf.checked_eat(len as usize)?);
 
         let mut year = 0u16;
         let mut month = 0u8;
@@ -179,7 +181,8 @@ impl Value {
 
     fn deserialize_time(buf: &mut ParseBuf<'_>) -> Result<Self, ProtocolError> {
         let len = buf.checked_eat_u8()?;
-        buf.check_len(len as usize)?;
+        // the value has exactly this length, even if it is longer than needed
+        let mut buf = ParseBuf(buf.checked_eat(len as usize)?);
 
         let mut is_negative = false;
         let mut days = 0u32;
-- 
2.43.0


From e20c983a28be0cb10d0101fb22c8a8e7d015aff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:17 +0000
Subject: [PATCH 07/41] fix: handle server errors in the middle of a result set

---
 src/connection/io.rs         |   2 +-
 src/connection/query.rs      |   2 +-
 src/connection/result_set.rs | 100 +++++++++++++++++++++--------------
 3 files changed, 61 insertions(+), 43 deletions(-)

diff --git a/src/connection/io.rs b/src/connection/io.rs
index 8bcdbc9..2b72220 100644
--- a/src/connection/io.rs
+++ b/src/connection/io.rs
@@ -147,7 +147,7 @@ impl Connection {
     }
 
     pub(super) async fn write_command<S: Serialize>(&mut self, cmd: &S) -> Result<(), Error> {
-        self.cleanup().await?;
+        self.discard_pending_result().await?;
         self.seq_id = 0;
         self.write_struct(cmd).await
     }
diff --git a/src/connection/query.rs b/src/connection/query.rs
index 92fb477..10a35c7 100644
--- a/src/connection/query.rs
+++ b/src/connection/query.rs
@@ -33,7 +33,7 @@ impl Connection {
         let body: &mut Vec<u8> = buf.as_mut();
         body.push(cmd as u8);
         body.extend_from_slice(data.as_ref());
-        self.cleanup().await?;
+        self.discard_pending_result().await?;
         self.seq_id = 0;
         self.write_packet(&buf).await
     }
diff --git a/src/connection/result_set.rs b/src/connection/result_set.rs
index 54a5886..ad8b16d 100644
--- a/src/connection/result_set.rs
+++ b/src/connection/result_set.rs
@@ -67,27 +67,18 @@ where
     }
 
     pub async fn next(&mut self) -> Result<Option<R>, Error> {
-        if self.ok_packet.is_some() {
+        if self.ok_packet.is_some() || !self.conn.pending_result {
             return Ok(None);
         }
-        let packet = self.conn.read_packet().await?;
-        let is_last_result_set_packet = if self
-            .conn
-            .data
-            .capabilities
-            .contains(CapabilityFlags::DEPRECATE_EOF)
-        {
-            packet[0] == 0xFE && packet.len() < MAX_PAYLOAD_LEN
-        } else {
-            packet[0] == 0xFE && packet.len() < 8
-        };
-        if is_last_result_set_packet {
-            self.ok_packet = Some(self.conn.decode_eof(packet)?);
-            self.conn.pending_result = false;
-            Ok(None)
-        } else {
-            let mut row = P::read_result_set_row(&packet, &self.columns)?;
-            Ok(Some(R::from_mapping_and_row(&self.mapping, &mut row)?))
+        match self.conn.read_row_packet().await? {
+            RowPacket::Row(packet) => {
+                let mut row = P::read_result_set_row(&packet, &self.columns)?;
+                Ok(Some(R::from_mapping_and_row(&self.mapping, &mut row)?))
+            }
+            RowPacket::End(ok) => {
+                self.ok_packet = Some(ok);
+                Ok(None)
+            }
         }
     }
 
@@ -130,8 +121,8 @@ where
             Some(x) => Ok(x),
             None => {
                 while self.next().await?.is_some() {}
-                // Safety: `self.next()` only returns `None` if ok packet was read
-                Ok(self.ok_packet.unwrap())
+                // There is no ok packet if the result set was ended by an error
+                self.ok_packet.ok_or_else(|| ProtocolError::eof().into())
             }
         }
     }
@@ -141,13 +132,19 @@ where
             Some(x) => Ok((x, self.columns, self.mapping)),
             None => {
                 while self.next().await?.is_some() {}
-                // Safety: `self.next() only returns `None` if ok packet was read
-                Ok((self.ok_packet.unwrap(), self.columns, self.mapping))
+                // There is no ok packet if the result set was ended by an error
+                let ok = self.ok_packet.ok_or_else(ProtocolError::eof)?;
+                Ok((ok, self.columns, self.mapping))
             }
         }
     }
 }
 
+enum RowPacket<'b> {
+    Row(PoolItem<'b, Vec<u8>>),
+    End(OkPacket),
+}
+
 impl Connection {
     /// Reads the packet that follows column definitions
     /// if the server does not use `DEPRECATE_EOF`.
@@ -174,26 +171,47 @@ impl Connection {
         }
     }
 
+    /// Reads the next packet of the rows of a result set.
+    async fn read_row_packet<'b>(&mut self) -> Result<RowPacket<'b>, Error> {
+        let packet = self.read_packet().await?;
+        let max_eof_len = if self
+            .data
+            .capabilities
+            .contains(CapabilityFlags::DEPRECATE_EOF)
+        {
+            MAX_PAYLOAD_LEN
+        } else {
+            8
+        };
+        match packet.first() {
+            None => Err(ProtocolError::eof().into()),
+            Some(0xFF) => {
+                self.pending_result = false;
+                Err(ErrPacket::deserialize(&mut ParseBuf(&packet), self.data.capabilities)?.into())
+            }
+            Some(0xFE) if packet.len() < max_eof_len => {
+                self.pending_result = false;
+                Ok(RowPacket::End(self.decode_eof(packet)?))
+            }
+            Some(_) => Ok(RowPacket::Row(packet)),
+        }
+    }
+
     pub async fn cleanup(&mut self) -> Result<Option<OkPacket>, Error> {
-        if self.pending_result {
-            loop {
-                let packet = self.read_packet().await?;
-                let is_last_result_set_packet = if self
-                    .data
-                    .capabilities
-                    .contains(CapabilityFlags::DEPRECATE_EOF)
-                {
-                    packet[0] == 0xFE && packet.len() < MAX_PAYLOAD_LEN
-                } else {
-                    packet[0] == 0xFE && packet.len() < 8
-                };
-                if is_last_result_set_packet {
-                    self.pending_result = false;
-                    return Ok(Some(self.decode_eof(packet)?));
-                }
+        while self.pending_result {
+            if let RowPacket::End(ok) = self.read_row_packet().await? {
+                return Ok(Some(ok));
             }
-        } else {
-            Ok(None)
+        }
+        Ok(None)
+    }
+
+    /// Discards what is left of the previous result set.
+    /// An error that ended it does not concern the next command.
+    pub(super) async fn discard_pending_result(&mut self) -> Result<(), Error> {
+        match self.cleanup().await {
+            Ok(_) | Err(Error::Server(_)) => Ok(()),
+            Err(err) => Err(err),
         }
     }
 }
-- 
2.43.0


From 214878e6a1239cb615557e4b8c7581f5998c4f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:18 +0000
Subject: [PATCH 08/41] fix: leave no unread rows behind when executing a query
 that returns rows

---
 src/connection/io.rs         | 12 +++++++++++-
 src/connection/result_set.rs | 14 ++++++++++----
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/connection/io.rs b/src/connection/io.rs
index 2b72220..6bf8048 100644
--- a/src/connection/io.rs
+++ b/src/connection/io.rs
@@ -174,6 +174,16 @@ impl Connection {
 
     pub(crate) async fn read_response(&mut self) -> Result<Result<OkPacket, ErrPacket>, Error> {
         let packet = self.read_packet().await?;
-        self.decode_response(&packet).await
+        match packet.first() {
+            None | Some(0x00 | 0xFB | 0xFF) => self.decode_response(&packet).await,
+            Some(_) => {
+                // The rows are discarded before the next command
+                self.read_columns(&packet).await?;
+                Err(
+                    ProtocolError::unexpected_packet(packet.to_vec(), Some("Ok or Err Packet"))
+                        .into(),
+                )
+            }
+        }
     }
 }
diff --git a/src/connection/result_set.rs b/src/connection/result_set.rs
index ad8b16d..e593634 100644
--- a/src/connection/result_set.rs
+++ b/src/connection/result_set.rs
@@ -46,10 +46,7 @@ where
             )?
             .into()),
             _ => {
-                conn.pending_result = true;
-                let columns_len = ParseBuf(&packet).checked_eat_lenenc_int()?;
-                let columns = conn.read_column_defs(columns_len as usize).await?;
-                conn.read_intermediate_eof().await?;
+                let columns = conn.read_columns(&packet).await?;
                 Ok(ResultSet::new(columns, conn))
             }
         }
@@ -146,6 +143,15 @@ enum RowPacket<'b> {
 }
 
 impl Connection {
+    /// Reads the column definitions announced by the first packet of a result set.
+    pub(super) async fn read_columns(&mut self, packet: &[u8]) -> Result<Vec<Column>, Error> {
+        let columns_len = ParseBuf(packet).checked_eat_lenenc_int()?;
+        self.pending_result = true;
+        let columns = self.read_column_defs(columns_len as usize).await?;
+        self.read_intermediate_eof().await?;
+        Ok(columns)
+    }
+
     /// Reads the packet that follows column definitions
     /// if the server does not use `DEPRECATE_EOF`.
     pub(super) async fn read_intermediate_eof(&mut self) -> Result<(), Error> {
-- 
2.43.0


From 70142e583c4cd456f116ebc146a2e305f1743a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:27 +0000
Subject: [PATCH 09/41] fix: discard further results of a statement before the
 next command

---
 src/connection/init.rs       |  1 +
 src/connection/io.rs         |  6 +++++-
 src/connection/mod.rs        |  2 ++
 src/connection/packets/ok.rs |  4 ++++
 src/connection/result_set.rs | 25 +++++++++++++++++++++++--
 5 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/src/connection/init.rs b/src/connection/init.rs
index a023413..f0f4367 100644
--- a/src/connection/init.rs
+++ b/src/connection/init.rs
@@ -22,6 +22,7 @@ impl Connection {
             data,
             options,
             pending_result: false,
+            more_results: false,
         };
         this.do_handshake_response().await?;
         this.continue_auth::<T>().await?;
diff --git a/src/connection/io.rs b/src/connection/io.rs
index 6bf8048..eaebeb6 100644
--- a/src/connection/io.rs
+++ b/src/connection/io.rs
@@ -161,7 +161,11 @@ impl Connection {
             return Err(ProtocolError::eof().into());
         }
         match packet[0] {
-            0x00 => Ok(Ok(OkPacket::read_ok(packet, capabilities)?)),
+            0x00 => {
+                let ok = OkPacket::read_ok(packet, capabilities)?;
+                self.more_results = ok.has_more_results();
+                Ok(Ok(ok))
+            }
             0xFF => Ok(Err(ErrPacket::deserialize(
                 &mut ParseBuf(packet),
                 capabilities,
diff --git a/src/connection/mod.rs b/src/connection/mod.rs
index 318a9ee..2d118b4 100644
--- a/src/connection/mod.rs
+++ b/src/connection/mod.rs
@@ -53,6 +53,8 @@ pub struct Connection {
     data: ConnectionData,
     options: Arc<dyn ConnectionOptionsTrait>,
     pending_result: bool,
+    /// The server sends another result after the current one.
+    more_results: bool,
 }
 
 impl Connection {
diff --git a/src/connection/packets/ok.rs b/src/connection/packets/ok.rs
index fbb9147..4531777 100644
--- a/src/connection/packets/ok.rs
+++ b/src/connection/packets/ok.rs
@@ -28,6 +28,10 @@ impl OkPacket {
         self.status
     }
 
+    pub(crate) fn has_more_results(&self) -> bool {
+        self.status.contains(StatusFlags::MORE_RESULTS_EXISTS)
+    }
+
     pub fn warnings(&self) -> u16 {
         self.warnings
     }
diff --git a/src/connection/result_set.rs b/src/connection/result_set.rs
index e593634..65b847a 100644
--- a/src/connection/result_set.rs
+++ b/src/connection/result_set.rs
@@ -197,13 +197,15 @@ impl Connection {
             }
             Some(0xFE) if packet.len() < max_eof_len => {
                 self.pending_result = false;
-                Ok(RowPacket::End(self.decode_eof(packet)?))
+                let ok = self.decode_eof(packet)?;
+                self.more_results = ok.has_more_results();
+                Ok(RowPacket::End(ok))
             }
             Some(_) => Ok(RowPacket::Row(packet)),
         }
     }
 
-    pub async fn cleanup(&mut self) -> Result<Option<OkPacket>, Error> {
+    async fn discard_rows(&mut self) -> Result<Option<OkPacket>, Error> {
         while self.pending_result {
             if let RowPacket::End(ok) = self.read_row_packet().await? {
                 return Ok(Some(ok));
@@ -212,6 +214,25 @@ impl Connection {
         Ok(None)
     }
 
+    pub async fn cleanup(&mut self) -> Result<Option<OkPacket>, Error> {
+        let ok = self.discard_rows().await?;
+        // Further results of the same statement cannot be accessed
+        while self.more_results {
+            self.more_results = false;
+            let packet = self.read_packet().await?;
+            match packet.first() {
+                None | Some(0x00 | 0xFB | 0xFF) => {
+                    self.decode_response(&packet).await??;
+                }
+                Some(_) => {
+                    self.read_columns(&packet).await?;
+                    self.discard_rows().await?;
+                }
+            }
+        }
+        Ok(ok)
+    }
+
     /// Discards what is left of the previous result set.
     /// An error that ended it does not concern the next command.
     pub(super) async fn discard_pending_result(&mut self) -> Result<(), Error> {
-- 
2.43.0


From 9acc50f1b621a2c59c272ca3a2921bfc565e1c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:41 +0000
Subject: [PATCH 10/41] fix: refuse commands after a command or response was
 left incomplete

---
 src/connection/init.rs               |  1 +
 src/connection/io.rs                 | 16 ++++++----
 src/connection/mod.rs                |  3 ++
 src/connection/prepared_statement.rs |  7 +++--
 src/connection/query.rs              | 22 ++++++++++----
 src/connection/result_set.rs         | 45 ++++++++++++++++++----------
 6 files changed, 64 insertions(+), 30 deletions(-)

diff --git a/src/connection/init.rs b/src/connection/init.rs
index f0f4367..547e7ce 100644
--- a/src/connection/init.rs
+++ b/src/connection/init.rs
@@ -23,6 +23,7 @@ impl Connection {
             options,
             pending_result: false,
             more_results: false,
+            in_sync: true,
         };
         this.do_handshake_response().await?;
         this.continue_auth::<T>().await?;
diff --git a/src/connection/io.rs b/src/connection/io.rs
index eaebeb6..6de655d 100644
--- a/src/connection/io.rs
+++ b/src/connection/io.rs
@@ -31,11 +31,14 @@ impl Connection {
                 if bytes.is_empty() {
                     self.write_command(&StmtSendLongData::new(statement_id, i as u16, &[]))
                         .await?;
+                    self.in_sync = true;
                 } else {
                     let chunks = bytes.chunks(MAX_PAYLOAD_LEN - 6);
                     for chunk in chunks {
                         self.write_command(&StmtSendLongData::new(statement_id, i as u16, chunk))
                             .await?;
+                        // There is no response to this command
+                        self.in_sync = true;
                     }
                 }
             }
@@ -147,8 +150,7 @@ impl Connection {
     }
 
     pub(super) async fn write_command<S: Serialize>(&mut self, cmd: &S) -> Result<(), Error> {
-        self.discard_pending_result().await?;
-        self.seq_id = 0;
+        self.start_command().await?;
         self.write_struct(cmd).await
     }
 
@@ -164,12 +166,14 @@ impl Connection {
             0x00 => {
                 let ok = OkPacket::read_ok(packet, capabilities)?;
                 self.more_results = ok.has_more_results();
+                self.in_sync = true;
                 Ok(Ok(ok))
             }
-            0xFF => Ok(Err(ErrPacket::deserialize(
-                &mut ParseBuf(packet),
-                capabilities,
-            )?)),
+            0xFF => {
+                let err = ErrPacket::deserialize(&mut ParseBuf(packet), capabilities)?;
+                self.in_sync = true;
+                Ok(Err(err))
+            }
             _ => Err(
                 ProtocolError::unexpected_packet(packet.to_vec(), Some("Ok or Err Packet")).into(),
             ),
diff --git a/src/connection/mod.rs b/src/connection/mod.rs
index 2d118b4..5d4e847 100644
--- a/src/connection/mod.rs
+++ b/src/connection/mod.rs
@@ -53,6 +53,9 @@ pub struct Connection {
     data: ConnectionData,
     options: Arc<dyn ConnectionOptionsTrait>,
     pending_result: bool,
+    /// `false` while a command or a response is only partly written or read,
+    /// and for good if that failed or was cancelled.
+    in_sync: bool,
     /// The server sends another result after the current one.
     more_results: bool,
 }
diff --git a/src/connection/prepared_statement.rs b/src/connection/prepared_statement.rs
index 504a557..92bff83 100644
--- a/src/connection/prepared_statement.rs
+++ b/src/connection/prepared_statement.rs
@@ -48,9 +48,9 @@ impl Connection {
         let stmt = match packet.first() {
             Some(0x00) => Stmt::deserialize(&mut ParseBuf(&packet), ())?,
             Some(0xFF) => {
-                return Err(
-                    ErrPacket::deserialize(&mut ParseBuf(&packet), self.data.capabilities)?.into(),
-                )
+                let err = ErrPacket::deserialize(&mut ParseBuf(&packet), self.data.capabilities)?;
+                self.in_sync = true;
+                return Err(err.into());
             }
             _ => return Err(ProtocolError::unexpected_packet(Vec::clone(&packet), None).into()),
         };
@@ -64,6 +64,7 @@ impl Connection {
             }
         }
 
+        self.in_sync = true;
         Ok(PreparedStatement {
             id: stmt.id,
             conn: self,
diff --git a/src/connection/query.rs b/src/connection/query.rs
index 10a35c7..335187a 100644
--- a/src/connection/query.rs
+++ b/src/connection/query.rs
@@ -4,6 +4,7 @@ use {
         Command, Connection, ParseBuf, ResultSet, BUFFER_POOL,
     },
     crate::{
+        error::ProtocolError,
         model::FromQueryResult,
         packets::{ColumnDef, OkPacket},
         types::Value,
@@ -33,17 +34,26 @@ impl Connection {
         let body: &mut Vec<u8> = buf.as_mut();
         body.push(cmd as u8);
         body.extend_from_slice(data.as_ref());
-        self.discard_pending_result().await?;
-        self.seq_id = 0;
+        self.start_command().await?;
         self.write_packet(&buf).await
     }
 
-    pub(super) async fn read_column_defs(&mut self, count: usize) -> Result<Vec<Column>, Error> {
-        let mut columns: Vec<Column> = Vec::with_capacity(count);
+    /// Reads all column definitions, even if some of them cannot be decoded.
+    pub(super) async fn read_column_defs(
+        &mut self,
+        count: usize,
+    ) -> Result<Result<Vec<Column>, ProtocolError>, Error> {
+        let mut columns: Result<Vec<Column>, ProtocolError> = Ok(Vec::new());
         for _ in 0..count {
             let packet = self.read_packet().await?;
-            let def = ColumnDef::deserialize(&mut ParseBuf(&packet), ())?;
-            columns.push(def.try_into()?);
+            if let Ok(vec) = &mut columns {
+                match ColumnDef::deserialize(&mut ParseBuf(&packet), ())
+                    .and_then(|def| Ok(def.try_into()?))
+                {
+                    Ok(column) => vec.push(column),
+                    Err(err) => columns = Err(err),
+                }
+            }
         }
         Ok(columns)
     }
diff --git a/src/connection/result_set.rs b/src/connection/result_set.rs
index 65b847a..5e24b81 100644
--- a/src/connection/result_set.rs
+++ b/src/connection/result_set.rs
@@ -34,18 +34,12 @@ where
     pub(super) async fn read(conn: &'a mut Connection) -> Result<Self, Error> {
         let packet = conn.read_packet().await?;
         match packet.first() {
-            Some(0x00) => {
+            None | Some(0x00 | 0xFB | 0xFF) => {
                 let mut res = ResultSet::new(Vec::new(), conn);
                 res.ok_packet = Some(res.conn.decode_response(&packet).await??);
                 Ok(res)
             }
-            Some(0xFB) => unimplemented!("local infile"),
-            Some(0xFF) => Err(ErrPacket::deserialize(
-                &mut ParseBuf(&packet),
-                conn.data().capabilities(),
-            )?
-            .into()),
-            _ => {
+            Some(_) => {
                 let columns = conn.read_columns(&packet).await?;
                 Ok(ResultSet::new(columns, conn))
             }
@@ -146,10 +140,11 @@ impl Connection {
     /// Reads the column definitions announced by the first packet of a result set.
     pub(super) async fn read_columns(&mut self, packet: &[u8]) -> Result<Vec<Column>, Error> {
         let columns_len = ParseBuf(packet).checked_eat_lenenc_int()?;
-        self.pending_result = true;
         let columns = self.read_column_defs(columns_len as usize).await?;
         self.read_intermediate_eof().await?;
-        Ok(columns)
+        self.pending_result = true;
+        self.in_sync = true;
+        Ok(columns?)
     }
 
     /// Reads the packet that follows column definitions
@@ -179,6 +174,8 @@ impl Connection {
 
     /// Reads the next packet of the rows of a result set.
     async fn read_row_packet<'b>(&mut self) -> Result<RowPacket<'b>, Error> {
+        self.check_in_sync()?;
+        self.in_sync = false;
         let packet = self.read_packet().await?;
         let max_eof_len = if self
             .data
@@ -193,15 +190,21 @@ impl Connection {
             None => Err(ProtocolError::eof().into()),
             Some(0xFF) => {
                 self.pending_result = false;
-                Err(ErrPacket::deserialize(&mut ParseBuf(&packet), self.data.capabilities)?.into())
+                let err = ErrPacket::deserialize(&mut ParseBuf(&packet), self.data.capabilities)?;
+                self.in_sync = true;
+                Err(err.into())
             }
             Some(0xFE) if packet.len() < max_eof_len => {
                 self.pending_result = false;
                 let ok = self.decode_eof(packet)?;
                 self.more_results = ok.has_more_results();
+                self.in_sync = true;
                 Ok(RowPacket::End(ok))
             }
-            Some(_) => Ok(RowPacket::Row(packet)),
+            Some(_) => {
+                self.in_sync = true;
+                Ok(RowPacket::Row(packet))
+            }
         }
     }
 
@@ -215,10 +218,12 @@ impl Connection {
     }
 
     pub async fn cleanup(&mut self) -> Result<Option<OkPacket>, Error> {
+        self.check_in_sync()?;
         let ok = self.discard_rows().await?;
         // Further results of the same statement cannot be accessed
         while self.more_results {
             self.more_results = false;
+            self.in_sync = false;
             let packet = self.read_packet().await?;
             match packet.first() {
                 None | Some(0x00 | 0xFB | 0xFF) => {
@@ -233,12 +238,22 @@ impl Connection {
         Ok(ok)
     }
 
+    fn check_in_sync(&self) -> Result<(), ProtocolError> {
+        match self.in_sync {
+            true => Ok(()),
+            false => Err(ProtocolError::OutOfSync),
+        }
+    }
+
     /// Discards what is left of the previous result set.
     /// An error that ended it does not concern the next command.
-    pub(super) async fn discard_pending_result(&mut self) -> Result<(), Error> {
+    pub(super) async fn start_command(&mut self) -> Result<(), Error> {
         match self.cleanup().await {
-            Ok(_) | Err(Error::Server(_)) => Ok(()),
-            Err(err) => Err(err),
+            Ok(_) | Err(Error::Server(_)) => {}
+            Err(err) => return Err(err),
         }
+        self.in_sync = false;
+        self.seq_id = 0;
+        Ok(())
     }
 }
-- 
2.43.0


From 80a265820e7428a7a889ca712ce3fd7f5882ff7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:34 +0000
Subject: [PATCH 11/41] fix: return an error for unsupported column types
 instead of panicking

---
 src/error/protocol.rs   | 9 ++++++++-
 src/types/value/bin.rs  | 2 +-
 src/types/value/text.rs | 2 +-
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/error/protocol.rs b/src/error/protocol.rs
index 287ad55..b718cf5 100644
--- a/src/error/protocol.rs
+++ b/src/error/protocol.rs
@@ -1,6 +1,6 @@
 use {
     super::{Error, ParseError},
-    crate::types::ValueType,
+    crate::{connection::types::ColumnType, types::ValueType},
     std::{convert::Infallible, fmt, io},
 };
 
@@ -65,6 +65,13 @@ impl ProtocolError {
         Self::Io(io::Error::new(io::ErrorKind::UnexpectedEof, "EOF"))
     }
 
+    pub(crate) fn unsupported_column_type(column_type: ColumnType) -> Self {
+        Self::Io(io::Error::new(
+            io::ErrorKind::Unsupported,
+            format!("Unsupported column type {column_type:?}"),
+        ))
+    }
+
     pub fn unexpected_packet(got: Vec<u8>, expected: Option<&'static str>) -> Self {
         Self::UnexpectedPacket(UnexpectedPacket(got, expected))
     }
diff --git a/src/types/value/bin.rs b/src/types/value/bin.rs
index ad8566c..752a15a 100644
--- a/src/types/value/bin.rs
+++ b/src/types/value/bin.rs
@@ -252,7 +252,7 @@ impl Value {
             ColumnType::Timestamp | ColumnType::Datetime => Self::deserialize_datetime(buf),
             ColumnType::Time => Self::deserialize_time(buf),
             ColumnType::Null => Ok(Self::Null),
-            x => unimplemented!("Unsupported column type {:?}", x),
+            x => Err(ProtocolError::unsupported_column_type(x)),
         }
     }
 }
diff --git a/src/types/value/text.rs b/src/types/value/text.rs
index 831bb7d..6169228 100644
--- a/src/types/value/text.rs
+++ b/src/types/value/text.rs
@@ -380,7 +380,7 @@ impl Value {
                     }
                     ColumnType::Date => Self::deserialize_date_text(bytes),
                     ColumnType::Time => Self::deserialize_time_text(bytes),
-                    x => unimplemented!("Unsupported column type {:?}", x),
+                    x => Err(ProtocolError::unsupported_column_type(x)),
                 }
             }
         }
-- 
2.43.0


From 48e8fdc09b7606c9a38ed5d17a76535e1b2825b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:34 +0000
Subject: [PATCH 12/41] fix: reject fractional seconds with more than six
 digits instead of panicking

---
 src/types/value/text.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/types/value/text.rs b/src/types/value/text.rs
index 6169228..30ba0e9 100644
--- a/src/types/value/text.rs
+++ b/src/types/value/text.rs
@@ -220,6 +220,9 @@ impl Value {
                 return Err(invalid_value().into());
             }
             let buf = &value[first_colon + 6 + 1..];
+            if buf.len() > 6 {
+                return Err(invalid_value().into());
+            }
             microseconds = btoi::btou(buf).map_err(|_| invalid_value())?;
             microseconds *= 10u32.pow(6 - buf.len() as u32);
         }
-- 
2.43.0


From 35a1dcaa283624078e53a37ba3dae5685f56d9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:02 +0000
Subject: [PATCH 13/41] fix: require an Ok packet after successful fast
 authentication

---
 src/connection/auth.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/connection/auth.rs b/src/connection/auth.rs
index 3ee6c11..19a2340 100644
--- a/src/connection/auth.rs
+++ b/src/connection/auth.rs
@@ -60,8 +60,15 @@ impl Connection {
             Some(0x01) => match packet.get(1) {
                 Some(0x03) => {
                     // auth ok
-                    self.read_packet().await?;
-                    Ok(())
+                    let res = self.read_packet().await?;
+                    match res.first() {
+                        Some(0x00) => Ok(()),
+                        Some(0xFF) => Err(Error::Server(ErrPacket::deserialize(
+                            &mut ParseBuf(&res),
+                            self.data.capabilities,
+                        )?)),
+                        _ => Err(ProtocolError::unexpected_packet(res.to_vec(), Some("Ok")).into()),
+                    }
                 }
                 Some(0x04) => {
                     let mut pass = super::BUFFER_POOL.get();
-- 
2.43.0


From 9b1d4f212f63cc20e6b2787a2257e8c09548c3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:05 +0000
Subject: [PATCH 14/41] fix: report a missing nonce instead of dividing by zero

---
 src/connection/auth.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/connection/auth.rs b/src/connection/auth.rs
index 19a2340..2e5e50d 100644
--- a/src/connection/auth.rs
+++ b/src/connection/auth.rs
@@ -109,6 +109,14 @@ impl Connection {
                                 }
                             }
                         };
+                        if self.data.nonce.is_empty() {
+                            return Err(ProtocolError::invalid_packet(
+                                packet.to_vec(),
+                                "auth data",
+                                "missing nonce",
+                            )
+                            .into());
+                        }
                         for (i, byte) in pass.iter_mut().enumerate() {
                             *byte ^= self.data.nonce[i % self.data.nonce.len()];
                         }
-- 
2.43.0


From e13c32c70ab814ba4b41eba03a0c1e1c2aab698d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:06 +0000
Subject: [PATCH 15/41] fix: do not panic on unusual greeting packets

---
 src/connection/packets/handshake.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/connection/packets/handshake.rs b/src/connection/packets/handshake.rs
index ec8253c..6ea84d4 100644
--- a/src/connection/packets/handshake.rs
+++ b/src/connection/packets/handshake.rs
@@ -44,7 +44,7 @@ impl<'de> Deserialize<'de> for HandshakePacket<'de> {
         let capabilities = CapabilityFlags::try_from(capabilities_bits_1 | capabilities_bits_2)?;
 
         if capabilities.contains(CapabilityFlags::SECURE_CONNECTION) {
-            let len = i8::max(13, auth_plugin_data_len as i8 - 8) as usize;
+            let len = u8::max(13, auth_plugin_data_len.saturating_sub(8)) as usize;
             nonce.extend_from_slice(buf.checked_eat(len)?);
         }
 
@@ -85,10 +85,10 @@ impl<'a> HandshakePacket<'a> {
     pub fn parse_server_version(&self) -> Option<((u16, u16, u16), bool)> {
         let mut server_version = self.server_version;
         fn eat_int(string: &mut &str) -> Option<u16> {
-            match string.chars().position(|x| !x.is_alphanumeric()) {
-                Some(pos) => {
+            match string.char_indices().find(|(_, x)| !x.is_alphanumeric()) {
+                Some((pos, separator)) => {
                     let value = u16::from_str(&string[..pos]).ok();
-                    *string = &string[pos + 1..];
+                    *string = &string[pos + separator.len_utf8()..];
                     value
                 }
                 None => {
-- 
2.43.0


From eb5c4d0d4fc707ec2efc563f3a1ba50406a05f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:07 +0000
Subject: [PATCH 16/41] fix: recognize MariaDB servers that prefix their
 version

---
 src/connection/packets/handshake.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/connection/packets/handshake.rs b/src/connection/packets/handshake.rs
index 6ea84d4..edb86f5 100644
--- a/src/connection/packets/handshake.rs
+++ b/src/connection/packets/handshake.rs
@@ -83,7 +83,14 @@ impl<'a> HandshakePacket<'a> {
     }
 
     pub fn parse_server_version(&self) -> Option<((u16, u16, u16), bool)> {
+        let is_mariadb = self.server_version.contains("MariaDB");
         let mut server_version = self.server_version;
+        if is_mariadb {
+            // MariaDB prepends this to its actual version
+            server_version = server_version
+                .strip_prefix("5.5.5-")
+                .unwrap_or(server_version);
+        }
         fn eat_int(string: &mut &str) -> Option<u16> {
             match string.char_indices().find(|(_, x)| !x.is_alphanumeric()) {
                 Some((pos, separator)) => {
@@ -104,7 +111,7 @@ impl<'a> HandshakePacket<'a> {
             eat_int(&mut server_version)?,
             eat_int(&mut server_version)?,
         );
-        Some((version, server_version.starts_with("MariaDB")))
+        Some((version, is_mariadb))
     }
 
     pub fn connection_id(&self) -> u32 {
-- 
2.43.0


From 1eed98e1c7311dc5c285315fcea01c962b31acb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:36 +0000
Subject: [PATCH 17/41] fix: report errors that servers send instead of a
 greeting

---
 src/connection/init.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/connection/init.rs b/src/connection/init.rs
index 547e7ce..a6ef594 100644
--- a/src/connection/init.rs
+++ b/src/connection/init.rs
@@ -4,8 +4,9 @@ use {
         Stream, BUFFER_POOL, DEFAULT_MAX_ALLOWED_PACKET,
     },
     crate::{
-        packets::{HandshakePacket, HandshakeResponse},
-        ConnectionOptionsTrait, Error, Serialize, StreamRequirements,
+        bitflags::CapabilityFlags,
+        packets::{ErrPacket, HandshakePacket, HandshakeResponse},
+        ConnectionOptionsTrait, Deserialize, Error, Serialize, StreamRequirements,
     },
     std::sync::Arc,
 };
@@ -55,7 +56,16 @@ impl Connection {
         let mut packet = BUFFER_POOL.get();
         Self::read_packet_to_buf(stream, seq_id, packet.as_mut(), &sleep, options.timeout())
             .await?;
-        let handshake = ParseBuf(&packet).parse::<HandshakePacket>(()).unwrap();
+        if packet.first() == Some(&0xFF) {
+            // The server refuses the connection. The sql state may be missing at this point.
+            let capabilities = match packet.get(3) {
+                Some(b'#') => CapabilityFlags::PROTOCOL_41,
+                _ => CapabilityFlags::empty(),
+            };
+            let err = ErrPacket::deserialize(&mut ParseBuf(&packet), capabilities)?;
+            return Err(err.into());
+        }
+        let handshake = ParseBuf(&packet).parse::<HandshakePacket>(())?;
 
         let (version, is_mariadb) = handshake
             .parse_server_version()
-- 
2.43.0


From f18f34853e0ce2e8050cd122598d6ad05a5235bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:31 +0000
Subject: [PATCH 18/41] fix: reject malformed server keys instead of panicking

---
 src/utils/crypt.rs | 61 ++++++++++++++++++++++++++--------------------
 1 file changed, 35 insertions(+), 26 deletions(-)

diff --git a/src/utils/crypt.rs b/src/utils/crypt.rs
index 4c86d67..5a33b1c 100644
--- a/src/utils/crypt.rs
+++ b/src/utils/crypt.rs
@@ -17,55 +17,60 @@ mod der {
         num::BigUint,
     };
 
+    fn eat_byte(der: &mut &[u8]) -> Result<u8, Error> {
+        let (byte, rest) = der.split_first().ok_or(Error::InvalidPem)?;
+        *der = rest;
+        Ok(*byte)
+    }
+
+    fn eat_bytes<'a>(der: &mut &'a [u8], len: usize) -> Result<&'a [u8], Error> {
+        if der.len() < len {
+            return Err(Error::InvalidPem);
+        }
+        let (bytes, rest) = der.split_at(len);
+        *der = rest;
+        Ok(bytes)
+    }
+
     fn eat_len(der: &mut &[u8]) -> Result<usize, Error> {
-        if der[0] & 0x80 == 0x80 {
+        let first = eat_byte(der)?;
+        if first & 0x80 == 0x80 {
             const BITS: usize = (usize::BITS / 8) as usize;
-            let len = (der[0] & (!0x80)) as usize;
+            let len = (first & (!0x80)) as usize;
             if len > BITS {
                 return Err(Error::InvalidPem);
             }
             let mut bytes = [0u8; BITS];
-            bytes[BITS - len..].copy_from_slice(&der[1..=len]);
-            *der = &der[len + 1..];
+            bytes[BITS - len..].copy_from_slice(eat_bytes(der, len)?);
             Ok(usize::from_be_bytes(bytes))
         } else {
-            let len = der[0] as usize;
-            *der = &der[1..];
-            Ok(len)
+            Ok(first as usize)
         }
     }
 
     fn eat_uint(der: &mut &[u8]) -> Result<BigUint, Error> {
-        if der[0] != 0x02 {
+        if eat_byte(der)? != 0x02 {
             return Err(Error::InvalidPem);
         }
-        *der = &der[1..];
         let len = eat_len(der)?;
-        let uint = BigUint::from_bytes_be(&der[..len]);
-        *der = &der[len..];
-        Ok(uint)
+        Ok(BigUint::from_bytes_be(eat_bytes(der, len)?))
     }
 
     fn eat_sequence<'a>(der: &mut &'a [u8]) -> Result<&'a [u8], Error> {
-        if der[0] != 0x30 {
+        if eat_byte(der)? != 0x30 {
             return Err(Error::InvalidPem);
         }
-        *der = &der[1..];
         let len = eat_len(der)?;
-        let sequence = &der[..len];
-        *der = &der[len..];
-        Ok(sequence)
+        eat_bytes(der, len)
     }
 
     fn eat_bit_string<'a>(der: &mut &'a [u8]) -> Result<(u8, &'a [u8]), Error> {
-        if der[0] != 0x03 {
+        if eat_byte(der)? != 0x03 {
             return Err(Error::InvalidPem);
         }
-        *der = &der[1..];
         let len = eat_len(der)?;
-        let unused_bits = der[0];
-        let bit_string = &der[1..len];
-        *der = &der[len..];
+        let mut bit_string = eat_bytes(der, len)?;
+        let unused_bits = eat_byte(&mut bit_string)?;
         Ok((unused_bits, bit_string))
     }
 
@@ -98,10 +103,14 @@ mod der {
                 .cloned()
                 .collect();
 
-            let (body, is_pkcs_1) = if pem.starts_with(PKCS1.0) && pem.ends_with(PKCS1.1) {
-                (&pem[PKCS1.0.len()..pem.len() - PKCS1.1.len()], true)
-            } else if pem.starts_with(PKCS8.0) && pem.ends_with(PKCS8.1) {
-                (&pem[PKCS8.0.len()..pem.len() - PKCS8.1.len()], false)
+            fn body<'a>(pem: &'a [u8], (header, footer): (&[u8], &[u8])) -> Option<&'a [u8]> {
+                pem.strip_prefix(header)?.strip_suffix(footer)
+            }
+
+            let (body, is_pkcs_1) = if let Some(body) = body(&pem, PKCS1) {
+                (body, true)
+            } else if let Some(body) = body(&pem, PKCS8) {
+                (body, false)
             } else {
                 return Err(Error::InvalidPem);
             };
-- 
2.43.0


From db8704125c0a053970952e6cf4e1f4bb69c486ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:31 +0000
Subject: [PATCH 19/41] fix: round up the size of the RSA modulus

---
 src/utils/crypt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/crypt.rs b/src/utils/crypt.rs
index 5a33b1c..0c61666 100644
--- a/src/utils/crypt.rs
+++ b/src/utils/crypt.rs
@@ -136,7 +136,7 @@ impl PublicKey {
     }
 
     pub fn num_octets(&self) -> usize {
-        (self.modulus().bits() as usize + 6) >> 3
+        (self.modulus().bits() as usize + 7) >> 3
     }
 
     pub fn modulus(&self) -> &BigUint {
-- 
2.43.0


From 0715466460fe30c22f48c0a5b94f53f94d1d257f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:32 +0000
Subject: [PATCH 20/41] fix: encrypt messages up to the full length that OAEP
 allows

---
 src/utils/crypt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/crypt.rs b/src/utils/crypt.rs
index 0c61666..0d85bb8 100644
--- a/src/utils/crypt.rs
+++ b/src/utils/crypt.rs
@@ -222,7 +222,7 @@ impl<R: Rng + CryptoRng> OaepPadding<R> {
     /// ```
     pub fn pad(&mut self, data: &[u8], n: usize) -> Result<Vec<u8>, Error> {
         let seed_len = Self::HASH_LEN;
-        if n < 1 + seed_len + Self::HASH_LEN + 2 + 1 + data.len() {
+        if n < 1 + seed_len + Self::HASH_LEN + 1 + data.len() {
             return Err(Error::MessageTooLong);
         }
 
-- 
2.43.0


From e2d550952e68e5eb4e99c28f478c7a36c9c43c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:42 +0000
Subject: [PATCH 21/41] fix: do not panic when parsing hex strings shorter than
 the prefix

---
 src/types/hex.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/hex.rs b/src/types/hex.rs
index aeff5f2..0d8d59d 100644
--- a/src/types/hex.rs
+++ b/src/types/hex.rs
@@ -18,7 +18,7 @@ impl Hex {
 
     pub fn try_from_hex<T: AsRef<[u8]>>(data: T) -> Result<Self, hex::FromHexError> {
         let mut data: &[u8] = data.as_ref();
-        if data[..2] == *b"0x" || data[..2] == *b"0X" {
+        if data.starts_with(b"0x") || data.starts_with(b"0X") {
             data = &data[2..];
         }
         hex::decode(data).map(Self)
-- 
2.43.0


From 88ee9ccfa8bda44ee6bd430bd84dbae55f09bbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:42 +0000
Subject: [PATCH 22/41] fix: deserialize hex strings that cannot be borrowed
 from the input

---
 src/types/hex.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/types/hex.rs b/src/types/hex.rs
index 0d8d59d..3c93aeb 100644
--- a/src/types/hex.rs
+++ b/src/types/hex.rs
@@ -74,8 +74,8 @@ impl<'de> serde::Deserialize<'de> for Hex {
     where
         D: serde::Deserializer<'de>,
     {
-        let hex = <&str as serde::Deserialize>::deserialize(deserializer)?;
-        <Hex as std::str::FromStr>::from_str(hex).map_err(<D::Error as serde::de::Error>::custom)
+        let hex = <String as serde::Deserialize>::deserialize(deserializer)?;
+        <Hex as std::str::FromStr>::from_str(&hex).map_err(<D::Error as serde::de::Error>::custom)
     }
 }
 
-- 
2.43.0


From 77a10d3fda9086c7e33496763de53e12b7389f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:42 +0000
Subject: [PATCH 23/41] fix: remove all characters of identifiers that consist
 of spaces only

---
 src/types/value/text.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/types/value/text.rs b/src/types/value/text.rs
index 30ba0e9..ba7faac 100644
--- a/src/types/value/text.rs
+++ b/src/types/value/text.rs
@@ -89,15 +89,15 @@ impl fmt::Display for IdentifierEscape<'_> {
             ('\u{0001}'..='\u{FFFF}').contains(&char)
         }
 
-        let mut last_char = 0;
+        let mut last_char = None;
         for (i, char) in self.0.chars().enumerate() {
             if !char.is_whitespace() && char_valid(char) {
-                last_char = i;
+                last_char = Some(i);
             }
         }
 
         for (i, char) in self.0.chars().enumerate() {
-            if i <= last_char && char_valid(char) {
+            if Some(i) <= last_char && char_valid(char) {
                 if char == '`' {
                     f.write_char('`')?;
                 }
-- 
2.43.0


From bb6f41de91ecc23f4b10cb8485c8d07594bb1f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:42 +0000
Subject: [PATCH 24/41] fix: do not overflow when formatting long times

---
 src/types/value/text.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/types/value/text.rs b/src/types/value/text.rs
index ba7faac..a7c96f0 100644
--- a/src/types/value/text.rs
+++ b/src/types/value/text.rs
@@ -142,7 +142,7 @@ impl fmt::Display for Value {
         }
         fn format_time(
             f: &mut fmt::Formatter<'_>,
-            hours: &u32,
+            hours: &u64,
             minutes: &u8,
             seconds: &u8,
             microseconds: &u32,
@@ -181,7 +181,7 @@ impl fmt::Display for Value {
                 }
                 format_time(
                     f,
-                    &(*days * 24 + *hours as u32),
+                    &(*days as u64 * 24 + *hours as u64),
                     minutes,
                     seconds,
                     microseconds,
@@ -192,7 +192,7 @@ impl fmt::Display for Value {
                 write!(f, "\"")?;
                 format_date(f, year, month, day)?;
                 write!(f, " ")?;
-                format_time(f, &(*hour as u32), minute, second, microsecond)?;
+                format_time(f, &(*hour as u64), minute, second, microsecond)?;
                 write!(f, "\"")
             }
         }
-- 
2.43.0


From f6523e8e1e1bf2343d57c80b280e31226b5a5719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:42 +0000
Subject: [PATCH 25/41] fix: format empty byte strings as a valid literal

---
 src/types/value/text.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/types/value/text.rs b/src/types/value/text.rs
index a7c96f0..09227e1 100644
--- a/src/types/value/text.rs
+++ b/src/types/value/text.rs
@@ -165,6 +165,8 @@ impl fmt::Display for Value {
             Value::ULong(x) => x.fmt(f),
             Value::Float(x) => x.fmt(f),
             Value::Double(x) => x.fmt(f),
+            // `0x` on its own is not a literal
+            Value::Bytes(x) if x.is_empty() => f.write_str("x''"),
             Value::Bytes(x) => {
                 f.write_str("0x")?;
                 hex::encode(x).fmt(f)
-- 
2.43.0


From d5c3608cb1396b4489f9be1c19836bbf7fc877e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:42 +0000
Subject: [PATCH 26/41] fix: format very large and very small floats as
 floating point literals

---
 src/types/value/text.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/types/value/text.rs b/src/types/value/text.rs
index 09227e1..bf40cbf 100644
--- a/src/types/value/text.rs
+++ b/src/types/value/text.rs
@@ -163,8 +163,9 @@ impl fmt::Display for Value {
             Value::UShort(x) => x.fmt(f),
             Value::UInt(x) => x.fmt(f),
             Value::ULong(x) => x.fmt(f),
-            Value::Float(x) => x.fmt(f),
-            Value::Double(x) => x.fmt(f),
+            // The exponent notation is needed if the number has too many digits for a decimal literal
+            Value::Float(x) => fmt::Debug::fmt(x, f),
+            Value::Double(x) => fmt::Debug::fmt(x, f),
             // `0x` on its own is not a literal
             Value::Bytes(x) if x.is_empty() => f.write_str("x''"),
             Value::Bytes(x) => {
-- 
2.43.0


From 959631b5c086febf822c8efd9fbe82d34c868f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:42 +0000
Subject: [PATCH 27/41] fix: keep the sign of durations of less than one second

---
 src/types/value/conversion.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/value/conversion.rs b/src/types/value/conversion.rs
index 8033391..857a5e9 100644
--- a/src/types/value/conversion.rs
+++ b/src/types/value/conversion.rs
@@ -172,7 +172,7 @@ impl From<Duration> for Value {
         let days = hours / 24;
 
         Value::Time(
-            value.num_seconds() < 0,
+            value < Duration::zero(),
             days as u32,
             (hours % 24) as u8,
             (minutes % 60) as u8,
-- 
2.43.0


From e37948922da861b45ceda75b27f0977f9f660345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:42 +0000
Subject: [PATCH 28/41] fix: convert negative numbers to true

---
 src/types/value/conversion.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/types/value/conversion.rs b/src/types/value/conversion.rs
index 857a5e9..67d8d68 100644
--- a/src/types/value/conversion.rs
+++ b/src/types/value/conversion.rs
@@ -49,10 +49,10 @@ impl TryInto<bool> for Value {
 
     fn try_into(self) -> Result<bool, Self::Error> {
         match self {
-            Value::Tiny(x) => Ok(x > 0),
-            Value::Short(x) => Ok(x > 0),
-            Value::Int(x) => Ok(x > 0),
-            Value::Long(x) => Ok(x > 0),
+            Value::Tiny(x) => Ok(x != 0),
+            Value::Short(x) => Ok(x != 0),
+            Value::Int(x) => Ok(x != 0),
+            Value::Long(x) => Ok(x != 0),
             Value::UTiny(x) => Ok(x > 0),
             Value::UShort(x) => Ok(x > 0),
             Value::UInt(x) => Ok(x > 0),
-- 
2.43.0


From 487198ef0bde9d21065acaabf0127592bfa71593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:56 +0000
Subject: [PATCH 29/41] fix: wake waiting pool requests when an item is
 returned

---
 src/pool/async_pool.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/pool/async_pool.rs b/src/pool/async_pool.rs
index 458dd43..e1832a4 100644
--- a/src/pool/async_pool.rs
+++ b/src/pool/async_pool.rs
@@ -21,6 +21,7 @@ impl<T: AsyncPoolContent<C>, C, const N: usize> PoolPut<T> for AsyncPool<T, C, N
     fn put(&self, value: T) {
         // As we won't create too many items, the pool won't be full
         let _ = self.pool.push(value);
+        self.wake_waiting();
     }
 }
 
@@ -33,6 +34,16 @@ impl<T: AsyncPoolContent<C>, C, const N: usize> AsyncPool<T, C, N> {
             wakers: SegQueue::new(),
         }
     }
+
+    /// Wakes everyone who waits for an item, as some of them might have been cancelled.
+    fn wake_waiting(&self) {
+        for _ in 0..self.wakers.len() {
+            match self.wakers.pop() {
+                Some(waker) => waker.wake(),
+                None => break,
+            }
+        }
+    }
 }
 
 impl<T: AsyncPoolContent<C>, C, const N: usize> AsyncPoolTrait<T> for AsyncPool<T, C, N> {
@@ -40,7 +51,6 @@ impl<T: AsyncPoolContent<C>, C, const N: usize> AsyncPoolTrait<T> for AsyncPool<
         Box::pin(PoolTake {
             pool: self,
             add: None,
-            waker_added: false,
         })
     }
 }
@@ -50,7 +60,6 @@ impl<T: AsyncPoolContent<C>, C, const N: usize> AsyncPoolTrait<T> for AsyncPool<
 pub struct PoolTake<'a, T: AsyncPoolContent<C>, C, const N: usize> {
     pool: &'a AsyncPool<T, C, N>,
     add: Option<Pin<Box<dyn Future<Output = Result<T, T::Error>> + 'a>>>,
-    waker_added: bool,
 }
 
 impl<'a, T: AsyncPoolContent<C>, C, const N: usize> PoolTake<'a, T, C, N> {
@@ -100,11 +109,12 @@ impl<'a, T: AsyncPoolContent<C>, C, const N: usize> Future for PoolTake<'a, T, C
                     } else {
                         cx.waker().wake_by_ref();
                     }
-                } else if !this.waker_added {
-                    this.waker_added = true;
+                } else {
                     pool.wakers.push(cx.waker().clone());
                     // wake for the rare case that an item was added after we tried to get one but before we registered the waker
-                    cx.waker().wake_by_ref();
+                    if !pool.pool.is_empty() || pool.items.load(Ordering::SeqCst) < N {
+                        cx.waker().wake_by_ref();
+                    }
                 }
                 Poll::Pending
             }
-- 
2.43.0


From 40fe3c9ac8826ea4abdf0b72cb92b267296376ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:57 +0000
Subject: [PATCH 30/41] fix: give places of failed and cancelled creations back
 to the pool

---
 src/pool/async_pool.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/pool/async_pool.rs b/src/pool/async_pool.rs
index e1832a4..ad6c4a0 100644
--- a/src/pool/async_pool.rs
+++ b/src/pool/async_pool.rs
@@ -62,16 +62,36 @@ pub struct PoolTake<'a, T: AsyncPoolContent<C>, C, const N: usize> {
     add: Option<Pin<Box<dyn Future<Output = Result<T, T::Error>> + 'a>>>,
 }
 
+impl<T: AsyncPoolContent<C>, C, const N: usize> Drop for PoolTake<'_, T, C, N> {
+    fn drop(&mut self) {
+        self.creation_failed();
+    }
+}
+
 impl<'a, T: AsyncPoolContent<C>, C, const N: usize> PoolTake<'a, T, C, N> {
+    /// Gives the place of an item back that could not be created
+    fn creation_failed(&mut self) {
+        if self.add.take().is_some() {
+            self.pool.items.fetch_sub(1, Ordering::SeqCst);
+            self.pool.wake_waiting();
+        }
+    }
+
     fn poll_add(&mut self, cx: &mut task::Context<'_>) -> Option<Poll<<Self as Future>::Output>> {
-        self.add.as_mut().map(|add| {
+        let res = self.add.as_mut().map(|add| {
             add.as_mut().poll(cx).map(|res| {
                 res.map(|item| PoolItem {
                     item: ManuallyDrop::new(item),
                     pool: self.pool,
                 })
             })
-        })
+        });
+        match &res {
+            Some(Poll::Ready(Ok(_))) => self.add = None,
+            Some(Poll::Ready(Err(_))) => self.creation_failed(),
+            _ => (),
+        }
+        res
     }
 }
 
-- 
2.43.0


From c87c6f5c4c4e336fea9a8d0a7a36527fff11e370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:58 +0000
Subject: [PATCH 31/41] fix: drop the contents of vectors that are returned to
 the pool

---
 src/pool/sync_pool.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/pool/sync_pool.rs b/src/pool/sync_pool.rs
index baa3d0a..e142ca8 100644
--- a/src/pool/sync_pool.rs
+++ b/src/pool/sync_pool.rs
@@ -54,9 +54,7 @@ impl<T> SyncPoolContent for Vec<T> {
     }
 
     fn reset(&mut self, ctx: &Self::Ctx) {
-        unsafe {
-            self.set_len(0);
-        }
+        self.clear();
         self.shrink_to(ctx.size_cap);
     }
 }
-- 
2.43.0


From 208a51e8889d1d7dbc0b83dc364c7d7df0330d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:59 +0000
Subject: [PATCH 32/41] fix: escape the names of migrations

---
 src/migrator/migrator_inner.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/migrator/migrator_inner.rs b/src/migrator/migrator_inner.rs
index 4e855ac..1a334cb 100644
--- a/src/migrator/migrator_inner.rs
+++ b/src/migrator/migrator_inner.rs
@@ -1,7 +1,10 @@
 use {
     super::{MigrationList, Version},
     crate::{
-        error::Error, migrator::model::MigrationModel, pool::AsyncPoolTrait, types::Value,
+        error::Error,
+        migrator::model::MigrationModel,
+        pool::AsyncPoolTrait,
+        types::{StringEscape, Value},
         Connection,
     },
     std::collections::HashMap,
@@ -113,7 +116,7 @@ impl<'a> Migrator<'a> {
                                 migration_list.version,
                                 migration.name().to_owned(),
                             );
-                            self.pool.get().await?.execute_query(&format!("insert into `migrations` (`version_0`, `version_1`, `version_2`, `name`) values ({}, {}, {}, \"{}\")", migration_list.version.0, migration_list.version.1, migration_list.version.2, migration.name())).await?;
+                            self.pool.get().await?.execute_query(&format!("insert into `migrations` (`version_0`, `version_1`, `version_2`, `name`) values ({}, {}, {}, {})", migration_list.version.0, migration_list.version.1, migration_list.version.2, StringEscape(migration.name()))).await?;
                         }
                     }
                 }
@@ -133,7 +136,7 @@ impl<'a> Migrator<'a> {
                     ) {
                         migration.down(self.pool).await?;
                         applied.swap_remove(index);
-                        self.pool.get().await?.execute_query(&format!("delete from `migrations` where `version_0` = {} and `version_1` = {} and `version_2` = {} and `name` = \"{}\"", migration_list.version.0, migration_list.version.1, migration_list.version.2, migration.name())).await?;
+                        self.pool.get().await?.execute_query(&format!("delete from `migrations` where `version_0` = {} and `version_1` = {} and `version_2` = {} and `name` = {}", migration_list.version.0, migration_list.version.1, migration_list.version.2, StringEscape(migration.name()))).await?;
                     }
                 }
             }
@@ -155,7 +158,7 @@ impl<'a> Migrator<'a> {
                 {
                     migration.down(self.pool).await?;
                     applied.swap_remove(index);
-                    self.pool.get().await?.execute_query(&format!("delete from `migrations` where `version_0` = {} and `version_1` = {} and `version_2` = {} and `name` = \"{}\"", migration_list.version.0, migration_list.version.1, migration_list.version.2, migration.name())).await?;
+                    self.pool.get().await?.execute_query(&format!("delete from `migrations` where `version_0` = {} and `version_1` = {} and `version_2` = {} and `name` = {}", migration_list.version.0, migration_list.version.1, migration_list.version.2, StringEscape(migration.name()))).await?;
                     return Ok(true);
                 }
             }
-- 
2.43.0


From d1a708ab0ef89c2f3cf7a9b47f17d32f0265dd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:44 +0000
Subject: [PATCH 33/41] fix: map rows of models whose table has the name of one
 of their fields

---
 macros/src/lib.rs              |  4 ++--
 src/model/from_query_result.rs | 12 +++++++-----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index cf4aa48..4c55e41 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -147,9 +147,9 @@ pub fn derive_from_query_result(input: TokenStream) -> TokenStream {
             set_child_mapping = quote! {
                 #set_child_mapping
                 #maybe_else if table == #name {
-                    self.#ident.set_mapping(column, "", index);
+                    self.#ident.set_mapping_inner(column, "", index);
                 } else if table.starts_with(#name_with_point) {
-                    self.#ident.set_mapping(column, &table[#len..], index);
+                    self.#ident.set_mapping_inner(column, &table[#len..], index);
                 }
             };
         }
diff --git a/src/model/from_query_result.rs b/src/model/from_query_result.rs
index 36dea75..7fce1e8 100644
--- a/src/model/from_query_result.rs
+++ b/src/model/from_query_result.rs
@@ -4,13 +4,15 @@ pub trait FromQueryResultMapping<ModelData: super::ModelData>: Default {
     fn set_mapping_inner(&mut self, column: &Column, table: &str, index: usize);
 
     fn set_mapping(&mut self, column: &Column, table: &str, index: usize) {
-        self.set_mapping_inner(
-            column,
+        // the model's own columns, even if one of its fields has the same name as its table
+        let table = if table == ModelData::TABLE {
+            ""
+        } else {
             table
                 .strip_prefix(ModelData::TABLE_WITH_POINT)
-                .unwrap_or(table),
-            index,
-        )
+                .unwrap_or(table)
+        };
+        self.set_mapping_inner(column, table, index)
     }
 
     fn from_columns(columns: &[Column]) -> Self {
-- 
2.43.0


From c4c5eecf8f708da93502613be1430707330b3ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:45 +0000
Subject: [PATCH 34/41] fix: reject oversized server keys

---
 src/utils/crypt.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/utils/crypt.rs b/src/utils/crypt.rs
index 0d85bb8..dc4dc57 100644
--- a/src/utils/crypt.rs
+++ b/src/utils/crypt.rs
@@ -79,6 +79,13 @@ mod der {
             let mut pub_key = eat_sequence(&mut der)?;
             let modulus = eat_uint(&mut pub_key)?;
             let exponent = eat_uint(&mut pub_key)?;
+            // encrypting with an oversized key (as defined by OpenSSL) takes practically forever
+            if modulus.bits() > 16384
+                || exponent >= modulus
+                || (modulus.bits() > 3072 && exponent.bits() > 64)
+            {
+                return Err(Error::InvalidPem);
+            }
             Ok(Self { modulus, exponent })
         }
 
-- 
2.43.0


From fed0f3e91ab47a3f2dd5822336de5e9fcb3a4fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:44 +0000
Subject: [PATCH 35/41] fix: report the error that ended reading one row

---
 src/connection/result_set.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/connection/result_set.rs b/src/connection/result_set.rs
index 5e24b81..44b0b54 100644
--- a/src/connection/result_set.rs
+++ b/src/connection/result_set.rs
@@ -83,7 +83,8 @@ where
 
     pub async fn one(&mut self) -> Result<Option<R>, Error> {
         let res = self.next().await;
-        while self.next().await?.is_some() {}
+        // Reading on is impossible after an I/O error
+        while self.conn.in_sync && self.next().await?.is_some() {}
         res
     }
 
-- 
2.43.0


From bcf69f25d25b8f8bab61a3f6ad7bb8e7418fb42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:42 +0000
Subject: [PATCH 36/41] fix: skip further result sets whose columns cannot be
 decoded

---
 src/connection/result_set.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/connection/result_set.rs b/src/connection/result_set.rs
index 44b0b54..7e906da 100644
--- a/src/connection/result_set.rs
+++ b/src/connection/result_set.rs
@@ -231,7 +231,11 @@ impl Connection {
                     self.decode_response(&packet).await??;
                 }
                 Some(_) => {
-                    self.read_columns(&packet).await?;
+                    let columns = self.read_columns(&packet).await;
+                    // Definitions which cannot be decoded do not matter here
+                    if !self.in_sync {
+                        columns?;
+                    }
                     self.discard_rows().await?;
                 }
             }
-- 
2.43.0


From d8e19cc577478ab360a70863afc09c288c259762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:56 +0000
Subject: [PATCH 37/41] fix: serialize hex strings the way they are
 deserialized

---
 src/types/hex.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/hex.rs b/src/types/hex.rs
index 3c93aeb..a7ec0ac 100644
--- a/src/types/hex.rs
+++ b/src/types/hex.rs
@@ -63,7 +63,7 @@ impl serde::Serialize for Hex {
     where
         S: serde::Serializer,
     {
-        serializer.serialize_newtype_struct("Hex", &self.to_string())
+        serializer.serialize_str(&self.to_string())
     }
 }
 
-- 
2.43.0


From c281d0bdbdf85258b85b204356d75bacfeee3876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:04 +0000
Subject: [PATCH 38/41] fix: keep the migrator's state in step with the
 recorded migrations

---
 src/migrator/migrator_inner.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/migrator/migrator_inner.rs b/src/migrator/migrator_inner.rs
index 1a334cb..e21b3c8 100644
--- a/src/migrator/migrator_inner.rs
+++ b/src/migrator/migrator_inner.rs
@@ -111,12 +111,12 @@ impl<'a> Migrator<'a> {
                         .is_none()
                         {
                             migration.up(self.pool).await?;
+                            self.pool.get().await?.execute_query(&format!("insert into `migrations` (`version_0`, `version_1`, `version_2`, `name`) values ({}, {}, {}, {})", migration_list.version.0, migration_list.version.1, migration_list.version.2, StringEscape(migration.name()))).await?;
                             Self::insert_applied(
                                 &mut self.applied,
                                 migration_list.version,
                                 migration.name().to_owned(),
                             );
-                            self.pool.get().await?.execute_query(&format!("insert into `migrations` (`version_0`, `version_1`, `version_2`, `name`) values ({}, {}, {}, {})", migration_list.version.0, migration_list.version.1, migration_list.version.2, StringEscape(migration.name()))).await?;
                         }
                     }
                 }
@@ -135,8 +135,8 @@ impl<'a> Migrator<'a> {
                         migration.name(),
                     ) {
                         migration.down(self.pool).await?;
-                        applied.swap_remove(index);
                         self.pool.get().await?.execute_query(&format!("delete from `migrations` where `version_0` = {} and `version_1` = {} and `version_2` = {} and `name` = {}", migration_list.version.0, migration_list.version.1, migration_list.version.2, StringEscape(migration.name()))).await?;
+                        applied.swap_remove(index);
                     }
                 }
             }
@@ -157,8 +157,8 @@ impl<'a> Migrator<'a> {
                     Self::get_applied(&mut self.applied, &migration_list.version, migration.name())
                 {
                     migration.down(self.pool).await?;
-                    applied.swap_remove(index);
                     self.pool.get().await?.execute_query(&format!("delete from `migrations` where `version_0` = {} and `version_1` = {} and `version_2` = {} and `name` = {}", migration_list.version.0, migration_list.version.1, migration_list.version.2, StringEscape(migration.name()))).await?;
+                    applied.swap_remove(index);
                     return Ok(true);
                 }
             }
-- 
2.43.0


From 4203054ca967bcf93e48a09cedb8b7f703d59e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:34 +0000
Subject: [PATCH 39/41] fix: derive FromQueryResult for models that consist of
 references only

---
 macros/src/lib.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 4c55e41..bb43a25 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -155,11 +155,11 @@ pub fn derive_from_query_result(input: TokenStream) -> TokenStream {
         }
 
         let set_own_mapping = quote! {
-            *match column.org_name() {
-                #(stringify!(#simple_field_names) => &mut self.#simple_field_names,)*
-                #(stringify!(#struct_field_names) => &mut self.#struct_field_names,)*
-                _ => return,
-            } = Some(index);
+            match column.org_name() {
+                #(stringify!(#simple_field_names) => self.#simple_field_names = Some(index),)*
+                #(stringify!(#struct_field_names) => self.#struct_field_names = Some(index),)*
+                _ => {}
+            }
         };
 
         if !fields.iter().any(TypeComplexity::complex) {
-- 
2.43.0


From 51335e175ad168fd7c39ba63c7d2de63a85425c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:45 +0000
Subject: [PATCH 40/41] fix: let raw identifiers name columns without their
 prefix

---
 macros/src/lib.rs | 40 ++++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index bb43a25..9f19fb8 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -8,9 +8,22 @@ use {
     proc_macro2::Span,
     quote::{format_ident, quote},
     std::fmt,
-    syn::{parse_macro_input, DeriveInput, Ident, LitStr, Type},
+    syn::{ext::IdentExt, parse_macro_input, DeriveInput, Ident, LitStr, Type},
 };
 
+/// The name of the column that belongs to a field
+fn column_name(ident: &Ident) -> LitStr {
+    LitStr::new(&ident.unraw().to_string(), ident.span())
+}
+
+/// The field that belongs to a column
+fn field_ident(fields: &[NamedField], column: &str) -> Ident {
+    match fields.iter().find(|field| field.ident.unraw() == column) {
+        Some(field) => field.ident.clone(),
+        None => format_ident!("{column}"),
+    }
+}
+
 struct Error(Option<syn::Error>);
 
 impl Error {
@@ -88,6 +101,7 @@ pub fn derive_from_query_result(input: TokenStream) -> TokenStream {
         .filter(TypeComplexity::simple_ref)
         .map(|x| &x.ident)
         .collect();
+    let simple_column_names = simple_field_names.iter().map(|x| column_name(x));
     let mut struct_field_names = Vec::new();
     let mut set_struct_fields = proc_macro2::TokenStream::new();
     for field in &fields {
@@ -139,7 +153,7 @@ pub fn derive_from_query_result(input: TokenStream) -> TokenStream {
             .filter(TypeComplexity::complex_ref)
             .enumerate()
         {
-            let name = ident.to_string();
+            let name = ident.unraw().to_string();
             let name_with_point = name.clone() + ".";
             let len = name_with_point.as_bytes().len();
             let maybe_else = if i == 0 { None } else { Some(quote!(else)) };
@@ -156,7 +170,7 @@ pub fn derive_from_query_result(input: TokenStream) -> TokenStream {
 
         let set_own_mapping = quote! {
             match column.org_name() {
-                #(stringify!(#simple_field_names) => self.#simple_field_names = Some(index),)*
+                #(#simple_column_names => self.#simple_field_names = Some(index),)*
                 #(stringify!(#struct_field_names) => self.#struct_field_names = Some(index),)*
                 _ => {}
             }
@@ -217,7 +231,7 @@ pub fn derive_active_model(input: TokenStream) -> TokenStream {
     let primary = match attr_span {
         Some(span) => match attrs.get("primary") {
             Some(primary) => match attrs.get("auto_increment") {
-                Some(ai) => Some((format_ident!("{primary}"), ai == "true")),
+                Some(ai) => Some((field_ident(&fields, primary), ai == "true")),
                 None => {
                     error.add(
                         span,
@@ -243,7 +257,7 @@ pub fn derive_active_model(input: TokenStream) -> TokenStream {
             let names = r#struct
                 .fields
                 .iter()
-                .map(|(_, x)| format_ident!("{ident}_{x}"));
+                .map(|(_, x)| format_ident!("{}_{}", ident, x));
             insert_struct_fields = quote! {
                 #insert_struct_fields
                 match self.#ident {
@@ -314,6 +328,8 @@ pub fn derive_active_model(input: TokenStream) -> TokenStream {
         .filter(TypeComplexity::complex_ref)
         .map(|x| &x.ty)
         .collect();
+    let simple_column_names = simple_field_names.iter().map(|x| column_name(x));
+    let complex_column_names = complex_field_names.iter().map(|x| column_name(x));
 
     let ident = &input.ident;
     let model_ident = format_ident!("{ident}ActiveModel");
@@ -330,9 +346,9 @@ pub fn derive_active_model(input: TokenStream) -> TokenStream {
             impl mysql_connector::model::ActiveModel<#ident> for #model_ident {
                 async fn into_values(self, conn: &mut mysql_connector::Connection) -> Result<Vec<mysql_connector::model::NamedValue>, mysql_connector::error::Error> {
                     let mut values = Vec::new();
-                    #(self.#simple_field_names.insert_named_value(&mut values, stringify!(#simple_field_names))?;)*
+                    #(self.#simple_field_names.insert_named_value(&mut values, #simple_column_names)?;)*
                     #insert_struct_fields
-                    #(self.#complex_field_names.insert_named_value(&mut values, stringify!(#complex_field_names), conn).await?;)*
+                    #(self.#complex_field_names.insert_named_value(&mut values, #complex_column_names, conn).await?;)*
                     Ok(values)
                 }
 
@@ -372,21 +388,21 @@ pub fn derive_into_query(input: TokenStream) -> TokenStream {
     let mut simple_field_names: Vec<LitStr> = fields
         .iter()
         .filter(TypeComplexity::simple_ref)
-        .map(|x| LitStr::new(&x.ident.to_string(), x.ident.span()))
+        .map(|x| column_name(&x.ident))
         .collect();
     for field in &fields {
         if let TypeComplexity::Struct(r#struct) = &field.complexity {
             let mapping_names = r#struct
                 .fields
                 .iter()
-                .map(|x| LitStr::new(&format!("{}_{}", field.ident, x.1), field.ident.span()));
+                .map(|x| column_name(&format_ident!("{}_{}", field.ident, x.1)));
             simple_field_names.extend(mapping_names);
         }
     }
     let complex_field_names: &Vec<LitStr> = &fields
         .iter()
         .filter(TypeComplexity::complex_ref)
-        .map(|x| LitStr::new(&x.ident.to_string(), x.ident.span()))
+        .map(|x| column_name(&x.ident))
         .collect();
     let complex_field_types: &Vec<&Type> = &fields
         .iter()
@@ -423,7 +439,7 @@ pub fn derive_model(input: TokenStream) -> TokenStream {
     let mut auto_increment = false;
     if let Some(span) = attr_span {
         match attrs.get("primary") {
-            Some(primary) => match fields.iter().find(|field| field.ident == primary) {
+            Some(primary) => match fields.iter().find(|field| field.ident.unraw() == primary) {
                 Some(field) => primary_type = Some(&field.ty),
                 None => error.add(span, "primary not found in struct"),
             },
@@ -447,7 +463,7 @@ pub fn derive_model(input: TokenStream) -> TokenStream {
 
     let primary = attrs.get("primary").unwrap();
     let primary_type = primary_type.unwrap();
-    let primary_ident = Ident::new(primary, Span::call_site());
+    let primary_ident = field_ident(&fields, primary);
     let ident = &input.ident;
 
     quote! {
-- 
2.43.0


From 46b1f42aa2b7220b53cb15cc42b87690f46faf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:43 +0000
Subject: [PATCH 41/41] fix: ignore an unknown announced auth plugin if the
 options specify one

---
 src/connection/init.rs              | 7 ++++++-
 src/connection/packets/handshake.rs | 8 ++++----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/connection/init.rs b/src/connection/init.rs
index a6ef594..8f86691 100644
--- a/src/connection/init.rs
+++ b/src/connection/init.rs
@@ -70,7 +70,12 @@ impl Connection {
         let (version, is_mariadb) = handshake
             .parse_server_version()
             .unwrap_or(((0, 0, 0), false));
-        let auth_plugin = handshake.auth_plugin().unwrap_or(AuthPlugin::Native);
+        let auth_plugin = match handshake.auth_plugin() {
+            Some(Ok(auth_plugin)) => auth_plugin,
+            // the announced plugin is ignored if the options specify one
+            Some(Err(err)) => options.auth_plugin().ok_or(err)?,
+            None => AuthPlugin::Native,
+        };
 
         Ok(ConnectionData {
             id: handshake.connection_id(),
diff --git a/src/connection/packets/handshake.rs b/src/connection/packets/handshake.rs
index edb86f5..dea32a2 100644
--- a/src/connection/packets/handshake.rs
+++ b/src/connection/packets/handshake.rs
@@ -18,7 +18,7 @@ pub struct HandshakePacket<'a> {
     status_flags: StatusFlags,
     auth_plugin_data_len: u8,
     nonce: Vec<u8>,
-    auth_plugin: Option<AuthPlugin>,
+    auth_plugin: Option<&'a [u8]>,
 }
 
 impl<'de> Deserialize<'de> for HandshakePacket<'de> {
@@ -53,7 +53,7 @@ impl<'de> Deserialize<'de> for HandshakePacket<'de> {
         nonce.resize(20, 0);
 
         let auth_plugin = if capabilities.contains(CapabilityFlags::PLUGIN_AUTH) {
-            Some(AuthPlugin::from_bytes(buf.eat_all())?)
+            Some(buf.eat_all())
         } else {
             None
         };
@@ -138,7 +138,7 @@ impl<'a> HandshakePacket<'a> {
         self.status_flags
     }
 
-    pub fn auth_plugin(&self) -> Option<AuthPlugin> {
-        self.auth_plugin
+    pub fn auth_plugin(&self) -> Option<Result<AuthPlugin, ProtocolError>> {
+        self.auth_plugin.map(AuthPlugin::from_bytes)
     }
 }
-- 
2.43.0

