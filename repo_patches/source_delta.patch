From e8e02d977b4af478ae6b812cc6337984649596d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:21 +0000
Subject: [PATCH 01/29] fix: report an undecodable event in a binlog file as an
 error, not as the end of the file

Running out of bytes while decoding one event produced an UnexpectedEof
error that the iterator took for the end of the file, so that the rest of
the file was silently skipped.
---
 src/binlog_reader.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/binlog_reader.rs b/src/binlog_reader.rs
index e5b5c53..84a25a5 100644
--- a/src/binlog_reader.rs
+++ b/src/binlog_reader.rs
@@ -5,7 +5,7 @@ use crate::events::event_header::EventHeader;
 use crate::events::event_parser::EventParser;
 use constants::EVENT_HEADER_SIZE;
 use std::fs::File;
-use std::io::{ErrorKind, Read};
+use std::io::{self, ErrorKind, Read};
 
 const MAGIC_NUMBER: [u8; constants::FIRST_EVENT_POSITION] = [0xfe, 0x62, 0x69, 0x6e];
 
@@ -47,13 +47,19 @@ impl BinlogReader {
             let mut vec: Vec<u8> = vec![0; payload_length];
 
             self.stream.read_exact(&mut vec)?;
-            let binlog_event = self.parser.parse_event(&header, &vec)?;
+            let binlog_event = self
+                .parser
+                .parse_event(&header, &vec)
+                .map_err(to_event_error)?;
             Ok((header, binlog_event))
         } else {
             let slice = &mut self.payload_buffer[0..payload_length];
 
             self.stream.read_exact(slice)?;
-            let binlog_event = self.parser.parse_event(&header, slice)?;
+            let binlog_event = self
+                .parser
+                .parse_event(&header, slice)
+                .map_err(to_event_error)?;
             Ok((header, binlog_event))
         }
     }
@@ -74,3 +80,14 @@ impl Iterator for BinlogReader {
         Some(result)
     }
 }
+
+/// Running out of bytes inside an event means that the event is malformed.
+/// It must not be confused with reaching the end of the file.
+fn to_event_error(error: Error) -> Error {
+    match error {
+        Error::IoError(e) if e.kind() == ErrorKind::UnexpectedEof => {
+            Error::IoError(io::Error::new(ErrorKind::InvalidData, e))
+        }
+        e => e,
+    }
+}
-- 
2.43.0


From aaa5d2e1aaa09c84d97a16f381a1e130ea519bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:38 +0000
Subject: [PATCH 02/29] fix: decode user variable events that have no flags
 byte

Servers write the flags byte after integer values only. For other types the
event ends with the value, and reading the byte failed with an UnexpectedEof
error as soon as the checksum had been stripped.
---
 src/events/uservar_event.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/events/uservar_event.rs b/src/events/uservar_event.rs
index b7ca715..9687bd8 100644
--- a/src/events/uservar_event.rs
+++ b/src/events/uservar_event.rs
@@ -47,7 +47,12 @@ impl UserVarEvent {
         let value_len = cursor.read_u32::<LittleEndian>()?;
         let value = read_string(cursor, value_len as usize)?;
 
-        let flags = cursor.read_u8()?;
+        // The flags byte is only written for integer values
+        let flags = if cursor.position() < cursor.get_ref().len() as u64 {
+            cursor.read_u8()?
+        } else {
+            0
+        };
 
         Ok(Self {
             name,
-- 
2.43.0


From c1718c6ef90b96d45a376d54f0889bd9bb3f6ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:39 +0000
Subject: [PATCH 03/29] fix: ignore the flag bits in the length of a MariaDB
 GTID list event

The upper 4 bits of the count are flags (FLAG_UNTIL_REACHED, FLAG_IGN_GTIDS);
an event with any of them set was rejected.
---
 src/providers/mariadb/events/gtid_list_event.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/providers/mariadb/events/gtid_list_event.rs b/src/providers/mariadb/events/gtid_list_event.rs
index 18443e6..92f5d70 100644
--- a/src/providers/mariadb/events/gtid_list_event.rs
+++ b/src/providers/mariadb/events/gtid_list_event.rs
@@ -14,7 +14,8 @@ pub struct GtidListEvent {
 impl GtidListEvent {
     /// Parses events in MariaDB.
     pub fn parse(cursor: &mut Cursor<&[u8]>) -> Result<Self, Error> {
-        let gtid_list_len = cursor.read_u32::<LittleEndian>()?;
+        // The upper 4 bits contain flags
+        let gtid_list_len = cursor.read_u32::<LittleEndian>()? & 0x0FFF_FFFF;
 
         let mut gtid_list = GtidList::new();
         for _i in 0..gtid_list_len {
-- 
2.43.0


From ba3e4637b91b125b1e1fe3c40a8e22cddf025044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:40 +0000
Subject: [PATCH 04/29] fix: hold a parsed UUID in its canonical form and
 reject one of a wrong length

An upper case UUID never matched the same UUID of a GTID event, so that a
GtidSet ended up with two entries for one source. A UUID with less than 16
bytes panicked, and anything after 16 bytes was dropped.
---
 src/providers/mysql/gtid/uuid.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/providers/mysql/gtid/uuid.rs b/src/providers/mysql/gtid/uuid.rs
index 897efb9..daee8ea 100644
--- a/src/providers/mysql/gtid/uuid.rs
+++ b/src/providers/mysql/gtid/uuid.rs
@@ -24,10 +24,11 @@ impl Uuid {
         let hex = uuid.replace("-", "");
         let vec = hex::decode(hex)?;
 
-        let mut data = [0u8; 16];
-        (0..16).for_each(|i| data[i] = vec[i]);
-
-        Ok(Self { data, uuid })
+        match <[u8; 16]>::try_from(vec) {
+            // Servers report uuids in lower case
+            Ok(data) => Ok(Self::new(data)),
+            Err(_) => Err(Error::String(format!("Invalid uuid format {}", uuid))),
+        }
     }
 }
 
-- 
2.43.0


From cf02cc6ca41c5bf6df084dd25a8b3c490342a054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:11 +0000
Subject: [PATCH 05/29] fix: parse GTID sets with unordered, overlapping or
 repeated parts correctly

All of these are legal in MySQL, but a repeated source replaced the intervals
parsed before it, and unordered or overlapping intervals broke the binary
search of add_gtid and the encoding of the dump request.
---
 src/providers/mysql/gtid/gtid_set.rs | 10 +++++++++-
 src/providers/mysql/gtid/uuid_set.rs |  5 +++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/providers/mysql/gtid/gtid_set.rs b/src/providers/mysql/gtid/gtid_set.rs
index 3bb8cc8..016d0f5 100644
--- a/src/providers/mysql/gtid/gtid_set.rs
+++ b/src/providers/mysql/gtid/gtid_set.rs
@@ -32,7 +32,7 @@ impl GtidSet {
         let gtid_set = gtid_set.replace("\n", "");
         let uuid_sets = gtid_set.split(',').map(|x| x.trim()).collect::<Vec<&str>>();
 
-        let mut result = HashMap::new();
+        let mut result: HashMap<String, UuidSet> = HashMap::new();
         for uuid_set in uuid_sets {
             let source_id: String = uuid_set.chars().take(UUID_LENGTH).collect();
             let source_id = Uuid::parse(source_id)?;
@@ -48,8 +48,16 @@ impl GtidSet {
                     2 => Interval::new(range[0].parse()?, range[1].parse()?),
                     _ => return Err(Error::String(format!("Invalid interval format {}", token))),
                 };
+                if interval.start > interval.end {
+                    return Err(Error::String(format!("Invalid interval format {}", token)));
+                }
                 intervals.push(interval);
             }
+
+            // The same source may be listed several times
+            if let Some(uuid_set) = result.remove(&source_id.uuid) {
+                intervals.extend(uuid_set.intervals);
+            }
             result.insert(source_id.uuid.clone(), UuidSet::new(source_id, intervals));
         }
 
diff --git a/src/providers/mysql/gtid/uuid_set.rs b/src/providers/mysql/gtid/uuid_set.rs
index 32c2122..72ea998 100644
--- a/src/providers/mysql/gtid/uuid_set.rs
+++ b/src/providers/mysql/gtid/uuid_set.rs
@@ -17,6 +17,7 @@ pub struct UuidSet {
 impl UuidSet {
     pub fn new(source_id: Uuid, mut intervals: Vec<Interval>) -> Self {
         if intervals.len() > 1 {
+            intervals.sort_by_key(|x| x.start);
             collapse_intervals(&mut intervals);
         }
         Self {
@@ -88,8 +89,8 @@ pub fn collapse_intervals(intervals: &mut Vec<Interval>) {
         let right_end = intervals[index + 1].end;
 
         let mut left = &mut intervals[index];
-        if left.end + 1 == right_start {
-            left.end = right_end;
+        if right_start <= left.end.saturating_add(1) {
+            left.end = left.end.max(right_end);
             intervals.remove(index + 1);
         } else {
             index += 1;
-- 
2.43.0


From a6eb91df19ff609fd02aca4e6ea0fc3cbfc49e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:12 +0000
Subject: [PATCH 06/29] fix: reject a MariaDB GTID that doesn't have exactly
 three components

One with fewer components panicked and the excess ones were ignored.
---
 src/providers/mariadb/gtid/gtid_list.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/providers/mariadb/gtid/gtid_list.rs b/src/providers/mariadb/gtid/gtid_list.rs
index d3216fd..c00b486 100644
--- a/src/providers/mariadb/gtid/gtid_list.rs
+++ b/src/providers/mariadb/gtid/gtid_list.rs
@@ -29,6 +29,9 @@ impl GtidList {
 
         for gtid in gtid_list {
             let components = gtid.split('-').collect::<Vec<&str>>();
+            if components.len() != 3 {
+                return Err(Error::String(format!("Invalid gtid format {}", gtid)));
+            }
             let domain_id: u32 = components[0].parse()?;
             let server_id: u32 = components[1].parse()?;
             let sequence: u64 = components[2].parse()?;
-- 
2.43.0


From e383b0c80fbde3f1d7361e75b256c0700f1749ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:33 +0000
Subject: [PATCH 07/29] fix: require the colon between the UUID and the
 intervals of a GTID set

Whatever character stood there was skipped, so that for example a UUID
followed by 57 was parsed as transaction 7 of that source.
---
 src/providers/mysql/gtid/gtid_set.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/providers/mysql/gtid/gtid_set.rs b/src/providers/mysql/gtid/gtid_set.rs
index 016d0f5..c47df9a 100644
--- a/src/providers/mysql/gtid/gtid_set.rs
+++ b/src/providers/mysql/gtid/gtid_set.rs
@@ -36,6 +36,9 @@ impl GtidSet {
         for uuid_set in uuid_sets {
             let source_id: String = uuid_set.chars().take(UUID_LENGTH).collect();
             let source_id = Uuid::parse(source_id)?;
+            if uuid_set.chars().nth(UUID_LENGTH) != Some(':') {
+                return Err(Error::String(format!("Invalid uuid set {}", uuid_set)));
+            }
 
             let mut intervals = Vec::new();
             let ranges: String = uuid_set.chars().skip(UUID_LENGTH + 1).collect();
-- 
2.43.0


From 23f063c6b4cb521d4af8cb09e7c61fa103453e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:34 +0000
Subject: [PATCH 08/29] fix: send an empty authentication response for an empty
 password

The scramble of an empty password is refused by the server. Accounts without
a password are accepted immediately, also with caching_sha2_password.
---
 src/connect.rs    | 3 +++
 src/extensions.rs | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/src/connect.rs b/src/connect.rs
index 6d1b61a..2038bd7 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -95,6 +95,9 @@ impl BinlogClient {
         let (packet, seq_num) = channel.read_packet()?;
         check_error_packet(&packet, "Authentication switch error.")?;
 
+        if packet[0] == ResponseType::OK {
+            return Ok(());
+        }
         if switch_packet.auth_plugin_name == auth_plugin_names::CACHING_SHA2_PASSWORD {
             self.authenticate_sha_256(
                 channel,
diff --git a/src/extensions.rs b/src/extensions.rs
index c9257c1..1a6aa6a 100644
--- a/src/extensions.rs
+++ b/src/extensions.rs
@@ -9,6 +9,11 @@ use sha2::{Digest, Sha256};
 use std::io::{self, BufRead, Cursor, Read, Write};
 
 pub fn encrypt_password(password: &String, scramble: &String, auth_plugin: &AuthPlugin) -> Vec<u8> {
+    // Accounts without a password expect an empty response
+    if password.is_empty() {
+        return Vec::new();
+    }
+
     match auth_plugin {
         AuthPlugin::MySqlNativePassword => {
             let password_hash = sha1(password.as_bytes());
-- 
2.43.0


From 239488797200cfd3802debc82f9db7e909f69871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:35 +0000
Subject: [PATCH 09/29] fix: read the server's final reply after a fast
 caching_sha2_password login

The OK or error packet that follows the fast authentication result was left
unread, so a refusal was missed and every later reply was taken for the
answer to the next request.
---
 src/connect.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/connect.rs b/src/connect.rs
index 2038bd7..ca4a64e 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -121,6 +121,8 @@ impl BinlogClient {
         // See https://mariadb.com/kb/en/caching_sha2_password-authentication-plugin/
         // Success authentication.
         if packet[0] == 0x01 && packet[1] == 0x03 {
+            let (packet, _seq_num) = channel.read_packet()?;
+            check_error_packet(&packet, "Authentication error.")?;
             return Ok(());
         }
 
-- 
2.43.0


From 14839ba55bf1660106f5da2e7f16e81c0b203067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:55 +0000
Subject: [PATCH 10/29] fix: don't record the GTID of an open MariaDB or XA
 transaction

---
 src/binlog_client.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/binlog_client.rs b/src/binlog_client.rs
index cf7b19a..f4ad485 100644
--- a/src/binlog_client.rs
+++ b/src/binlog_client.rs
@@ -3,6 +3,7 @@ use crate::constants::database_provider::DatabaseProvider;
 use crate::errors::Error;
 use crate::events::binlog_event::BinlogEvent;
 use crate::events::event_header::EventHeader;
+use crate::events::event_type::EventType;
 use crate::providers::mariadb::gtid::gtid::Gtid as MariaGtid;
 use crate::providers::mariadb::mariadb_provider::replicate_mariadb;
 use crate::providers::mysql::gtid::gtid::Gtid as MySqlGtid;
@@ -11,6 +12,9 @@ use crate::replica_options::ReplicaOptions;
 use crate::ssl_mode::SslMode;
 use crate::starting_strategy::StartingStrategy;
 
+/// The event group is not a transaction and consists of a single statement.
+const MARIADB_FL_STANDALONE: u8 = 1;
+
 /// MySql replication client streaming binlog events in real-time.
 pub struct BinlogClient {
     pub options: ReplicaOptions,
@@ -62,11 +66,11 @@ impl BinlogClient {
 
     /// Updates current replication position
     pub fn commit(&mut self, header: &EventHeader, event: &BinlogEvent) {
-        self.update_gtid_position(event);
+        self.update_gtid_position(header, event);
         self.update_binlog_position(header, event);
     }
 
-    fn update_gtid_position(&mut self, event: &BinlogEvent) {
+    fn update_gtid_position(&mut self, header: &EventHeader, event: &BinlogEvent) {
         if self.options.binlog.starting_strategy != StartingStrategy::FromGtid {
             return;
         }
@@ -74,6 +78,9 @@ impl BinlogClient {
         match event {
             BinlogEvent::MariaDbGtidEvent(x) => {
                 self.maria_gtid = Some(x.gtid.clone());
+                // MariaDB has no BEGIN statement. The event itself starts a transaction
+                // unless it's marked as standalone.
+                self.transaction = x.flags & MARIADB_FL_STANDALONE == 0;
             }
             BinlogEvent::MySqlGtidEvent(x) => {
                 self.mysql_gtid = Some(x.gtid.clone());
@@ -85,15 +92,23 @@ impl BinlogClient {
                 if x.sql_statement.is_empty() {
                     return;
                 }
-                if x.sql_statement == "BEGIN" {
+                if x.sql_statement == "BEGIN" || x.sql_statement.starts_with("XA START ") {
                     self.transaction = true;
-                } else if x.sql_statement == "COMMIT" || x.sql_statement == "ROLLBACK" {
+                } else if x.sql_statement == "COMMIT"
+                    || x.sql_statement == "ROLLBACK"
+                    || x.sql_statement.starts_with("XA COMMIT ")
+                    || x.sql_statement.starts_with("XA ROLLBACK ")
+                {
                     self.commit_gtid();
                 } else if !self.transaction {
                     // Auto-commit query like DDL
                     self.commit_gtid();
                 }
             }
+            // The first phase of XA transaction has its own gtid
+            _ if header.event_type == EventType::MySqlXaPrepare as u8 => {
+                self.commit_gtid();
+            }
             _ => {}
         }
     }
-- 
2.43.0


From 88ad3c708c52dfb5dfeb98f4d60a91c8e52caa34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:20 +0000
Subject: [PATCH 11/29] fix: start each MySQL GTID event group outside of a
 transaction

---
 src/binlog_client.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/binlog_client.rs b/src/binlog_client.rs
index f4ad485..3e66462 100644
--- a/src/binlog_client.rs
+++ b/src/binlog_client.rs
@@ -84,6 +84,8 @@ impl BinlogClient {
             }
             BinlogEvent::MySqlGtidEvent(x) => {
                 self.mysql_gtid = Some(x.gtid.clone());
+                // Starts a new event group even if the previous one was left unfinished
+                self.transaction = false;
             }
             BinlogEvent::XidEvent(_) => {
                 self.commit_gtid();
-- 
2.43.0


From f6cfc81807e178354caa77ea5f1dee1e184f4407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:21 +0000
Subject: [PATCH 12/29] fix: don't move the position into the middle of a
 statement with several row events

---
 src/binlog_client.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/binlog_client.rs b/src/binlog_client.rs
index 3e66462..42409dd 100644
--- a/src/binlog_client.rs
+++ b/src/binlog_client.rs
@@ -15,6 +15,9 @@ use crate::starting_strategy::StartingStrategy;
 /// The event group is not a transaction and consists of a single statement.
 const MARIADB_FL_STANDALONE: u8 = 1;
 
+/// The last row event of a statement.
+const ROWS_STMT_END_F: u16 = 1;
+
 /// MySql replication client streaming binlog events in real-time.
 pub struct BinlogClient {
     pub options: ReplicaOptions,
@@ -118,9 +121,12 @@ impl BinlogClient {
     fn update_binlog_position(&mut self, header: &EventHeader, event: &BinlogEvent) {
         // Rows event depends on preceding TableMapEvent & we change the position
         // after we read them atomically to prevent missing mapping on reconnect.
-        // Figure out something better as TableMapEvent can be followed by several row events.
+        // TableMapEvent can be followed by several row events. The last one is marked as such.
         match event {
             BinlogEvent::TableMapEvent(_) => return,
+            BinlogEvent::WriteRowsEvent(x) if x.flags & ROWS_STMT_END_F == 0 => return,
+            BinlogEvent::UpdateRowsEvent(x) if x.flags & ROWS_STMT_END_F == 0 => return,
+            BinlogEvent::DeleteRowsEvent(x) if x.flags & ROWS_STMT_END_F == 0 => return,
             BinlogEvent::RotateEvent(x) => {
                 self.options.binlog.filename = x.binlog_filename.clone();
                 self.options.binlog.position = x.binlog_position as u32;
-- 
2.43.0


From 40a9cdec3e6c261c4252ca48ad2cc29bb95a72fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:22 +0000
Subject: [PATCH 13/29] fix: decode the zero YEAR as 0 rather than 1900

---
 src/events/row_events/col_parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/events/row_events/col_parser.rs b/src/events/row_events/col_parser.rs
index df78fef..3061049 100644
--- a/src/events/row_events/col_parser.rs
+++ b/src/events/row_events/col_parser.rs
@@ -28,7 +28,11 @@ pub fn parse_blob(cursor: &mut Cursor<&[u8]>, metadata: u16) -> Result<Vec<u8>,
 }
 
 pub fn parse_year(cursor: &mut Cursor<&[u8]>, _metadata: u16) -> Result<u16, Error> {
-    Ok(1900 + cursor.read_u8()? as u16)
+    // Zero stands for the year 0000
+    match cursor.read_u8()? {
+        0 => Ok(0),
+        value => Ok(1900 + value as u16),
+    }
 }
 
 pub fn parse_date(cursor: &mut Cursor<&[u8]>, _metadata: u16) -> Result<Date, Error> {
-- 
2.43.0


From 029dc726df0ad0438ef6a5258c2b2fd58bfd5cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:23 +0000
Subject: [PATCH 14/29] fix: don't restrict a MySQL GTID dump to the last
 binlog position

---
 src/providers/mysql/mysql_provider.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/providers/mysql/mysql_provider.rs b/src/providers/mysql/mysql_provider.rs
index 36c92d5..b45f14c 100644
--- a/src/providers/mysql/mysql_provider.rs
+++ b/src/providers/mysql/mysql_provider.rs
@@ -1,5 +1,6 @@
 use crate::commands::dump_binlog_command::DumpBinlogCommand;
 use crate::commands::dump_binlog_gtid_command::DumpBinlogGtidCommand;
+use crate::constants::FIRST_EVENT_POSITION;
 use crate::errors::Error;
 use crate::packet_channel::PacketChannel;
 use crate::replica_options::ReplicaOptions;
@@ -12,11 +13,10 @@ pub fn replicate_mysql(
 ) -> Result<(), Error> {
     if options.binlog.starting_strategy == StartingStrategy::FromGtid {
         if let Some(gtid_set) = &options.binlog.gtid_set {
-            let command = DumpBinlogGtidCommand::new(
-                server_id,
-                options.binlog.filename.clone(),
-                options.binlog.position,
-            );
+            // The server looks for the first missing transaction only if no binlog file is given.
+            // Otherwise it continues from the position which may be inside of a transaction.
+            let command =
+                DumpBinlogGtidCommand::new(server_id, String::new(), FIRST_EVENT_POSITION as u32);
             channel.write_packet(&command.serialize(&gtid_set)?, 0)?
         } else {
             return Err(Error::String("GtidSet was not specified".to_string()));
-- 
2.43.0


From 9628d364716dd0f247476592ce06f0eba475dd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:22 +0000
Subject: [PATCH 15/29] fix: check sizes in events before allocating memory or
 reading integers

---
 src/binlog_reader.rs                | 10 ++++++++--
 src/events/row_events/col_parser.rs |  7 +++++--
 src/events/row_events/row_parser.rs |  8 +++-----
 src/events/table_map_event.rs       |  5 ++++-
 src/extensions.rs                   | 24 ++++++++++++++++++++++--
 src/metadata/table_metadata.rs      |  3 ++-
 6 files changed, 44 insertions(+), 13 deletions(-)

diff --git a/src/binlog_reader.rs b/src/binlog_reader.rs
index 84a25a5..1923127 100644
--- a/src/binlog_reader.rs
+++ b/src/binlog_reader.rs
@@ -44,9 +44,15 @@ impl BinlogReader {
 
         let payload_length = header.event_length as usize - EVENT_HEADER_SIZE;
         if payload_length as usize > constants::PAYLOAD_BUFFER_SIZE {
-            let mut vec: Vec<u8> = vec![0; payload_length];
+            // Memory is allocated only for the bytes that are there
+            let mut vec: Vec<u8> = Vec::new();
 
-            self.stream.read_exact(&mut vec)?;
+            (&mut self.stream)
+                .take(payload_length as u64)
+                .read_to_end(&mut vec)?;
+            if vec.len() < payload_length {
+                return Err(Error::IoError(io::Error::from(ErrorKind::UnexpectedEof)));
+            }
             let binlog_event = self
                 .parser
                 .parse_event(&header, &vec)
diff --git a/src/events/row_events/col_parser.rs b/src/events/row_events/col_parser.rs
index 3061049..e5bedbb 100644
--- a/src/events/row_events/col_parser.rs
+++ b/src/events/row_events/col_parser.rs
@@ -1,6 +1,8 @@
 use crate::errors::Error;
 use crate::events::row_events::mysql_value::{Date, DateTime, Time};
-use crate::extensions::{read_bitmap_big_endian, read_string};
+use crate::extensions::{
+    check_available, read_bitmap_big_endian, read_string, read_uint_little_endian,
+};
 use byteorder::{BigEndian, LittleEndian, ReadBytesExt};
 use std::io::{Cursor, Read};
 
@@ -21,7 +23,8 @@ pub fn parse_bit(cursor: &mut Cursor<&[u8]>, metadata: u16) -> Result<Vec<bool>,
 }
 
 pub fn parse_blob(cursor: &mut Cursor<&[u8]>, metadata: u16) -> Result<Vec<u8>, Error> {
-    let length = cursor.read_uint::<LittleEndian>(metadata as usize)? as usize;
+    let length = read_uint_little_endian(cursor, metadata as usize)? as usize;
+    check_available(cursor, length)?;
     let mut vec = vec![0; length];
     cursor.read_exact(&mut vec)?;
     Ok(vec)
diff --git a/src/events/row_events/row_parser.rs b/src/events/row_events/row_parser.rs
index 9182e3c..6a337f5 100644
--- a/src/events/row_events/row_parser.rs
+++ b/src/events/row_events/row_parser.rs
@@ -7,7 +7,7 @@ use crate::events::row_events::col_parser::{
 use crate::events::row_events::mysql_value::MySqlValue;
 use crate::events::row_events::row_data::{RowData, UpdateRowData};
 use crate::events::table_map_event::TableMapEvent;
-use crate::extensions::{read_bitmap_little_endian, read_len_enc_num};
+use crate::extensions::{read_bitmap_little_endian, read_len_enc_num, read_uint_little_endian};
 use byteorder::{LittleEndian, ReadBytesExt};
 use std::collections::HashMap;
 use std::io::{Cursor, Seek, SeekFrom};
@@ -149,11 +149,9 @@ fn parse_cell(
         /* BIT, ENUM, SET types */
         ColumnType::Bit => MySqlValue::Bit(parse_bit(cursor, metadata)?),
         ColumnType::Enum => {
-            MySqlValue::Enum(cursor.read_uint::<LittleEndian>(metadata as usize)? as u32)
-        }
-        ColumnType::Set => {
-            MySqlValue::Set(cursor.read_uint::<LittleEndian>(metadata as usize)? as u64)
+            MySqlValue::Enum(read_uint_little_endian(cursor, metadata as usize)? as u32)
         }
+        ColumnType::Set => MySqlValue::Set(read_uint_little_endian(cursor, metadata as usize)?),
         /* Blob types. MariaDB always creates BLOB for first three */
         ColumnType::TinyBlob => MySqlValue::Blob(parse_blob(cursor, metadata)?),
         ColumnType::MediumBlob => MySqlValue::Blob(parse_blob(cursor, metadata)?),
diff --git a/src/events/table_map_event.rs b/src/events/table_map_event.rs
index 2ec4b04..50bc724 100644
--- a/src/events/table_map_event.rs
+++ b/src/events/table_map_event.rs
@@ -1,6 +1,8 @@
 use crate::constants::column_type::ColumnType;
 use crate::errors::Error;
-use crate::extensions::{read_bitmap_little_endian, read_len_enc_num, read_string};
+use crate::extensions::{
+    check_available, read_bitmap_little_endian, read_len_enc_num, read_string,
+};
 use crate::metadata::table_metadata::TableMetadata;
 use byteorder::{BigEndian, LittleEndian, ReadBytesExt};
 use std::io::{Cursor, Read, Seek, SeekFrom};
@@ -50,6 +52,7 @@ impl TableMapEvent {
         cursor.seek(SeekFrom::Current(1))?;
 
         let columns_number = read_len_enc_num(cursor)?;
+        check_available(cursor, columns_number)?;
         let mut column_types = vec![0u8; columns_number];
         cursor.read_exact(&mut column_types)?;
 
diff --git a/src/extensions.rs b/src/extensions.rs
index 1a6aa6a..0802b02 100644
--- a/src/extensions.rs
+++ b/src/extensions.rs
@@ -64,7 +64,25 @@ pub fn write_null_term_string(
     Ok(())
 }
 
+/// Checks that the bytes are there before memory is allocated for them
+pub fn check_available(cursor: &Cursor<&[u8]>, size: usize) -> Result<(), io::Error> {
+    let available = (cursor.get_ref().len() as u64).saturating_sub(cursor.position());
+    if size as u64 > available {
+        return Err(io::Error::from(io::ErrorKind::UnexpectedEof));
+    }
+    Ok(())
+}
+
+/// Reads little-endian unsigned integer of the size which comes from metadata
+pub fn read_uint_little_endian(cursor: &mut Cursor<&[u8]>, size: usize) -> Result<u64, Error> {
+    if size < 1 || size > 8 {
+        return Err(Error::String(format!("Invalid integer size: {}", size)));
+    }
+    Ok(cursor.read_uint::<LittleEndian>(size)?)
+}
+
 pub fn read_string(cursor: &mut Cursor<&[u8]>, size: usize) -> Result<String, Error> {
+    check_available(cursor, size)?;
     let mut vec = vec![0; size];
     cursor.read_exact(&mut vec)?;
     Ok(String::from_utf8(vec)?)
@@ -106,8 +124,9 @@ pub fn read_bitmap_little_endian(
     cursor: &mut Cursor<&[u8]>,
     bits_number: usize,
 ) -> Result<Vec<bool>, io::Error> {
+    let bytes_number = bits_number / 8 + (bits_number % 8 != 0) as usize;
+    check_available(cursor, bytes_number)?;
     let mut result = vec![false; bits_number];
-    let bytes_number = (bits_number + 7) / 8;
     for i in 0..bytes_number {
         let value = cursor.read_u8()?;
         for y in 0..8 {
@@ -126,8 +145,9 @@ pub fn read_bitmap_big_endian(
     cursor: &mut Cursor<&[u8]>,
     bits_number: usize,
 ) -> Result<Vec<bool>, io::Error> {
+    let bytes_number = bits_number / 8 + (bits_number % 8 != 0) as usize;
+    check_available(cursor, bytes_number)?;
     let mut result = vec![false; bits_number];
-    let bytes_number = (bits_number + 7) / 8;
     for i in 0..bytes_number {
         let value = cursor.read_u8()?;
         for y in 0..8 {
diff --git a/src/metadata/table_metadata.rs b/src/metadata/table_metadata.rs
index 7577e62..0d9ccad 100644
--- a/src/metadata/table_metadata.rs
+++ b/src/metadata/table_metadata.rs
@@ -1,6 +1,6 @@
 use crate::constants::column_type::ColumnType;
 use crate::errors::Error;
-use crate::extensions::{read_len_enc_num, read_len_enc_str};
+use crate::extensions::{check_available, read_len_enc_num, read_len_enc_str};
 use crate::metadata::default_charset::DefaultCharset;
 use crate::metadata::metadata_type::MetadataType;
 use byteorder::ReadBytesExt;
@@ -66,6 +66,7 @@ impl TableMetadata {
             let metadata_type = MetadataType::from_code(cursor.read_u8()?)?;
             let metadata_length = read_len_enc_num(cursor)?;
 
+            check_available(cursor, metadata_length)?;
             let mut metadata = vec![0u8; metadata_length];
             cursor.read_exact(&mut metadata)?;
 
-- 
2.43.0


From 5c8bc706923e13c370f517231559d94906b991d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:24 +0000
Subject: [PATCH 16/29] fix: reject events that are shorter than their header
 or checksum

---
 src/binlog_reader.rs                   |  6 ++++++
 src/events/event_parser.rs             | 10 +++++++++-
 src/events/format_description_event.rs |  3 ++-
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/binlog_reader.rs b/src/binlog_reader.rs
index 1923127..47f8840 100644
--- a/src/binlog_reader.rs
+++ b/src/binlog_reader.rs
@@ -42,6 +42,12 @@ impl BinlogReader {
         self.stream.read_exact(&mut header_buffer)?;
         let header = EventHeader::parse(&header_buffer)?;
 
+        if (header.event_length as usize) < EVENT_HEADER_SIZE {
+            return Err(Error::String(format!(
+                "Invalid event length: {}",
+                header.event_length
+            )));
+        }
         let payload_length = header.event_length as usize - EVENT_HEADER_SIZE;
         if payload_length as usize > constants::PAYLOAD_BUFFER_SIZE {
             // Memory is allocated only for the bytes that are there
diff --git a/src/events/event_parser.rs b/src/events/event_parser.rs
index 2dfcef7..39f8f30 100644
--- a/src/events/event_parser.rs
+++ b/src/events/event_parser.rs
@@ -22,6 +22,9 @@ use crate::providers::mysql::events::prev_gtids_event::PreviousGtidsEvent;
 use std::collections::HashMap;
 use std::io::Cursor;
 
+/// Size of CRC32 checksum
+const CHECKSUM_SIZE: usize = 4;
+
 pub struct EventParser {
     /// Gets checksum algorithm type used in a binlog file.
     pub checksum_type: ChecksumType,
@@ -46,7 +49,12 @@ impl EventParser {
         // Consider verifying checksum
         let mut cursor = match self.checksum_type {
             ChecksumType::None => Cursor::new(slice),
-            ChecksumType::Crc32 => Cursor::new(&slice[0..slice.len() - 4]),
+            ChecksumType::Crc32 => {
+                if slice.len() < CHECKSUM_SIZE {
+                    return Err(Error::String("The event has no checksum".to_string()));
+                }
+                Cursor::new(&slice[0..slice.len() - CHECKSUM_SIZE])
+            }
         };
 
         let binlog_event: BinlogEvent = match EventType::from_code(header.event_type) {
diff --git a/src/events/format_description_event.rs b/src/events/format_description_event.rs
index b2d76d1..c7a2911 100644
--- a/src/events/format_description_event.rs
+++ b/src/events/format_description_event.rs
@@ -46,7 +46,8 @@ impl FormatDescriptionEvent {
         let payload_length = cursor.read_u8()?;
 
         let mut checksum_type = ChecksumType::None;
-        if payload_length != header.event_length as u8 - constants::EVENT_HEADER_SIZE as u8 {
+        let event_length = payload_length as u32 + constants::EVENT_HEADER_SIZE as u32;
+        if event_length != header.event_length {
             let skip = payload_length as i64
                 - EVENT_TYPES_OFFSET as i64
                 - EventType::FormatDescriptionEvent as i64;
-- 
2.43.0


From 2cf5ac9dd30f661d67416d45ea192271ab5834e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:25 +0000
Subject: [PATCH 17/29] fix: report malformed row and previous GTIDs events as
 errors instead of panicking

---
 src/events/row_events/col_parser.rs           |  9 ++++++
 src/events/row_events/decimal.rs              |  6 ++++
 src/events/row_events/row_parser.rs           | 31 +++++++++++++++++++
 .../mysql/events/prev_gtids_event.rs          |  3 ++
 4 files changed, 49 insertions(+)

diff --git a/src/events/row_events/col_parser.rs b/src/events/row_events/col_parser.rs
index e5bedbb..2e40c33 100644
--- a/src/events/row_events/col_parser.rs
+++ b/src/events/row_events/col_parser.rs
@@ -6,6 +6,8 @@ use crate::extensions::{
 use byteorder::{BigEndian, LittleEndian, ReadBytesExt};
 use std::io::{Cursor, Read};
 
+const MAX_FRACTIONAL_DIGITS: u16 = 6;
+
 pub fn parse_string(cursor: &mut Cursor<&[u8]>, metadata: u16) -> Result<String, Error> {
     let length = if metadata < 256 {
         cursor.read_u8()? as usize
@@ -165,6 +167,13 @@ pub fn parse_timestamp2(cursor: &mut Cursor<&[u8]>, metadata: u16) -> Result<u64
 }
 
 fn parse_fractional_part(cursor: &mut Cursor<&[u8]>, metadata: u16) -> Result<u64, Error> {
+    if metadata > MAX_FRACTIONAL_DIGITS {
+        return Err(Error::String(format!(
+            "Invalid number of fractional digits: {}",
+            metadata
+        )));
+    }
+
     let length = (metadata + 1) / 2;
     if length == 0 {
         return Ok(0);
diff --git a/src/events/row_events/decimal.rs b/src/events/row_events/decimal.rs
index 34c94f6..2af10e3 100644
--- a/src/events/row_events/decimal.rs
+++ b/src/events/row_events/decimal.rs
@@ -10,6 +10,12 @@ const COMPRESSED_BYTES: [u8; 10] = [0, 1, 1, 2, 2, 3, 3, 4, 4, 4];
 pub fn parse_decimal(cursor: &mut Cursor<&[u8]>, metadata: u16) -> Result<String, Error> {
     let precision = metadata & 0xFF;
     let scale = (metadata >> 8) as u8;
+    if precision == 0 || precision < scale as u16 {
+        return Err(Error::String(format!(
+            "Invalid decimal type ({},{})",
+            precision, scale
+        )));
+    }
     let integral = (precision - scale as u16) as u8;
 
     let uncompressed_integral = integral / DIGITS_PER_INT;
diff --git a/src/events/row_events/row_parser.rs b/src/events/row_events/row_parser.rs
index 6a337f5..c9c0f5e 100644
--- a/src/events/row_events/row_parser.rs
+++ b/src/events/row_events/row_parser.rs
@@ -35,10 +35,14 @@ pub fn parse_row_data_list(
         None => return Err(Error::String(TABLE_MAP_NOT_FOUND.to_string())),
     };
 
+    check_columns_number(table, columns_present)?;
+
     let cells_included = get_bits_number(columns_present);
     let mut rows = Vec::new();
     while cursor.position() < cursor.get_ref().len() as u64 {
+        let row_position = cursor.position();
         rows.push(parse_row(cursor, table, columns_present, cells_included)?);
+        check_row_size(cursor, row_position)?;
     }
     Ok(rows)
 }
@@ -55,10 +59,14 @@ pub fn parse_update_row_data_list(
         None => return Err(Error::String(TABLE_MAP_NOT_FOUND.to_string())),
     };
 
+    check_columns_number(table, columns_before_update)?;
+    check_columns_number(table, columns_after_update)?;
+
     let cells_included_before_update = get_bits_number(columns_before_update);
     let cells_included_after_update = get_bits_number(columns_after_update);
     let mut rows = Vec::new();
     while cursor.position() < cursor.get_ref().len() as u64 {
+        let row_position = cursor.position();
         let row_before_update = parse_row(
             cursor,
             table,
@@ -72,6 +80,7 @@ pub fn parse_update_row_data_list(
             cells_included_after_update,
         )?;
         rows.push(UpdateRowData::new(row_before_update, row_after_update));
+        check_row_size(cursor, row_position)?;
     }
     Ok(rows)
 }
@@ -181,6 +190,28 @@ fn parse_cell(
     Ok(value)
 }
 
+/// A row image must describe the same columns as the preceding TableMapEvent.
+fn check_columns_number(table: &TableMapEvent, columns_present: &Vec<bool>) -> Result<(), Error> {
+    if columns_present.len() != table.column_types.len() {
+        return Err(Error::String(format!(
+            "The row event has {} columns but its table has {}",
+            columns_present.len(),
+            table.column_types.len()
+        )));
+    }
+    Ok(())
+}
+
+/// Rows without any columns take no bytes and can't be followed by anything.
+fn check_row_size(cursor: &Cursor<&[u8]>, row_position: u64) -> Result<(), Error> {
+    if cursor.position() == row_position {
+        return Err(Error::String(
+            "The row event has data but none of its columns is present".to_string(),
+        ));
+    }
+    Ok(())
+}
+
 /// Gets number of bits set in a bitmap.
 fn get_bits_number(bitmap: &Vec<bool>) -> usize {
     bitmap.iter().filter(|&x| *x == true).count()
diff --git a/src/providers/mysql/events/prev_gtids_event.rs b/src/providers/mysql/events/prev_gtids_event.rs
index d579d53..a06189a 100644
--- a/src/providers/mysql/events/prev_gtids_event.rs
+++ b/src/providers/mysql/events/prev_gtids_event.rs
@@ -28,6 +28,9 @@ impl PreviousGtidsEvent {
             for _y in 0..interval_number {
                 let start = cursor.read_u64::<LittleEndian>()?;
                 let end = cursor.read_u64::<LittleEndian>()?;
+                if end <= start {
+                    return Err(Error::String(format!("Invalid interval {}-{}", start, end)));
+                }
                 uuid_set.intervals.push(Interval::new(start, end - 1));
             }
             gtid_set
-- 
2.43.0


From 377ab4cbf617c04fa659347a36477a79af84b10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:47 +0000
Subject: [PATCH 18/29] fix: keep the last character of a string that has no
 terminator

---
 src/extensions.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/extensions.rs b/src/extensions.rs
index 0802b02..9c14f5c 100644
--- a/src/extensions.rs
+++ b/src/extensions.rs
@@ -51,7 +51,10 @@ pub fn xor(slice1: &[u8], slice2: &[u8]) -> Vec<u8> {
 pub fn read_null_term_string(cursor: &mut Cursor<&[u8]>) -> Result<String, Error> {
     let mut vec = Vec::new();
     cursor.read_until(NULL_TERMINATOR, &mut vec)?;
-    vec.pop();
+    // The terminator may be missing at the end of a packet
+    if vec.last() == Some(&NULL_TERMINATOR) {
+        vec.pop();
+    }
     Ok(String::from_utf8(vec)?)
 }
 
-- 
2.43.0


From 191d8e8f72aacabf97b59225dcc48cfefab94649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:48 +0000
Subject: [PATCH 19/29] fix: report malformed server replies as errors instead
 of panicking

---
 src/binlog_events.rs |  3 +++
 src/configure.rs     | 11 +++++++++--
 src/connect.rs       | 28 +++++++++++++++++++++-------
 src/extensions.rs    |  3 +++
 4 files changed, 36 insertions(+), 9 deletions(-)

diff --git a/src/binlog_events.rs b/src/binlog_events.rs
index ba7edfb..23cfa3b 100644
--- a/src/binlog_events.rs
+++ b/src/binlog_events.rs
@@ -45,6 +45,9 @@ impl Iterator for BinlogEvents {
             Ok(x) => x,
             Err(e) => return Some(Err(Error::IoError(e))),
         };
+        if packet.is_empty() {
+            return Some(Err(Error::String("Empty network packet".to_string())));
+        }
         match packet[0] {
             ResponseType::OK => Some(self.read_event(&packet)),
             ResponseType::ERROR => Some(self.read_error(&packet)),
diff --git a/src/configure.rs b/src/configure.rs
index 453616e..464b5db 100644
--- a/src/configure.rs
+++ b/src/configure.rs
@@ -23,14 +23,14 @@ impl BinlogClient {
         channel.write_packet(&command.serialize()?, 0)?;
 
         let result_set = self.read_result_set(channel)?;
-        if result_set.len() != 1 {
+        if result_set.len() != 1 || result_set[0].cells.len() < 2 {
             return Err(Error::String(
                 "Could not read master binlog position.".to_string(),
             ));
         }
 
-        self.options.binlog.filename = result_set[0].cells[0].clone();
         self.options.binlog.position = result_set[0].cells[1].parse()?;
+        self.options.binlog.filename = result_set[0].cells[0].clone();
         Ok(())
     }
 
@@ -59,6 +59,12 @@ impl BinlogClient {
         channel.write_packet(&command.serialize()?, 0)?;
         let result_set = self.read_result_set(channel)?;
 
+        if result_set.is_empty() || result_set[0].cells.is_empty() {
+            return Err(Error::String(
+                "Could not read master checksum type.".to_string(),
+            ));
+        }
+
         // When replication is started fake RotateEvent comes before FormatDescriptionEvent.
         // In order to deserialize the event we have to obtain checksum type length in advance.
         Ok(ChecksumType::from_name(&result_set[0].cells[0])?)
@@ -74,6 +80,7 @@ impl BinlogClient {
         loop {
             // Skip through metadata
             let (packet, _) = channel.read_packet()?;
+            check_error_packet(&packet, "Reading result set metadata error.")?;
             if packet[0] == ResponseType::END_OF_FILE {
                 break;
             }
diff --git a/src/connect.rs b/src/connect.rs
index ca4a64e..669bc42 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -23,7 +23,12 @@ impl BinlogClient {
         let handshake = HandshakePacket::parse(&packet)?;
 
         let auth_plugin = self.get_auth_plugin(&handshake.auth_plugin_name)?;
-        self.authenticate(&mut channel, &handshake, auth_plugin, seq_num + 1)?;
+        self.authenticate(
+            &mut channel,
+            &handshake,
+            auth_plugin,
+            seq_num.wrapping_add(1),
+        )?;
         Ok((channel, DatabaseProvider::from(&handshake.server_version)))
     }
 
@@ -45,7 +50,7 @@ impl BinlogClient {
             if ssl_available {
                 let ssl_command = SslRequestCommand::new(UTF8_MB4_GENERAL_CI);
                 channel.write_packet(&ssl_command.serialize()?, seq_num)?;
-                seq_num += 1;
+                seq_num = seq_num.wrapping_add(1);
                 channel.upgrade_to_ssl();
                 use_ssl = true;
             }
@@ -61,7 +66,12 @@ impl BinlogClient {
             ResponseType::OK => return Ok(()),
             ResponseType::AUTH_PLUGIN_SWITCH => {
                 let switch_packet = AuthPluginSwitchPacket::parse(&packet[1..])?;
-                self.handle_auth_plugin_switch(channel, switch_packet, seq_num + 1, use_ssl)?;
+                self.handle_auth_plugin_switch(
+                    channel,
+                    switch_packet,
+                    seq_num.wrapping_add(1),
+                    use_ssl,
+                )?;
                 Ok(())
             }
             _ => {
@@ -69,7 +79,7 @@ impl BinlogClient {
                     channel,
                     &packet,
                     &handshake.scramble,
-                    seq_num + 1,
+                    seq_num.wrapping_add(1),
                     use_ssl,
                 )?;
                 Ok(())
@@ -103,7 +113,7 @@ impl BinlogClient {
                 channel,
                 &packet,
                 &switch_packet.auth_plugin_data,
-                seq_num + 1,
+                seq_num.wrapping_add(1),
                 use_ssl,
             )?;
         }
@@ -120,7 +130,7 @@ impl BinlogClient {
     ) -> Result<(), Error> {
         // See https://mariadb.com/kb/en/caching_sha2_password-authentication-plugin/
         // Success authentication.
-        if packet[0] == 0x01 && packet[1] == 0x03 {
+        if packet.starts_with(&[0x01, 0x03]) {
             let (packet, _seq_num) = channel.read_packet()?;
             check_error_packet(&packet, "Authentication error.")?;
             return Ok(());
@@ -142,6 +152,10 @@ impl BinlogClient {
         let (packet, seq_num) = channel.read_packet()?;
         check_error_packet(&packet, "Requesting caching_sha2_password public key.")?;
 
+        if scramble.is_empty() {
+            return Err(Error::String("The server sent no scramble".to_string()));
+        }
+
         // Extract public key.
         let public_key = &packet[1..];
         let encrypted_password = xor(&password, &scramble.as_bytes());
@@ -154,7 +168,7 @@ impl BinlogClient {
             Padding::PKCS1_OAEP,
         )?;
 
-        channel.write_packet(&encrypted_body, seq_num + 1)?;
+        channel.write_packet(&encrypted_body, seq_num.wrapping_add(1))?;
         let (packet, _seq_num) = channel.read_packet()?;
         check_error_packet(&packet, "Authentication error.")?;
         Ok(())
diff --git a/src/extensions.rs b/src/extensions.rs
index 9c14f5c..3cebfdd 100644
--- a/src/extensions.rs
+++ b/src/extensions.rs
@@ -165,6 +165,9 @@ pub fn read_bitmap_big_endian(
 }
 
 pub fn check_error_packet(packet: &[u8], message: &str) -> Result<(), Error> {
+    if packet.is_empty() {
+        return Err(Error::String(format!("{} Empty packet.", message)));
+    }
     if packet[0] == ResponseType::ERROR {
         let error = ErrorPacket::parse(&packet[1..])?;
         let message = format!("{} {:?}", message, error).to_string();
-- 
2.43.0


From 97d80e75bebc791fd1e226b46bd481262f525608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:10 +0000
Subject: [PATCH 20/29] fix: hash the caching_sha2_password scramble in the
 order the server does

---
 src/extensions.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/extensions.rs b/src/extensions.rs
index 3cebfdd..3213e81 100644
--- a/src/extensions.rs
+++ b/src/extensions.rs
@@ -22,7 +22,8 @@ pub fn encrypt_password(password: &String, scramble: &String, auth_plugin: &Auth
         }
         AuthPlugin::CachingSha2Password => {
             let password_hash = sha256(password.as_bytes());
-            let concat_hash = [scramble.as_bytes().to_vec(), sha256(&password_hash)].concat();
+            // Unlike the native plugin, the scramble comes after the password hash
+            let concat_hash = [sha256(&password_hash), scramble.as_bytes().to_vec()].concat();
             xor(&password_hash, &sha256(&concat_hash))
         }
     }
-- 
2.43.0


From ca8d9e275bf1072823738fd0a45b7dc97f610663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:27 +0000
Subject: [PATCH 21/29] fix: treat only an OK reply as successful
 authentication

---
 src/connect.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/connect.rs b/src/connect.rs
index 669bc42..4963127 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -109,15 +109,15 @@ impl BinlogClient {
             return Ok(());
         }
         if switch_packet.auth_plugin_name == auth_plugin_names::CACHING_SHA2_PASSWORD {
-            self.authenticate_sha_256(
+            return self.authenticate_sha_256(
                 channel,
                 &packet,
                 &switch_packet.auth_plugin_data,
                 seq_num.wrapping_add(1),
                 use_ssl,
-            )?;
+            );
         }
-        Ok(())
+        check_ok_packet(&packet)
     }
 
     fn authenticate_sha_256(
@@ -133,7 +133,7 @@ impl BinlogClient {
         if packet.starts_with(&[0x01, 0x03]) {
             let (packet, _seq_num) = channel.read_packet()?;
             check_error_packet(&packet, "Authentication error.")?;
-            return Ok(());
+            return check_ok_packet(&packet);
         }
 
         let mut password = self.options.password.as_bytes().to_vec();
@@ -144,7 +144,7 @@ impl BinlogClient {
             channel.write_packet(&password, seq_num)?;
             let (packet, _seq_num) = channel.read_packet()?;
             check_error_packet(&packet, "Sending clear password error.")?;
-            return Ok(());
+            return check_ok_packet(&packet);
         }
 
         // Request public key.
@@ -171,7 +171,7 @@ impl BinlogClient {
         channel.write_packet(&encrypted_body, seq_num.wrapping_add(1))?;
         let (packet, _seq_num) = channel.read_packet()?;
         check_error_packet(&packet, "Authentication error.")?;
-        Ok(())
+        check_ok_packet(&packet)
     }
 
     fn get_auth_plugin(&self, auth_plugin_name: &String) -> Result<AuthPlugin, Error> {
@@ -185,3 +185,13 @@ impl BinlogClient {
         Err(Error::String(message.to_string()))
     }
 }
+
+/// Authentication succeeds only if the last reply of the server is OK
+fn check_ok_packet(packet: &[u8]) -> Result<(), Error> {
+    if packet.first() != Some(&ResponseType::OK) {
+        return Err(Error::String(
+            "Authentication error. Unexpected server reply.".to_string(),
+        ));
+    }
+    Ok(())
+}
-- 
2.43.0


From 0da3f076d8c1c8b7aa73d1bc260fd7470ee51f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:06 +0000
Subject: [PATCH 22/29] fix: join the packets of an event of 16 MB or more

---
 src/packet_channel.rs | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/packet_channel.rs b/src/packet_channel.rs
index dae50a0..8c9a719 100644
--- a/src/packet_channel.rs
+++ b/src/packet_channel.rs
@@ -2,7 +2,7 @@ use byteorder::{LittleEndian, ReadBytesExt, WriteBytesExt};
 use std::io::{self, Read, Write};
 use std::net::TcpStream;
 
-use crate::constants::{PACKET_HEADER_SIZE, TIMEOUT_LATENCY_DELTA};
+use crate::constants::{MAX_BODY_LENGTH, PACKET_HEADER_SIZE, TIMEOUT_LATENCY_DELTA};
 use crate::replica_options::ReplicaOptions;
 
 pub struct PacketChannel {
@@ -19,16 +19,23 @@ impl PacketChannel {
     }
 
     pub fn read_packet(&mut self) -> Result<(Vec<u8>, u8), io::Error> {
-        let mut header_buffer = [0; PACKET_HEADER_SIZE];
-
-        self.stream.read_exact(&mut header_buffer)?;
-        let packet_size = (&header_buffer[0..3]).read_u24::<LittleEndian>()?;
-        let seq_num = header_buffer[3];
-
-        let mut packet: Vec<u8> = vec![0; packet_size as usize];
-        self.stream.read_exact(&mut packet)?;
-
-        Ok((packet, seq_num))
+        let mut packet: Vec<u8> = Vec::new();
+        loop {
+            let mut header_buffer = [0; PACKET_HEADER_SIZE];
+
+            self.stream.read_exact(&mut header_buffer)?;
+            let packet_size = (&header_buffer[0..3]).read_u24::<LittleEndian>()? as usize;
+            let seq_num = header_buffer[3];
+
+            let read_size = packet.len();
+            packet.resize(read_size + packet_size, 0);
+            self.stream.read_exact(&mut packet[read_size..])?;
+
+            // A payload of the maximum size is continued in the next packet
+            if packet_size < MAX_BODY_LENGTH {
+                return Ok((packet, seq_num));
+            }
+        }
     }
 
     pub fn write_packet(&mut self, packet: &[u8], seq_num: u8) -> Result<(), io::Error> {
-- 
2.43.0


From a5d70d85a297dd4edb8d879d51ab6281a151958a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:06 +0000
Subject: [PATCH 23/29] fix: record the GTID of a compressed MySQL transaction

---
 src/binlog_client.rs     | 4 ++++
 src/events/event_type.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/binlog_client.rs b/src/binlog_client.rs
index 42409dd..dfcce83 100644
--- a/src/binlog_client.rs
+++ b/src/binlog_client.rs
@@ -114,6 +114,10 @@ impl BinlogClient {
             _ if header.event_type == EventType::MySqlXaPrepare as u8 => {
                 self.commit_gtid();
             }
+            // Contains all events of a transaction including the one that ends it
+            _ if header.event_type == EventType::MySqlTransactionPayloadEvent as u8 => {
+                self.commit_gtid();
+            }
             _ => {}
         }
     }
diff --git a/src/events/event_type.rs b/src/events/event_type.rs
index 5b38a6f..261d8dd 100644
--- a/src/events/event_type.rs
+++ b/src/events/event_type.rs
@@ -67,6 +67,9 @@ pub enum EventType {
     /// Identifies <see cref="XaPrepareEvent"/> in MySQL from 5.6 to 8.0.
     MySqlXaPrepare = 38,
 
+    /// Identifies TransactionPayloadEvent, a compressed transaction, in MySQL 8.0.20+.
+    MySqlTransactionPayloadEvent = 40,
+
     /// MariaDB specific events
     /// Identifies <see cref="RowsQueryEvent"/> in MariaDB.
     MariaDbAnnotateRowsEvent = 160,
@@ -107,6 +110,7 @@ impl EventType {
             33 => EventType::MySqlGtidEvent,
             35 => EventType::MySqlPreviousGtidsEvent,
             38 => EventType::MySqlXaPrepare,
+            40 => EventType::MySqlTransactionPayloadEvent,
             160 => EventType::MariaDbAnnotateRowsEvent,
             161 => EventType::MariaDbBinlogCheckpointEvent,
             162 => EventType::MariaDbGtidEvent,
-- 
2.43.0


From 5e418bd4c69c87872becad950b4382ad4ef9a05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:07 +0000
Subject: [PATCH 24/29] fix: record the GTID of a compressed auto-committed
 MariaDB statement

---
 src/binlog_client.rs     | 6 ++++++
 src/events/event_type.rs | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/src/binlog_client.rs b/src/binlog_client.rs
index dfcce83..f65af7a 100644
--- a/src/binlog_client.rs
+++ b/src/binlog_client.rs
@@ -118,6 +118,12 @@ impl BinlogClient {
             _ if header.event_type == EventType::MySqlTransactionPayloadEvent as u8 => {
                 self.commit_gtid();
             }
+            // Statements that control transactions are too short to be compressed
+            _ if header.event_type == EventType::MariaDbQueryCompressedEvent as u8
+                && !self.transaction =>
+            {
+                self.commit_gtid();
+            }
             _ => {}
         }
     }
diff --git a/src/events/event_type.rs b/src/events/event_type.rs
index 261d8dd..b171be5 100644
--- a/src/events/event_type.rs
+++ b/src/events/event_type.rs
@@ -85,6 +85,9 @@ pub enum EventType {
 
     /// Identifies encryption start event in MariaDB.
     MariaDbStartEncryptionEvent = 164,
+
+    /// Identifies compressed QueryEvent in MariaDB 10.2.3+.
+    MariaDbQueryCompressedEvent = 165,
 }
 
 impl EventType {
@@ -116,6 +119,7 @@ impl EventType {
             162 => EventType::MariaDbGtidEvent,
             163 => EventType::MariaDbGtidListEvent,
             164 => EventType::MariaDbStartEncryptionEvent,
+            165 => EventType::MariaDbQueryCompressedEvent,
             _ => EventType::Unknown,
         }
     }
-- 
2.43.0


From 51fedce7c5df49c00e1246f4ac9db1707ac8ea35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:26 +0000
Subject: [PATCH 25/29] fix: don't move the position into a statement after row
 events that are not decoded

---
 src/binlog_client.rs     | 15 +++++++++++++++
 src/events/event_type.rs | 18 ++++++++++++++++++
 2 files changed, 33 insertions(+)

diff --git a/src/binlog_client.rs b/src/binlog_client.rs
index f65af7a..3f69dc1 100644
--- a/src/binlog_client.rs
+++ b/src/binlog_client.rs
@@ -137,6 +137,8 @@ impl BinlogClient {
             BinlogEvent::WriteRowsEvent(x) if x.flags & ROWS_STMT_END_F == 0 => return,
             BinlogEvent::UpdateRowsEvent(x) if x.flags & ROWS_STMT_END_F == 0 => return,
             BinlogEvent::DeleteRowsEvent(x) if x.flags & ROWS_STMT_END_F == 0 => return,
+            // Row events that are not decoded can be followed by other ones as well
+            _ if is_undecoded_rows_event(header.event_type) => return,
             BinlogEvent::RotateEvent(x) => {
                 self.options.binlog.filename = x.binlog_filename.clone();
                 self.options.binlog.position = x.binlog_position as u32;
@@ -164,3 +166,16 @@ impl BinlogClient {
         }
     }
 }
+
+fn is_undecoded_rows_event(event_type: u8) -> bool {
+    match EventType::from_code(event_type) {
+        EventType::MySqlPartialUpdateRowsEvent
+        | EventType::MariaDbWriteRowsCompressedEventV1
+        | EventType::MariaDbUpdateRowsCompressedEventV1
+        | EventType::MariaDbDeleteRowsCompressedEventV1
+        | EventType::MariaDbWriteRowsCompressedEvent
+        | EventType::MariaDbUpdateRowsCompressedEvent
+        | EventType::MariaDbDeleteRowsCompressedEvent => true,
+        _ => false,
+    }
+}
diff --git a/src/events/event_type.rs b/src/events/event_type.rs
index b171be5..621920a 100644
--- a/src/events/event_type.rs
+++ b/src/events/event_type.rs
@@ -67,6 +67,9 @@ pub enum EventType {
     /// Identifies <see cref="XaPrepareEvent"/> in MySQL from 5.6 to 8.0.
     MySqlXaPrepare = 38,
 
+    /// Identifies PartialUpdateRowsEvent in MySQL 8.0.3+.
+    MySqlPartialUpdateRowsEvent = 39,
+
     /// Identifies TransactionPayloadEvent, a compressed transaction, in MySQL 8.0.20+.
     MySqlTransactionPayloadEvent = 40,
 
@@ -88,6 +91,14 @@ pub enum EventType {
 
     /// Identifies compressed QueryEvent in MariaDB 10.2.3+.
     MariaDbQueryCompressedEvent = 165,
+
+    /// Identifies compressed row events in MariaDB 10.2.3+.
+    MariaDbWriteRowsCompressedEventV1 = 166,
+    MariaDbUpdateRowsCompressedEventV1 = 167,
+    MariaDbDeleteRowsCompressedEventV1 = 168,
+    MariaDbWriteRowsCompressedEvent = 169,
+    MariaDbUpdateRowsCompressedEvent = 170,
+    MariaDbDeleteRowsCompressedEvent = 171,
 }
 
 impl EventType {
@@ -113,6 +124,7 @@ impl EventType {
             33 => EventType::MySqlGtidEvent,
             35 => EventType::MySqlPreviousGtidsEvent,
             38 => EventType::MySqlXaPrepare,
+            39 => EventType::MySqlPartialUpdateRowsEvent,
             40 => EventType::MySqlTransactionPayloadEvent,
             160 => EventType::MariaDbAnnotateRowsEvent,
             161 => EventType::MariaDbBinlogCheckpointEvent,
@@ -120,6 +132,12 @@ impl EventType {
             163 => EventType::MariaDbGtidListEvent,
             164 => EventType::MariaDbStartEncryptionEvent,
             165 => EventType::MariaDbQueryCompressedEvent,
+            166 => EventType::MariaDbWriteRowsCompressedEventV1,
+            167 => EventType::MariaDbUpdateRowsCompressedEventV1,
+            168 => EventType::MariaDbDeleteRowsCompressedEventV1,
+            169 => EventType::MariaDbWriteRowsCompressedEvent,
+            170 => EventType::MariaDbUpdateRowsCompressedEvent,
+            171 => EventType::MariaDbDeleteRowsCompressedEvent,
             _ => EventType::Unknown,
         }
     }
-- 
2.43.0


From 94217dc9e867991868b54680992cf666d5c1fde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:56 +0000
Subject: [PATCH 26/29] fix: keep the code of an error packet whose message is
 not valid UTF-8

---
 src/responses/error_packet.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/responses/error_packet.rs b/src/responses/error_packet.rs
index a635fbe..3012a31 100644
--- a/src/responses/error_packet.rs
+++ b/src/responses/error_packet.rs
@@ -16,8 +16,10 @@ impl ErrorPacket {
 
         let error_code = cursor.read_u16::<LittleEndian>()?;
 
-        let mut error_message = String::new();
-        cursor.read_to_string(&mut error_message)?;
+        // The server may cut the message inside of a character
+        let mut message = Vec::new();
+        cursor.read_to_end(&mut message)?;
+        let mut error_message = String::from_utf8_lossy(&message).into_owned();
 
         let mut sql_state = None;
         if error_message.starts_with('#') {
-- 
2.43.0


From 20c302eaa01897df264778fc68b86a39c95488b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:27 +0000
Subject: [PATCH 27/29] fix: split requests of 16 MB and more into several
 packets

---
 src/packet_channel.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/packet_channel.rs b/src/packet_channel.rs
index 8c9a719..accd861 100644
--- a/src/packet_channel.rs
+++ b/src/packet_channel.rs
@@ -38,12 +38,21 @@ impl PacketChannel {
         }
     }
 
-    pub fn write_packet(&mut self, packet: &[u8], seq_num: u8) -> Result<(), io::Error> {
-        let packet_len = packet.len() as u32;
-        self.stream.write_u24::<LittleEndian>(packet_len)?;
-        self.stream.write_u8(seq_num)?;
-        self.stream.write(packet)?;
-        Ok(())
+    pub fn write_packet(&mut self, packet: &[u8], mut seq_num: u8) -> Result<(), io::Error> {
+        let mut rest = packet;
+        loop {
+            let packet_len = rest.len().min(MAX_BODY_LENGTH);
+            self.stream.write_u24::<LittleEndian>(packet_len as u32)?;
+            self.stream.write_u8(seq_num)?;
+            self.stream.write_all(&rest[..packet_len])?;
+
+            // A payload of the maximum size is continued in the next packet
+            if packet_len < MAX_BODY_LENGTH {
+                return Ok(());
+            }
+            rest = &rest[packet_len..];
+            seq_num = seq_num.wrapping_add(1);
+        }
     }
 
     pub fn upgrade_to_ssl(&mut self) {
-- 
2.43.0


From 1cf86824538de0c92b4d7412e7550dcc389d5c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:33 +0000
Subject: [PATCH 28/29] fix: don't overflow on transaction ids at the end of
 the integer range

---
 src/commands/dump_binlog_gtid_command.rs | 5 ++++-
 src/providers/mysql/gtid/uuid_set.rs     | 4 ++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/commands/dump_binlog_gtid_command.rs b/src/commands/dump_binlog_gtid_command.rs
index e0b7655..016390e 100644
--- a/src/commands/dump_binlog_gtid_command.rs
+++ b/src/commands/dump_binlog_gtid_command.rs
@@ -53,7 +53,10 @@ impl DumpBinlogGtidCommand {
 
             for interval in &uuid_set.intervals {
                 cursor.write_u64::<LittleEndian>(interval.start)?;
-                cursor.write_u64::<LittleEndian>(interval.end + 1)?;
+                let end = interval.end.checked_add(1).ok_or_else(|| {
+                    io::Error::new(io::ErrorKind::InvalidInput, "Transaction id is too large")
+                })?;
+                cursor.write_u64::<LittleEndian>(end)?;
             }
         }
 
diff --git a/src/providers/mysql/gtid/uuid_set.rs b/src/providers/mysql/gtid/uuid_set.rs
index 72ea998..14318ed 100644
--- a/src/providers/mysql/gtid/uuid_set.rs
+++ b/src/providers/mysql/gtid/uuid_set.rs
@@ -38,10 +38,10 @@ impl UuidSet {
         let mut added = false;
         if index < self.intervals.len() {
             let interval = &mut self.intervals[index];
-            if interval.start == gtid.transaction_id + 1 {
+            if Some(interval.start) == gtid.transaction_id.checked_add(1) {
                 interval.start = gtid.transaction_id;
                 added = true;
-            } else if interval.end + 1 == gtid.transaction_id {
+            } else if interval.end.checked_add(1) == Some(gtid.transaction_id) {
                 interval.end = gtid.transaction_id;
                 added = true;
             } else if interval.start <= gtid.transaction_id && gtid.transaction_id <= interval.end {
-- 
2.43.0


From e938f3941421aff7f9e78ec4052cf529f1e78188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:35 +0000
Subject: [PATCH 29/29] fix: don't panic on a heartbeat interval without an end

---
 src/packet_channel.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/packet_channel.rs b/src/packet_channel.rs
index accd861..a3e1543 100644
--- a/src/packet_channel.rs
+++ b/src/packet_channel.rs
@@ -13,7 +13,9 @@ impl PacketChannel {
     pub fn new(options: &ReplicaOptions) -> Result<Self, io::Error> {
         let address: String = format!("{}:{}", options.hostname, options.port.to_string());
         let stream = TcpStream::connect(address)?;
-        let read_timeout = options.heartbeat_interval + TIMEOUT_LATENCY_DELTA;
+        let read_timeout = options
+            .heartbeat_interval
+            .saturating_add(TIMEOUT_LATENCY_DELTA);
         stream.set_read_timeout(Some(read_timeout))?;
         Ok(Self { stream })
     }
-- 
2.43.0

