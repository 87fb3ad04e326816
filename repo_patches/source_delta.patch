From 24f3d56d334e85d744898a571000b6529d4f650f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 01/31] fix: read header fields and blocks completely when the
 source returns short reads

Signatures, sized header fields and block data were read with a single
read() call whose count was ignored, and the header log recorded the whole
buffer, so opening failed or read zeros for sources that return fewer bytes
than asked for, and truncated files were padded with zeros.
---
 src/format/kdb2_reader.rs | 13 ++++++++-----
 src/io/log_reader.rs      |  4 +++-
 src/types/database.rs     |  4 ++--
 3 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/format/kdb2_reader.rs b/src/format/kdb2_reader.rs
index 1977442..a1f3125 100644
--- a/src/format/kdb2_reader.rs
+++ b/src/format/kdb2_reader.rs
@@ -35,7 +35,7 @@ use crate::types::TransformedKey;
 use crate::types::Version;
 use crate::types::XmlData;
 use byteorder::{LittleEndian, ReadBytesExt};
-use std::io::{Cursor, Read};
+use std::io::{Cursor, ErrorKind, Read};
 
 /// Attempts to read the database content from the reader.
 pub fn read<R>(reader: &mut R, composite_key: &CompositeKey) -> Result<(MetaData, XmlData)>
@@ -346,19 +346,22 @@ fn read_xml_bytes(compression: &Compression, payload: &[u8]) -> Result<Vec<u8>>
 
 fn read_bytes_16<R: Read>(reader: &mut R) -> Result<[u8; 16]> {
     let mut data = [0; 16];
-    reader.read(&mut data)?;
+    reader.read_exact(&mut data)?;
     Ok(data)
 }
 
 fn read_bytes_32<R: Read>(reader: &mut R) -> Result<[u8; 32]> {
     let mut data = [0; 32];
-    reader.read(&mut data)?;
+    reader.read_exact(&mut data)?;
     Ok(data)
 }
 
 fn read_bytes_size<R: Read>(reader: &mut R, size: &usize) -> Result<Vec<u8>> {
-    let mut data = vec![0; *size];
-    reader.read(&mut data)?;
+    let mut data = Vec::new();
+    reader.by_ref().take(*size as u64).read_to_end(&mut data)?;
+    if data.len() < *size {
+        return Err(Error::Io(ErrorKind::UnexpectedEof.into()));
+    }
     Ok(data)
 }
 
diff --git a/src/io/log_reader.rs b/src/io/log_reader.rs
index c219110..8db0f46 100644
--- a/src/io/log_reader.rs
+++ b/src/io/log_reader.rs
@@ -49,7 +49,9 @@ impl<R: Read> Read for LogReader<R> {
     fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
         let result = self.inner.read(buf);
         if self.is_logging {
-            self.log_data.extend_from_slice(&buf);
+            if let Ok(count) = result {
+                self.log_data.extend_from_slice(&buf[..count]);
+            }
         }
         result
     }
diff --git a/src/types/database.rs b/src/types/database.rs
index cf720c4..1f2756d 100644
--- a/src/types/database.rs
+++ b/src/types/database.rs
@@ -438,12 +438,12 @@ impl Database {
         let mut reader = LogReader::new(reader);
         let mut buffer = [0u8; 4];
 
-        reader.read(&mut buffer)?;
+        reader.read_exact(&mut buffer)?;
         if buffer != common::DB_SIGNATURE {
             return Err(Error::InvalidDbSignature(buffer));
         }
 
-        reader.read(&mut buffer)?;
+        reader.read_exact(&mut buffer)?;
         if buffer == common::KDB1_SIGNATURE {
             return Err(Error::UnhandledDbType(buffer));
         } else if buffer == common::KDB2_SIGNATURE {
-- 
2.43.0


From 9d58146d2135d4dc4e6c41aa2e7b3116bb5b55c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 02/31] fix: write every byte when the destination accepts
 short writes

Header fields, the encrypted payload and key files were written with a
single write() call whose count was ignored, so save reported success for
files with missing bytes.
---
 src/format/kdb2_writer.rs | 16 ++++++++--------
 src/format/kf_writer.rs   |  4 ++--
 src/io/log_writer.rs      |  4 +++-
 3 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/format/kdb2_writer.rs b/src/format/kdb2_writer.rs
index 2953fc2..56ddbc4 100644
--- a/src/format/kdb2_writer.rs
+++ b/src/format/kdb2_writer.rs
@@ -71,35 +71,35 @@ pub fn write<W: Log + Write>(writer: &mut W, db: &Database) -> Result<()> {
     kdb2_xml_writer::write(&mut xml, db, &hash, &stream_key)?;
 
     let mut payload = Vec::new();
-    payload.write(&stream_start_bytes.0)?;
+    payload.write_all(&stream_start_bytes.0)?;
 
     let compressed = compress(&db.compression, &xml)?;
     write_block(&mut payload, 0, &compressed)?;
     write_block_final(&mut payload, 1)?;
 
     let encrypted = aes256::encrypt(&master_key, &master_iv, &payload)?;
-    writer.write(&encrypted)?;
+    writer.write_all(&encrypted)?;
 
     Ok(())
 }
 
 fn write_block<W: Write>(writer: &mut W, id: u32, data: &[u8]) -> Result<()> {
     writer.write_u32::<LittleEndian>(id)?;
-    writer.write(&sha256::hash(&[data]))?;
+    writer.write_all(&sha256::hash(&[data]))?;
     writer.write_u32::<LittleEndian>(data.len() as u32)?;
-    writer.write(data)?;
+    writer.write_all(data)?;
     Ok(())
 }
 
 fn write_block_final<W: Write>(writer: &mut W, id: u32) -> Result<()> {
     writer.write_u32::<LittleEndian>(id)?;
-    writer.write(&kdb2::FINAL_BLOCK_HASH)?;
+    writer.write_all(&kdb2::FINAL_BLOCK_HASH)?;
     writer.write_u32::<LittleEndian>(0)?;
     Ok(())
 }
 
 fn write_bytes<W: Write>(writer: &mut W, bytes: &[u8]) -> Result<()> {
-    writer.write(bytes)?;
+    writer.write_all(bytes)?;
     Ok(())
 }
 
@@ -173,12 +173,12 @@ fn write_protected_stream_key<W: Write>(writer: &mut W, key: &ProtectedStreamKey
 }
 
 fn write_sig_1<W: Write>(writer: &mut W) -> Result<()> {
-    writer.write(&common::DB_SIGNATURE)?;
+    writer.write_all(&common::DB_SIGNATURE)?;
     Ok(())
 }
 
 fn write_sig_2<W: Write>(writer: &mut W) -> Result<()> {
-    writer.write(&common::KDB2_SIGNATURE)?;
+    writer.write_all(&common::KDB2_SIGNATURE)?;
     Ok(())
 }
 
diff --git a/src/format/kf_writer.rs b/src/format/kf_writer.rs
index 51ec05d..7386e42 100644
--- a/src/format/kf_writer.rs
+++ b/src/format/kf_writer.rs
@@ -23,13 +23,13 @@ pub fn write<W: Write>(writer: &mut W, key: &KeyFile) -> Result<()> {
 }
 
 fn write_binary<W: Write>(writer: &mut W, key: &KeyFile) -> Result<()> {
-    writer.write(key.key.unsecure())?;
+    writer.write_all(key.key.unsecure())?;
     Ok(())
 }
 
 fn write_hex<W: Write>(writer: &mut W, key: &KeyFile) -> Result<()> {
     let hex = hex::encode(key.key.unsecure());
-    writer.write(&hex.into_bytes())?;
+    writer.write_all(&hex.into_bytes())?;
     Ok(())
 }
 
diff --git a/src/io/log_writer.rs b/src/io/log_writer.rs
index d6c3440..3b15120 100644
--- a/src/io/log_writer.rs
+++ b/src/io/log_writer.rs
@@ -49,7 +49,9 @@ impl<W: Write> Write for LogWriter<W> {
     fn write(&mut self, buf: &[u8]) -> Result<usize> {
         let result = self.inner.write(buf);
         if self.is_logging {
-            self.log_data.extend_from_slice(buf);
+            if let Ok(count) = result {
+                self.log_data.extend_from_slice(&buf[..count]);
+            }
         }
         result
     }
-- 
2.43.0


From 9ba4338efbbae473316de901556617ba62550226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 03/31] fix: reject payloads shorter than the stream start
 bytes instead of panicking

---
 src/format/kdb2_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/format/kdb2_reader.rs b/src/format/kdb2_reader.rs
index a1f3125..f65cf1c 100644
--- a/src/format/kdb2_reader.rs
+++ b/src/format/kdb2_reader.rs
@@ -127,7 +127,7 @@ where
     let encrypted = read_enc_payload(reader)?;
     let payload = aes256::decrypt(&master_key, &master_iv, &encrypted)?;
 
-    if payload[0..32] != stream_start_bytes.0 {
+    if payload.len() < 32 || payload[0..32] != stream_start_bytes.0 {
         return Err(Error::InvalidKey);
     }
 
-- 
2.43.0


From 8704edfd23c23112732e7c45339a535e3041e7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 04/31] fix: reject impossible padding lengths when decrypting
 instead of panicking

PkcsPadding::strip_output accepts any last byte: a block of sixteen bytes
above 16 panicked in truncate, and a last byte of 0 was taken as no padding.
---
 src/crypto/aes256.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/crypto/aes256.rs b/src/crypto/aes256.rs
index 6e6c541..5a87160 100644
--- a/src/crypto/aes256.rs
+++ b/src/crypto/aes256.rs
@@ -7,15 +7,35 @@
 // except according to those terms.
 
 use crate::rust_crypto::aes::{self, KeySize};
-use crate::rust_crypto::blockmodes::PkcsPadding;
+use crate::rust_crypto::blockmodes::{PaddingProcessor, PkcsPadding};
 use crate::rust_crypto::buffer::{
     BufferResult, ReadBuffer, RefReadBuffer, RefWriteBuffer, WriteBuffer,
 };
 use crate::types::{MasterIV, MasterKey, Result};
 
+const BLOCK_SIZE: u8 = 16;
+
+/// PKCS padding that rejects padding lengths outside the block size when
+/// stripping, which `PkcsPadding` leaves unchecked.
+struct StrictPkcsPadding;
+
+impl PaddingProcessor for StrictPkcsPadding {
+    fn pad_input<W: WriteBuffer>(&mut self, input_buffer: &mut W) {
+        PkcsPadding.pad_input(input_buffer)
+    }
+
+    fn strip_output<R: ReadBuffer>(&mut self, output_buffer: &mut R) -> bool {
+        match output_buffer.peek_remaining().last() {
+            Some(&len) if len >= 1 && len <= BLOCK_SIZE => PkcsPadding.strip_output(output_buffer),
+            _ => false,
+        }
+    }
+}
+
 /// Decrypt the input using the key and initialization vector.
 pub fn decrypt(key: &MasterKey, iv: &MasterIV, input: &[u8]) -> Result<Vec<u8>> {
-    let mut cipher = aes::cbc_decryptor(KeySize::KeySize256, &key.unsecure(), &iv.0, PkcsPadding);
+    let mut cipher =
+        aes::cbc_decryptor(KeySize::KeySize256, &key.unsecure(), &iv.0, StrictPkcsPadding);
     let mut output = Vec::new();
     let mut read_buffer = RefReadBuffer::new(input);
     let mut buffer = [0; 4096];
-- 
2.43.0


From 3f4abd3782778caf6411d156923a0d912f2d52b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:22 +0000
Subject: [PATCH 05/31] fix: reject colours with non-hexadecimal characters
 instead of panicking

Slicing the string at fixed byte positions panicked when a multi-byte
character crossed them, and from_str_radix accepted a sign such as '+f'.
---
 src/types/color.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/types/color.rs b/src/types/color.rs
index 652ee3f..32b34e6 100644
--- a/src/types/color.rs
+++ b/src/types/color.rs
@@ -139,23 +139,31 @@ impl error::Error for ColorError {
 }
 
 fn from_hex_string_blue(hex_str: &str) -> Result<u8, ColorError> {
-    match u8::from_str_radix(&hex_str[5..7], 16) {
-        Ok(val) => Ok(val),
-        Err(_) => Err(ColorError::InvalidBlueValue),
+    match hex_str.get(5..7).map(from_hex_digits) {
+        Some(Some(val)) => Ok(val),
+        _ => Err(ColorError::InvalidBlueValue),
     }
 }
 
 fn from_hex_string_green(hex_str: &str) -> Result<u8, ColorError> {
-    match u8::from_str_radix(&hex_str[3..5], 16) {
-        Ok(val) => Ok(val),
-        Err(_) => Err(ColorError::InvalidGreenValue),
+    match hex_str.get(3..5).map(from_hex_digits) {
+        Some(Some(val)) => Ok(val),
+        _ => Err(ColorError::InvalidGreenValue),
     }
 }
 
 fn from_hex_string_red(hex_str: &str) -> Result<u8, ColorError> {
-    match u8::from_str_radix(&hex_str[1..3], 16) {
-        Ok(val) => Ok(val),
-        Err(_) => Err(ColorError::InvalidRedValue),
+    match hex_str.get(1..3).map(from_hex_digits) {
+        Some(Some(val)) => Ok(val),
+        _ => Err(ColorError::InvalidRedValue),
+    }
+}
+
+fn from_hex_digits(digits: &str) -> Option<u8> {
+    if digits.bytes().all(|b| b.is_ascii_hexdigit()) {
+        u8::from_str_radix(digits, 16).ok()
+    } else {
+        None
     }
 }
 
-- 
2.43.0


From 184ae67afd706686fd433d20db9768095bed7f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:24 +0000
Subject: [PATCH 06/31] fix: read empty elements as empty values

Empty custom data keys and values, auto-type windows and keystroke
sequences, custom icons and string and attachment names were reported as
missing, so databases the library saved itself failed to open or lost
their auto-type associations.
---
 src/format/kdb2_xml_reader.rs | 10 +++++-----
 src/format/xml.rs             |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/format/kdb2_xml_reader.rs b/src/format/kdb2_xml_reader.rs
index a57b0ee..b7dd34b 100644
--- a/src/format/kdb2_xml_reader.rs
+++ b/src/format/kdb2_xml_reader.rs
@@ -286,10 +286,10 @@ fn read_custom_data_item<R: Read>(reader: &mut EventReader<R>) -> Result<(String
         match event {
             XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
                 kdb2::KEY_TAG => {
-                    key = xml::read_string_opt(reader)?;
+                    key = Some(xml::read_string(reader)?);
                 }
                 kdb2::VALUE_TAG => {
-                    value = xml::read_string_opt(reader)?;
+                    value = Some(xml::read_string(reader)?);
                 }
                 _ => {}
             },
@@ -351,7 +351,7 @@ fn read_custom_icon<R: Read>(reader: &mut EventReader<R>) -> Result<(CustomIconU
         match event {
             XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
                 kdb2::DATA_TAG => {
-                    data = xml::read_binary_opt(reader)?;
+                    data = Some(xml::read_binary(reader)?);
                 }
                 kdb2::UUID_TAG => {
                     uuid = xml::read_custom_icon_uuid_opt(reader)?;
@@ -615,10 +615,10 @@ fn read_association<R: Read>(reader: &mut EventReader<R>) -> Result<Association>
         match event {
             XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
                 kdb2::KEYSTROKE_SEQUENCE_TAG => {
-                    keystroke = xml::read_string_opt(reader)?;
+                    keystroke = Some(xml::read_string(reader)?);
                 }
                 kdb2::WINDOW_TAG => {
-                    window = xml::read_string_opt(reader)?;
+                    window = Some(xml::read_string(reader)?);
                 }
                 _ => {}
             },
diff --git a/src/format/xml.rs b/src/format/xml.rs
index eef0494..42787f1 100644
--- a/src/format/xml.rs
+++ b/src/format/xml.rs
@@ -43,7 +43,7 @@ pub fn read_binary<R: Read>(reader: &mut EventReader<R>) -> Result<Vec<u8>> {
 pub fn read_binary_key_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Option<BinaryKey>> {
     match read_string_opt(reader)? {
         Some(string) => Ok(Some(BinaryKey(string))),
-        None => Ok(None),
+        None => Ok(Some(BinaryKey(String::new()))),
     }
 }
 
@@ -218,7 +218,7 @@ pub fn read_string<R: Read>(reader: &mut EventReader<R>) -> Result<String> {
 pub fn read_string_key_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Option<StringKey>> {
     match read_string_opt(reader)? {
         Some(string) => Ok(Some(StringKey::from_string(&string))),
-        None => Ok(None),
+        None => Ok(Some(StringKey::Other(String::new()))),
     }
 }
 
-- 
2.43.0


From 527f49681d7e7f5630e74edafe36082313bd1b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 07/31] fix: keep text that consists of whitespace or CDATA

The XML reader reports such text as separate events, which were taken for
missing values, so whitespace-only fields came back empty and CDATA
sections were dropped. Typed values that are only whitespace stay empty.
---
 src/format/kdb2_xml_reader.rs |  2 +-
 src/format/kf_reader.rs       |  2 +-
 src/format/xml.rs             | 28 +++++++++++++++++++++-------
 3 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/format/kdb2_xml_reader.rs b/src/format/kdb2_xml_reader.rs
index b7dd34b..dedb805 100644
--- a/src/format/kdb2_xml_reader.rs
+++ b/src/format/kdb2_xml_reader.rs
@@ -37,7 +37,7 @@ use std::io::Read;
 /// Attempts to read the XML data from the reader.
 pub fn read<R: Read>(reader: &mut R, stream_key: &StreamKey) -> Result<XmlData> {
     let mut data = XmlData::default();
-    let mut reader = EventReader::new(reader);
+    let mut reader = xml::new_reader(reader);
     let mut cipher = salsa20::new_cipher(stream_key);
     loop {
         let event = reader.next()?;
diff --git a/src/format/kf_reader.rs b/src/format/kf_reader.rs
index 0819578..9eb00c4 100644
--- a/src/format/kf_reader.rs
+++ b/src/format/kf_reader.rs
@@ -45,7 +45,7 @@ fn read_hex(data: Vec<u8>) -> Result<KeyFile> {
 
 fn read_xml<R: Read>(reader: &mut R) -> Result<KeyFile> {
     let mut opt_key: Option<SecStr> = None;
-    let mut reader = EventReader::new(reader);
+    let mut reader = xml::new_reader(reader);
     loop {
         let event = reader.next()?;
         match event {
diff --git a/src/format/xml.rs b/src/format/xml.rs
index 42787f1..ba555c3 100644
--- a/src/format/xml.rs
+++ b/src/format/xml.rs
@@ -27,10 +27,18 @@ use secstr::SecStr;
 use std::io::{Read, Write};
 use uuid::Uuid;
 use xml::attribute::OwnedAttribute;
-use xml::common::Position;
-use xml::reader::{self, EventReader};
+use xml::common::{is_whitespace_str, Position};
+use xml::reader::{self, EventReader, ParserConfig};
 use xml::writer::{self, EventWriter};
 
+/// Create a reader that reports all text, including whitespace and CDATA, as characters.
+pub fn new_reader<R: Read>(source: R) -> EventReader<R> {
+    let config = ParserConfig::new()
+        .whitespace_to_characters(true)
+        .cdata_to_characters(true);
+    EventReader::new_with_config(source, config)
+}
+
 /// Attempts to read binary data.
 pub fn read_binary<R: Read>(reader: &mut EventReader<R>) -> Result<Vec<u8>> {
     match read_binary_opt(reader)? {
@@ -49,7 +57,7 @@ pub fn read_binary_key_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Optio
 
 /// Attempts to read optional binary data.
 pub fn read_binary_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Option<Vec<u8>>> {
-    match read_string_opt(reader)? {
+    match read_value_opt(reader)? {
         Some(string) => match general_purpose::STANDARD.decode(&string) {
             Ok(bin) => Ok(Some(bin)),
             Err(err) => read_err(reader, format!("Base64 {}", err)),
@@ -99,7 +107,7 @@ pub fn read_bool<R: Read>(reader: &mut EventReader<R>) -> Result<bool> {
 
 /// Attempts to read an optional boolean.
 pub fn read_bool_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Option<bool>> {
-    match read_string_opt(reader)? {
+    match read_value_opt(reader)? {
         Some(string) => match string.to_lowercase().as_str() {
             "false" => Ok(Some(false)),
             "null" => Ok(None),
@@ -112,7 +120,7 @@ pub fn read_bool_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Option<bool
 
 /// Attempts to read an optional color.
 pub fn read_color_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Option<Color>> {
-    match read_string_opt(reader)? {
+    match read_value_opt(reader)? {
         Some(string) => match Color::from_hex_string(&string) {
             Ok(color) => Ok(Some(color)),
             Err(err) => read_err(reader, format!("Color {}", err)),
@@ -133,7 +141,7 @@ pub fn read_custom_icon_uuid_opt<R: Read>(
 
 /// Attempts to read a date and time.
 pub fn read_datetime<R: Read>(reader: &mut EventReader<R>) -> Result<DateTime<Utc>> {
-    match read_string_opt(reader)? {
+    match read_value_opt(reader)? {
         Some(string) => match string.parse::<DateTime<Utc>>() {
             Ok(datetime) => Ok(datetime),
             Err(err) => read_err(reader, format!("DateTime {}", err)),
@@ -175,7 +183,7 @@ pub fn read_i32<R: Read>(reader: &mut EventReader<R>) -> Result<i32> {
 
 /// Attempts to read an optional i32.
 pub fn read_i32_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Option<i32>> {
-    match read_string_opt(reader)? {
+    match read_value_opt(reader)? {
         Some(string) => match string.parse::<i32>() {
             Ok(num) => Ok(Some(num)),
             Err(err) => read_err(reader, format!("Number {}", err)),
@@ -267,6 +275,12 @@ pub fn read_string_value_opt<R: Read>(
     }
 }
 
+/// Like `read_string_opt()`, but whitespace only is no value.
+fn read_value_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Option<String>> {
+    let opt = read_string_opt(reader)?;
+    Ok(opt.filter(|string| !is_whitespace_str(string)))
+}
+
 /// Attempts to read a UUID.
 pub fn read_uuid<R: Read>(reader: &mut EventReader<R>) -> Result<Uuid> {
     match read_uuid_opt(reader)? {
-- 
2.43.0


From b5c875d87bcfd0d8a71c3887a77ca1b814f77f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:56 +0000
Subject: [PATCH 08/31] fix: save the custom icon of groups

---
 src/format/kdb2_xml_writer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/format/kdb2_xml_writer.rs b/src/format/kdb2_xml_writer.rs
index 7666e5f..d4b61b4 100644
--- a/src/format/kdb2_xml_writer.rs
+++ b/src/format/kdb2_xml_writer.rs
@@ -216,6 +216,7 @@ fn write_group_section<W: Write>(
         kdb2::DEFAULT_AUTO_TYPE_SEQUENCE_TAG,
         &group.def_auto_type_sequence,
     )?;
+    xml::write_custom_icon_uuid_tag(writer, kdb2::CUSTOM_ICON_UUID_TAG, &group.custom_icon_uuid)?;
     xml::write_bool_opt_tag(writer, kdb2::ENABLE_AUTO_TYPE_TAG, &group.enable_auto_type)?;
     xml::write_bool_opt_tag(writer, kdb2::ENABLE_SEARCHING_TAG, &group.enable_searching)?;
     xml::write_i32_tag(writer, kdb2::ICON_ID_TAG, group.icon.to_i32())?;
-- 
2.43.0


From 901bcb863040c98dc4c1b9b517a029ead7c3870a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 09/31] fix: refuse to save text that XML cannot carry

Control characters and other characters outside XML were written as they
are, so save reported success for files that could not be opened again.
---
 src/format/kdb2_xml_writer.rs |  2 ++
 src/format/xml.rs             | 11 +++++++++++
 2 files changed, 13 insertions(+)

diff --git a/src/format/kdb2_xml_writer.rs b/src/format/kdb2_xml_writer.rs
index d4b61b4..6a1ae33 100644
--- a/src/format/kdb2_xml_writer.rs
+++ b/src/format/kdb2_xml_writer.rs
@@ -104,6 +104,7 @@ fn write_binary_section<W: Write>(
             xml::write_end_tag(writer)?;
         }
         BinaryValue::Ref(ref binary_id) => {
+            xml::check_chars(&binary_id.0)?;
             let tag = XmlEvent::start_element(kdb2::VALUE_TAG);
             let tag = tag.attr("Ref", binary_id.0.as_str());
             writer.write(tag)?;
@@ -119,6 +120,7 @@ fn write_binaries_section<W: Write>(
 ) -> Result<()> {
     xml::write_start_tag(writer, kdb2::BINARIES_TAG)?;
     for (id, data) in binaries {
+        xml::check_chars(&id.0)?;
         let tag = XmlEvent::start_element(kdb2::BINARY_TAG);
         let tag = tag.attr("ID", id.0.as_str());
         let tag = tag.attr("Compressed", "True");
diff --git a/src/format/xml.rs b/src/format/xml.rs
index ba555c3..633c678 100644
--- a/src/format/xml.rs
+++ b/src/format/xml.rs
@@ -300,6 +300,16 @@ pub fn read_uuid_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Option<Uuid
     }
 }
 
+/// Fails if the value contains characters that XML cannot carry.
+pub fn check_chars(value: &str) -> Result<()> {
+    let valid = |c| matches!(c, '\t' | '\n' | '\r' | '\u{20}'..='\u{D7FF}' | '\u{E000}'..='\u{FFFD}' | '\u{10000}'..);
+    if value.chars().all(valid) {
+        Ok(())
+    } else {
+        Err(Error::XmlError(String::from("Text contains characters not allowed in XML")))
+    }
+}
+
 /// Searches the specified attribute in the attributes and returns the value if found.
 pub fn search_attr_value(attrs: &Vec<OwnedAttribute>, name: &str) -> Option<String> {
     for attr in attrs {
@@ -407,6 +417,7 @@ pub fn write_start_tag<W: Write>(writer: &mut EventWriter<W>, tag: &str) -> Resu
 
 /// Attempts to write string data.
 pub fn write_string<W: Write>(writer: &mut EventWriter<W>, value: &String) -> Result<()> {
+    check_chars(value)?;
     writer.write(value.as_str())?;
     Ok(())
 }
-- 
2.43.0


From 1f867d4aa08759238253e05e65ce57a259bfe520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 10/31] fix: refuse to save protected strings that are not
 UTF-8

Opening requires protected strings to be UTF-8, so save reported success
for a file that could not be opened again.
---
 src/format/kdb2_xml_writer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/format/kdb2_xml_writer.rs b/src/format/kdb2_xml_writer.rs
index 6a1ae33..76a3aad 100644
--- a/src/format/kdb2_xml_writer.rs
+++ b/src/format/kdb2_xml_writer.rs
@@ -21,6 +21,7 @@ use crate::types::CustomIconsMap;
 use crate::types::Database;
 use crate::types::Entry;
 use crate::types::EntryState;
+use crate::types::Error;
 use crate::types::Group;
 use crate::types::HeaderHash;
 use crate::types::Result;
@@ -30,6 +31,7 @@ use crate::types::StringValue;
 use crate::types::Times;
 use rust_xml::writer::{EmitterConfig, EventWriter, XmlEvent};
 use std::io::Write;
+use std::str;
 
 /// Attempts to write the database's XML data to the writer.
 pub fn write<W: Write>(
@@ -344,6 +346,9 @@ fn write_string_section<W: Write>(
             xml::write_string_tag(writer, kdb2::VALUE_TAG, string)?;
         }
         StringValue::Protected(ref sec) => {
+            if str::from_utf8(sec.unsecure()).is_err() {
+                return Err(Error::XmlError(String::from("Protected string is not valid UTF-8")));
+            }
             let tag = XmlEvent::start_element(kdb2::VALUE_TAG);
             let tag = tag.attr("Protected", "True");
             writer.write(tag)?;
-- 
2.43.0


From be7ec86724e9635dbbf471c48e286439e53e2670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:23 +0000
Subject: [PATCH 11/31] fix: refuse to save comments longer than the header can
 hold

The length was truncated to sixteen bits, so save reported success for a
file that could not be opened again.
---
 src/format/kdb2_writer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/format/kdb2_writer.rs b/src/format/kdb2_writer.rs
index 56ddbc4..01cbd9d 100644
--- a/src/format/kdb2_writer.rs
+++ b/src/format/kdb2_writer.rs
@@ -18,6 +18,7 @@ use crate::io::Log;
 use crate::types::Comment;
 use crate::types::Compression;
 use crate::types::Database;
+use crate::types::Error;
 use crate::types::HeaderHash;
 use crate::types::MasterCipher;
 use crate::types::MasterIV;
@@ -33,7 +34,7 @@ use crate::types::TransformSeed;
 use crate::types::TransformedKey;
 use crate::types::Version;
 use byteorder::{LittleEndian, WriteBytesExt};
-use std::io::Write;
+use std::io::{ErrorKind, Write};
 
 /// Attempts to write the database content to the writer.
 pub fn write<W: Log + Write>(writer: &mut W, db: &Database) -> Result<()> {
@@ -106,6 +107,9 @@ fn write_bytes<W: Write>(writer: &mut W, bytes: &[u8]) -> Result<()> {
 fn write_comment<W: Write>(writer: &mut W, opt: &Option<Comment>) -> Result<()> {
     match *opt {
         Some(ref comment) => {
+            if comment.0.len() > usize::from(u16::MAX) {
+                return Err(Error::Io(ErrorKind::InvalidInput.into()));
+            }
             write_header_id(writer, kdb2::COMMENT_HID)?;
             write_header_size(writer, comment.0.len() as u16)?;
             write_bytes(writer, &comment.0)?;
-- 
2.43.0


From 71d05695e10431dd8a7c59f7c988682831772ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 12/31] fix: decompress the joined blocks instead of each block
 on its own

---
 src/format/kdb2_reader.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/format/kdb2_reader.rs b/src/format/kdb2_reader.rs
index f65cf1c..6bdaef6 100644
--- a/src/format/kdb2_reader.rs
+++ b/src/format/kdb2_reader.rs
@@ -312,13 +312,13 @@ fn read_version<R: Read>(reader: &mut R) -> Result<Version> {
 
 fn read_xml_bytes(compression: &Compression, payload: &[u8]) -> Result<Vec<u8>> {
     let mut reader = Cursor::new(payload);
-    let mut xml = Vec::new();
+    let mut data = Vec::new();
 
     for block_id in 0..u32::max_value() {
         let id = reader.read_u32::<LittleEndian>()?;
         let hash = read_bytes_32(&mut reader)?;
         let size = reader.read_u32::<LittleEndian>()? as usize;
-        let raw_data = read_bytes_size(&mut reader, &size)?;
+        let mut raw_data = read_bytes_size(&mut reader, &size)?;
 
         if id != block_id {
             return Err(Error::InvalidBlockId(id));
@@ -337,11 +337,10 @@ fn read_xml_bytes(compression: &Compression, payload: &[u8]) -> Result<Vec<u8>>
             return Err(Error::InvalidBlockHash);
         }
 
-        let mut block_data = decompress(compression, &raw_data)?;
-        xml.append(&mut block_data);
+        data.append(&mut raw_data);
     }
 
-    Ok(xml)
+    decompress(compression, &data)
 }
 
 fn read_bytes_16<R: Read>(reader: &mut R) -> Result<[u8; 16]> {
-- 
2.43.0


From ef45fc6bd5b52037919be984deb12003cf2f8f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:59 +0000
Subject: [PATCH 13/31] fix: decipher protected binaries of the binary pool

---
 src/format/kdb2_xml_reader.rs | 20 +++++++++++++++-----
 src/format/xml.rs             |  3 ++-
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/format/kdb2_xml_reader.rs b/src/format/kdb2_xml_reader.rs
index dedb805..82c58be 100644
--- a/src/format/kdb2_xml_reader.rs
+++ b/src/format/kdb2_xml_reader.rs
@@ -70,7 +70,7 @@ fn read_kee_pass_file<R: Read>(
         match event {
             XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
                 kdb2::META_TAG => {
-                    read_meta(reader, data)?;
+                    read_meta(reader, data, cipher)?;
                 }
                 kdb2::ROOT_TAG => {
                     read_root(reader, data, cipher)?;
@@ -91,13 +91,17 @@ fn read_kee_pass_file<R: Read>(
     Ok(())
 }
 
-fn read_meta<R: Read>(reader: &mut EventReader<R>, data: &mut XmlData) -> Result<()> {
+fn read_meta<R: Read>(
+    reader: &mut EventReader<R>,
+    data: &mut XmlData,
+    cipher: &mut Salsa20,
+) -> Result<()> {
     loop {
         let event = reader.next()?;
         match event {
             XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
                 kdb2::BINARIES_TAG => {
-                    data.binaries = read_binaries(reader)?;
+                    data.binaries = read_binaries(reader, cipher)?;
                 }
                 kdb2::COLOR_TAG => {
                     data.color = xml::read_color_opt(reader)?;
@@ -218,7 +222,10 @@ fn read_root<R: Read>(
     Ok(())
 }
 
-fn read_binaries<R: Read>(reader: &mut EventReader<R>) -> Result<BinariesMap> {
+fn read_binaries<R: Read>(
+    reader: &mut EventReader<R>,
+    cipher: &mut Salsa20,
+) -> Result<BinariesMap> {
     let mut map = BinariesMap::new();
     loop {
         let event = reader.next()?;
@@ -229,7 +236,10 @@ fn read_binaries<R: Read>(reader: &mut EventReader<R>) -> Result<BinariesMap> {
                 kdb2::BINARY_TAG => {
                     let id = BinaryId(get_id_attr_value(reader, &attributes)?);
                     let compressed = get_compressed_attr_value(reader, &attributes)?;
-                    let bytes = if compressed {
+                    let protected = xml::get_protected_attr_value(reader, &attributes)?;
+                    let bytes = if protected {
+                        salsa20::decrypt(cipher, &xml::read_binary(reader)?)
+                    } else if compressed {
                         xml::read_gzip(reader)?
                     } else {
                         xml::read_binary(reader)?
diff --git a/src/format/xml.rs b/src/format/xml.rs
index 633c678..9c53d91 100644
--- a/src/format/xml.rs
+++ b/src/format/xml.rs
@@ -452,7 +452,8 @@ fn get_protect_in_memory_attr_value<R: Read>(
     }
 }
 
-fn get_protected_attr_value<R: Read>(
+/// Gets the value of the protected attribute; false if there is none.
+pub fn get_protected_attr_value<R: Read>(
     reader: &mut EventReader<R>,
     attrs: &Vec<OwnedAttribute>,
 ) -> Result<bool> {
-- 
2.43.0


From 7dc0783bd9fe7eed52cde6ade058dd7ed389a416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:19 +0000
Subject: [PATCH 14/31] fix: match sigmas in any position when searching

---
 src/types/database.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/types/database.rs b/src/types/database.rs
index 1f2756d..cee1708 100644
--- a/src/types/database.rs
+++ b/src/types/database.rs
@@ -229,7 +229,7 @@ impl Database {
     /// ```
     pub fn find_entries<'a, S: Into<String>>(&'a self, text: S) -> Vec<&'a Entry> {
         let mut list = Vec::new();
-        let text = &text.into().to_lowercase();
+        let text = &fold_case(&text.into());
         for group in self.root_group.iter() {
             for entry in group.entries.iter() {
                 if entry_contains_string(entry, text) {
@@ -264,7 +264,7 @@ impl Database {
     /// ```
     pub fn find_entries_mut<'a, S: Into<String>>(&'a mut self, text: S) -> Vec<&'a mut Entry> {
         let mut list = Vec::new();
-        let text = &text.into().to_lowercase();
+        let text = &fold_case(&text.into());
         for group in self.root_group.iter_mut() {
             for entry in group.entries.iter_mut() {
                 if entry_contains_string(entry, text) {
@@ -294,10 +294,10 @@ impl Database {
     /// assert_eq!(result.len(), 0);
     /// ```
     pub fn find_groups<'a, S: Into<String>>(&'a self, name: S) -> Vec<&'a Group> {
-        let name = &name.into().to_lowercase();
+        let name = &fold_case(&name.into());
         self.root_group
             .iter()
-            .filter(|g| g.name.to_lowercase().contains(name))
+            .filter(|g| fold_case(&g.name).contains(name))
             .collect::<Vec<&'a Group>>()
     }
 
@@ -317,10 +317,10 @@ impl Database {
     /// assert_eq!(result.len(), 1);
     /// ```
     pub fn find_groups_mut<'a, S: Into<String>>(&'a mut self, name: S) -> Vec<&'a mut Group> {
-        let name = &name.into().to_lowercase();
+        let name = &fold_case(&name.into());
         self.root_group
             .iter_mut()
-            .filter(|g| g.name.to_lowercase().contains(name))
+            .filter(|g| fold_case(&g.name).contains(name))
             .collect::<Vec<&'a mut Group>>()
     }
 
@@ -545,7 +545,7 @@ fn entry_contains_string(entry: &Entry, name: &String) -> bool {
     for value in entry.strings.values() {
         match *value {
             StringValue::Plain(ref string) => {
-                if string.to_lowercase().contains(name) {
+                if fold_case(string).contains(name) {
                     return true;
                 }
             }
@@ -555,6 +555,11 @@ fn entry_contains_string(entry: &Entry, name: &String) -> bool {
     false
 }
 
+/// Lowercases without making a difference between final and other sigmas.
+fn fold_case(string: &str) -> String {
+    string.to_lowercase().replace('ς', "σ")
+}
+
 #[cfg(test)]
 mod tests {
 
-- 
2.43.0


From 7cf4cf0088a4e690eb6e557987d94741d4a138db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:21 +0000
Subject: [PATCH 15/31] fix: keep no second mutable reference in the group
 iterator

---
 src/types/group.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/types/group.rs b/src/types/group.rs
index f16f30a..9b2bc1d 100644
--- a/src/types/group.rs
+++ b/src/types/group.rs
@@ -14,7 +14,8 @@ use super::icon::Icon;
 use super::times::Times;
 use chrono::{DateTime, Utc};
 use std::collections::vec_deque::VecDeque;
-use std::ptr;
+use std::marker::PhantomData;
+use std::ptr::NonNull;
 
 /// A group in the database.
 #[derive(Clone, Debug, PartialEq)]
@@ -340,17 +341,25 @@ impl<'a> Iterator for Iter<'a> {
 
 /// Mutable group iterator.
 pub struct IterMut<'a> {
-    curr: Option<&'a mut Group>,
-    todo: VecDeque<&'a mut Group>,
+    // Pointers instead of references, because the groups to visit are only looked up after the
+    // reference to their parent has been handed out.
+    curr: Option<NonNull<Group>>,
+    todo: VecDeque<NonNull<Group>>,
+    marker: PhantomData<&'a mut Group>,
 }
 
+unsafe impl<'a> Send for IterMut<'a> {}
+
+unsafe impl<'a> Sync for IterMut<'a> {}
+
 impl<'a> IterMut<'a> {
     fn new(group: &'a mut Group) -> IterMut<'a> {
         let mut queue = VecDeque::new();
-        queue.push_back(group);
+        queue.push_back(NonNull::from(group));
         IterMut {
             curr: None,
             todo: queue,
+            marker: PhantomData,
         }
     }
 }
@@ -361,15 +370,14 @@ impl<'a> Iterator for IterMut<'a> {
     fn next(&mut self) -> Option<&'a mut Group> {
         match self.curr.take() {
             Some(group) => {
-                for sub in group.groups.iter_mut() {
-                    self.todo.push_back(sub);
+                for sub in unsafe { (*group.as_ptr()).groups.iter_mut() } {
+                    self.todo.push_back(NonNull::from(sub));
                 }
             }
             None => {}
         }
-        let curr = self.todo.pop_front();
-        self.curr = unsafe { ptr::read(&curr) };
-        curr
+        self.curr = self.todo.pop_front();
+        self.curr.map(|group| unsafe { &mut *group.as_ptr() })
     }
 }
 
-- 
2.43.0


From 7972540353ec5876d399bfbf5495472fec86863f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:42 +0000
Subject: [PATCH 16/31] fix: escape carriage returns when saving text

---
 src/format/xml.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/format/xml.rs b/src/format/xml.rs
index 9c53d91..42e4203 100644
--- a/src/format/xml.rs
+++ b/src/format/xml.rs
@@ -418,7 +418,13 @@ pub fn write_start_tag<W: Write>(writer: &mut EventWriter<W>, tag: &str) -> Resu
 /// Attempts to write string data.
 pub fn write_string<W: Write>(writer: &mut EventWriter<W>, value: &String) -> Result<()> {
     check_chars(value)?;
-    writer.write(value.as_str())?;
+    // XML readers turn literal carriage returns into newlines, so they have to be escaped.
+    for (index, part) in value.split('\r').enumerate() {
+        if index > 0 {
+            writer.inner_mut().write_all(b"&#xD;")?;
+        }
+        writer.write(part)?;
+    }
     Ok(())
 }
 
-- 
2.43.0


From 6d316dc977798d7837f4e837b1199f24eded9b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:31 +0000
Subject: [PATCH 17/31] fix: skip unknown elements with everything in them

---
 src/format/kdb2_xml_reader.rs | 99 ++++++++++++++++++++++++++---------
 1 file changed, 74 insertions(+), 25 deletions(-)

diff --git a/src/format/kdb2_xml_reader.rs b/src/format/kdb2_xml_reader.rs
index 82c58be..9ffc3e5 100644
--- a/src/format/kdb2_xml_reader.rs
+++ b/src/format/kdb2_xml_reader.rs
@@ -30,6 +30,7 @@ use crate::types::StringKey;
 use crate::types::StringValue;
 use crate::types::Times;
 use crate::types::XmlData;
+use base64::{engine::general_purpose, Engine as _};
 use rust_xml::attribute::OwnedAttribute;
 use rust_xml::reader::{EventReader, XmlEvent};
 use std::io::Read;
@@ -68,14 +69,16 @@ fn read_kee_pass_file<R: Read>(
     loop {
         let event = reader.next()?;
         match event {
-            XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => match name.local_name.as_str() {
                 kdb2::META_TAG => {
                     read_meta(reader, data, cipher)?;
                 }
                 kdb2::ROOT_TAG => {
                     read_root(reader, data, cipher)?;
                 }
-                _ => {}
+                _ => skip_element(reader, cipher, &attributes)?,
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -99,7 +102,9 @@ fn read_meta<R: Read>(
     loop {
         let event = reader.next()?;
         match event {
-            XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => match name.local_name.as_str() {
                 kdb2::BINARIES_TAG => {
                     data.binaries = read_binaries(reader, cipher)?;
                 }
@@ -178,7 +183,7 @@ fn read_meta<R: Read>(
                 kdb2::RECYCLE_BIN_UUID_TAG => {
                     data.recycle_bin_uuid = GroupUuid(xml::read_uuid(reader)?);
                 }
-                _ => {}
+                _ => skip_element(reader, cipher, &attributes)?,
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -202,11 +207,13 @@ fn read_root<R: Read>(
     loop {
         let event = reader.next()?;
         match event {
-            XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => match name.local_name.as_str() {
                 kdb2::GROUP_TAG => {
                     data.root_group = Some(read_group(reader, cipher, GroupUuid::nil())?);
                 }
-                _ => {}
+                _ => skip_element(reader, cipher, &attributes)?,
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -246,7 +253,7 @@ fn read_binaries<R: Read>(
                     };
                     map.insert(id, bytes);
                 }
-                _ => {}
+                _ => skip_element(reader, cipher, &attributes)?,
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -272,7 +279,7 @@ fn read_custom_data<R: Read>(reader: &mut EventReader<R>) -> Result<CustomDataMa
                     let (key, value) = read_custom_data_item(reader)?;
                     map.insert(key, value);
                 }
-                _ => {}
+                _ => reader.skip()?,
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -301,7 +308,7 @@ fn read_custom_data_item<R: Read>(reader: &mut EventReader<R>) -> Result<(String
                 kdb2::VALUE_TAG => {
                     value = Some(xml::read_string(reader)?);
                 }
-                _ => {}
+                _ => reader.skip()?,
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -337,7 +344,7 @@ fn read_custom_icons<R: Read>(reader: &mut EventReader<R>) -> Result<CustomIcons
                     let (uuid, data) = read_custom_icon(reader)?;
                     map.insert(uuid, data);
                 }
-                _ => {}
+                _ => reader.skip()?,
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -366,7 +373,7 @@ fn read_custom_icon<R: Read>(reader: &mut EventReader<R>) -> Result<(CustomIconU
                 kdb2::UUID_TAG => {
                     uuid = xml::read_custom_icon_uuid_opt(reader)?;
                 }
-                _ => {}
+                _ => reader.skip()?,
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -412,7 +419,7 @@ fn read_memory_protection<R: Read>(reader: &mut EventReader<R>, data: &mut XmlDa
                 kdb2::PROTECT_USERNAME_TAG => {
                     data.protect_username = xml::read_bool(reader)?;
                 }
-                _ => {}
+                _ => reader.skip()?,
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -438,7 +445,9 @@ fn read_group<R: Read>(
     loop {
         let event = reader.next()?;
         match event {
-            XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => match name.local_name.as_str() {
                 kdb2::CUSTOM_ICON_UUID_TAG => {
                     node.custom_icon_uuid = xml::read_custom_icon_uuid_opt(reader)?;
                 }
@@ -484,7 +493,7 @@ fn read_group<R: Read>(
                 kdb2::UUID_TAG => {
                     node.uuid = GroupUuid(xml::read_uuid(reader)?);
                 }
-                _ => {}
+                _ => skip_element(reader, cipher, &attributes)?,
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -519,7 +528,9 @@ fn read_entry<R: Read>(
     loop {
         let event = reader.next()?;
         match event {
-            XmlEvent::StartElement { name, .. } => {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => {
                 node.parent = parent;
                 match name.local_name.as_str() {
                     kdb2::AUTO_TYPE_TAG => {
@@ -539,9 +550,9 @@ fn read_entry<R: Read>(
                         node.foreground_color = xml::read_color_opt(reader)?;
                     }
                     kdb2::HISTORY_TAG => {
+                        let mut history = read_history(reader, cipher, parent.clone())?;
                         if state == EntryState::Active {
-                            node.history
-                                .append(&mut read_history(reader, cipher, parent.clone())?);
+                            node.history.append(&mut history);
                         }
                     }
                     kdb2::ICON_ID_TAG => {
@@ -563,7 +574,7 @@ fn read_entry<R: Read>(
                     kdb2::UUID_TAG => {
                         node.uuid = EntryUuid(xml::read_uuid(reader)?);
                     }
-                    _ => {}
+                    _ => skip_element(reader, cipher, &attributes)?,
                 }
             }
 
@@ -601,7 +612,7 @@ fn read_auto_type<R: Read>(reader: &mut EventReader<R>, node: &mut Entry) -> Res
                     kdb2::ENABLED_TAG => {
                         node.auto_type_enabled = xml::read_bool(reader)?;
                     }
-                    _ => {}
+                    _ => reader.skip()?,
                 }
             }
 
@@ -630,7 +641,7 @@ fn read_association<R: Read>(reader: &mut EventReader<R>) -> Result<Association>
                 kdb2::WINDOW_TAG => {
                     window = Some(xml::read_string(reader)?);
                 }
-                _ => {}
+                _ => reader.skip()?,
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -677,7 +688,7 @@ fn read_binary<R: Read>(
                 kdb2::VALUE_TAG => {
                     value = xml::read_binary_value_opt(reader, cipher, &attributes)?;
                 }
-                _ => {}
+                _ => skip_element(reader, cipher, &attributes)?,
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -712,11 +723,13 @@ fn read_history<R: Read>(
     loop {
         let event = reader.next()?;
         match event {
-            XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => match name.local_name.as_str() {
                 kdb2::ENTRY_TAG => {
                     list.push(read_entry(reader, cipher, EntryState::History, parent)?);
                 }
-                _ => {}
+                _ => skip_element(reader, cipher, &attributes)?,
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -750,7 +763,7 @@ fn read_string<R: Read>(
                 kdb2::VALUE_TAG => {
                     value = xml::read_string_value_opt(reader, cipher, &attributes)?;
                 }
-                _ => {}
+                _ => skip_element(reader, cipher, &attributes)?,
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -806,7 +819,7 @@ where
                 kdb2::USAGE_COUNT_TAG => {
                     node.set_usage_count(xml::read_i32(reader)?);
                 }
-                _ => {}
+                _ => reader.skip()?,
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -822,6 +835,42 @@ where
     Ok(())
 }
 
+/// Skips an unknown element, but keeps the cipher in step with the protected values in it.
+fn skip_element<R: Read>(
+    reader: &mut EventReader<R>,
+    cipher: &mut Salsa20,
+    attrs: &Vec<OwnedAttribute>,
+) -> Result<()> {
+    let mut depth = 1;
+    let mut protected = xml::get_protected_attr_value(reader, attrs)?;
+    while depth > 0 {
+        let event = reader.next()?;
+        match event {
+            XmlEvent::StartElement { attributes, .. } => {
+                depth += 1;
+                protected = xml::get_protected_attr_value(reader, &attributes)?;
+            }
+
+            XmlEvent::EndElement { .. } => {
+                depth -= 1;
+                protected = false;
+            }
+
+            XmlEvent::Characters(text) => {
+                if protected {
+                    match general_purpose::STANDARD.decode(text.trim()) {
+                        Ok(bytes) => salsa20::decrypt(cipher, &bytes),
+                        Err(err) => return xml::read_err(reader, format!("Base64 {}", err)),
+                    };
+                }
+            }
+
+            _ => {}
+        }
+    }
+    Ok(())
+}
+
 fn get_compressed_attr_value<R: Read>(
     reader: &mut EventReader<R>,
     attrs: &Vec<OwnedAttribute>,
-- 
2.43.0


From 5c42350693f76763ba5abcc8b7c68e2b34fe4b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:42 +0000
Subject: [PATCH 18/31] fix: reject XML key files without key data

---
 src/format/kf_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/format/kf_reader.rs b/src/format/kf_reader.rs
index 9eb00c4..a96dd39 100644
--- a/src/format/kf_reader.rs
+++ b/src/format/kf_reader.rs
@@ -128,7 +128,7 @@ fn read_xml_key<R: Read>(reader: &mut EventReader<R>) -> Result<SecStr> {
         match event {
             XmlEvent::StartElement { name, .. } => {
                 if name.local_name == kf::DATA_TAG {
-                    opt_key = Some(SecStr::new(xml::read_binary(reader)?));
+                    opt_key = xml::read_binary_opt(reader)?.map(SecStr::new);
                 }
             }
             XmlEvent::EndElement { name, .. } => {
-- 
2.43.0


From 34b76bbb5b7d177c3e6dcebd0a07442811b5f544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:11 +0000
Subject: [PATCH 19/31] fix: skip unknown elements of key files as a whole

---
 src/format/kf_reader.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/format/kf_reader.rs b/src/format/kf_reader.rs
index a96dd39..d5e1f6b 100644
--- a/src/format/kf_reader.rs
+++ b/src/format/kf_reader.rs
@@ -52,6 +52,8 @@ fn read_xml<R: Read>(reader: &mut R) -> Result<KeyFile> {
             XmlEvent::StartElement { name, .. } => {
                 if name.local_name == kf::KEY_FILE_TAG {
                     opt_key = Some(read_xml_key_file(&mut reader)?);
+                } else {
+                    skip_element(&mut reader)?;
                 }
             }
             XmlEvent::EndDocument { .. } => {
@@ -80,6 +82,8 @@ fn read_xml_key_file<R: Read>(reader: &mut EventReader<R>) -> Result<SecStr> {
                     opt_key = Some(read_xml_key(reader)?);
                 } else if name.local_name == kf::META_TAG {
                     read_xml_meta(reader)?;
+                } else {
+                    skip_element(reader)?;
                 }
             }
             XmlEvent::EndElement { name, .. } => {
@@ -107,6 +111,8 @@ fn read_xml_meta<R: Read>(reader: &mut EventReader<R>) -> Result<()> {
                     if version != kf::XML_KEY_FILE_VERSION {
                         return xml::read_err(reader, "Unsupported key file version");
                     }
+                } else {
+                    skip_element(reader)?;
                 }
             }
             XmlEvent::EndElement { name, .. } => {
@@ -129,6 +135,8 @@ fn read_xml_key<R: Read>(reader: &mut EventReader<R>) -> Result<SecStr> {
             XmlEvent::StartElement { name, .. } => {
                 if name.local_name == kf::DATA_TAG {
                     opt_key = xml::read_binary_opt(reader)?.map(SecStr::new);
+                } else {
+                    skip_element(reader)?;
                 }
             }
             XmlEvent::EndElement { name, .. } => {
@@ -145,3 +153,18 @@ fn read_xml_key<R: Read>(reader: &mut EventReader<R>) -> Result<SecStr> {
         None => xml::read_err(reader, "No Data tag found"),
     }
 }
+
+/// Skips an unknown element and everything in it.
+fn skip_element<R: Read>(reader: &mut EventReader<R>) -> Result<()> {
+    let mut depth = 1;
+    while depth > 0 {
+        let event = reader.next()?;
+        match event {
+            XmlEvent::StartElement { .. } => depth += 1,
+            XmlEvent::EndElement { .. } => depth -= 1,
+            _ => {}
+        }
+    }
+
+    Ok(())
+}
-- 
2.43.0


From 2b02e1100a20a97b111ea59bb986fcabd382d27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:23 +0000
Subject: [PATCH 20/31] fix: limit the nesting of skipped XML elements

---
 src/format/kdb2_xml_reader.rs |  1 +
 src/format/kf_reader.rs       |  5 ++++-
 src/format/xml.rs             | 11 +++++++++++
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/format/kdb2_xml_reader.rs b/src/format/kdb2_xml_reader.rs
index 9ffc3e5..be43710 100644
--- a/src/format/kdb2_xml_reader.rs
+++ b/src/format/kdb2_xml_reader.rs
@@ -848,6 +848,7 @@ fn skip_element<R: Read>(
         match event {
             XmlEvent::StartElement { attributes, .. } => {
                 depth += 1;
+                xml::check_skip_depth(reader, depth)?;
                 protected = xml::get_protected_attr_value(reader, &attributes)?;
             }
 
diff --git a/src/format/kf_reader.rs b/src/format/kf_reader.rs
index d5e1f6b..9413e2f 100644
--- a/src/format/kf_reader.rs
+++ b/src/format/kf_reader.rs
@@ -160,7 +160,10 @@ fn skip_element<R: Read>(reader: &mut EventReader<R>) -> Result<()> {
     while depth > 0 {
         let event = reader.next()?;
         match event {
-            XmlEvent::StartElement { .. } => depth += 1,
+            XmlEvent::StartElement { .. } => {
+                depth += 1;
+                xml::check_skip_depth(reader, depth)?;
+            }
             XmlEvent::EndElement { .. } => depth -= 1,
             _ => {}
         }
diff --git a/src/format/xml.rs b/src/format/xml.rs
index 42e4203..3ee10e4 100644
--- a/src/format/xml.rs
+++ b/src/format/xml.rs
@@ -31,6 +31,17 @@ use xml::common::{is_whitespace_str, Position};
 use xml::reader::{self, EventReader, ParserConfig};
 use xml::writer::{self, EventWriter};
 
+/// The maximum nesting of skipped elements (the time for parsing one grows with its depth).
+const MAX_SKIP_DEPTH: usize = 1000;
+
+/// Fails if the depth exceeds the maximum nesting of skipped elements.
+pub fn check_skip_depth<R: Read>(reader: &mut EventReader<R>, depth: usize) -> Result<()> {
+    if depth > MAX_SKIP_DEPTH {
+        return read_err(reader, "Elements nested too deep");
+    }
+    Ok(())
+}
+
 /// Create a reader that reports all text, including whitespace and CDATA, as characters.
 pub fn new_reader<R: Read>(source: R) -> EventReader<R> {
     let config = ParserConfig::new()
-- 
2.43.0


From b75fc8806d7b3b7ef1cb95a79c1eb680b239aa9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:36 +0000
Subject: [PATCH 21/31] fix: limit the nesting of all skipped XML elements

---
 src/format/kdb2_xml_reader.rs | 16 ++++++++--------
 src/format/kf_reader.rs       | 26 ++++----------------------
 src/format/xml.rs             | 18 ++++++++++++++++++
 3 files changed, 30 insertions(+), 30 deletions(-)

diff --git a/src/format/kdb2_xml_reader.rs b/src/format/kdb2_xml_reader.rs
index be43710..642f651 100644
--- a/src/format/kdb2_xml_reader.rs
+++ b/src/format/kdb2_xml_reader.rs
@@ -279,7 +279,7 @@ fn read_custom_data<R: Read>(reader: &mut EventReader<R>) -> Result<CustomDataMa
                     let (key, value) = read_custom_data_item(reader)?;
                     map.insert(key, value);
                 }
-                _ => reader.skip()?,
+                _ => xml::skip_element(reader)?,
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -308,7 +308,7 @@ fn read_custom_data_item<R: Read>(reader: &mut EventReader<R>) -> Result<(String
                 kdb2::VALUE_TAG => {
                     value = Some(xml::read_string(reader)?);
                 }
-                _ => reader.skip()?,
+                _ => xml::skip_element(reader)?,
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -344,7 +344,7 @@ fn read_custom_icons<R: Read>(reader: &mut EventReader<R>) -> Result<CustomIcons
                     let (uuid, data) = read_custom_icon(reader)?;
                     map.insert(uuid, data);
                 }
-                _ => reader.skip()?,
+                _ => xml::skip_element(reader)?,
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -373,7 +373,7 @@ fn read_custom_icon<R: Read>(reader: &mut EventReader<R>) -> Result<(CustomIconU
                 kdb2::UUID_TAG => {
                     uuid = xml::read_custom_icon_uuid_opt(reader)?;
                 }
-                _ => reader.skip()?,
+                _ => xml::skip_element(reader)?,
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -419,7 +419,7 @@ fn read_memory_protection<R: Read>(reader: &mut EventReader<R>, data: &mut XmlDa
                 kdb2::PROTECT_USERNAME_TAG => {
                     data.protect_username = xml::read_bool(reader)?;
                 }
-                _ => reader.skip()?,
+                _ => xml::skip_element(reader)?,
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -612,7 +612,7 @@ fn read_auto_type<R: Read>(reader: &mut EventReader<R>, node: &mut Entry) -> Res
                     kdb2::ENABLED_TAG => {
                         node.auto_type_enabled = xml::read_bool(reader)?;
                     }
-                    _ => reader.skip()?,
+                    _ => xml::skip_element(reader)?,
                 }
             }
 
@@ -641,7 +641,7 @@ fn read_association<R: Read>(reader: &mut EventReader<R>) -> Result<Association>
                 kdb2::WINDOW_TAG => {
                     window = Some(xml::read_string(reader)?);
                 }
-                _ => reader.skip()?,
+                _ => xml::skip_element(reader)?,
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -819,7 +819,7 @@ where
                 kdb2::USAGE_COUNT_TAG => {
                     node.set_usage_count(xml::read_i32(reader)?);
                 }
-                _ => reader.skip()?,
+                _ => xml::skip_element(reader)?,
             },
 
             XmlEvent::EndElement { name, .. } => {
diff --git a/src/format/kf_reader.rs b/src/format/kf_reader.rs
index 9413e2f..7d83f39 100644
--- a/src/format/kf_reader.rs
+++ b/src/format/kf_reader.rs
@@ -53,7 +53,7 @@ fn read_xml<R: Read>(reader: &mut R) -> Result<KeyFile> {
                 if name.local_name == kf::KEY_FILE_TAG {
                     opt_key = Some(read_xml_key_file(&mut reader)?);
                 } else {
-                    skip_element(&mut reader)?;
+                    xml::skip_element(&mut reader)?;
                 }
             }
             XmlEvent::EndDocument { .. } => {
@@ -83,7 +83,7 @@ fn read_xml_key_file<R: Read>(reader: &mut EventReader<R>) -> Result<SecStr> {
                 } else if name.local_name == kf::META_TAG {
                     read_xml_meta(reader)?;
                 } else {
-                    skip_element(reader)?;
+                    xml::skip_element(reader)?;
                 }
             }
             XmlEvent::EndElement { name, .. } => {
@@ -112,7 +112,7 @@ fn read_xml_meta<R: Read>(reader: &mut EventReader<R>) -> Result<()> {
                         return xml::read_err(reader, "Unsupported key file version");
                     }
                 } else {
-                    skip_element(reader)?;
+                    xml::skip_element(reader)?;
                 }
             }
             XmlEvent::EndElement { name, .. } => {
@@ -136,7 +136,7 @@ fn read_xml_key<R: Read>(reader: &mut EventReader<R>) -> Result<SecStr> {
                 if name.local_name == kf::DATA_TAG {
                     opt_key = xml::read_binary_opt(reader)?.map(SecStr::new);
                 } else {
-                    skip_element(reader)?;
+                    xml::skip_element(reader)?;
                 }
             }
             XmlEvent::EndElement { name, .. } => {
@@ -153,21 +153,3 @@ fn read_xml_key<R: Read>(reader: &mut EventReader<R>) -> Result<SecStr> {
         None => xml::read_err(reader, "No Data tag found"),
     }
 }
-
-/// Skips an unknown element and everything in it.
-fn skip_element<R: Read>(reader: &mut EventReader<R>) -> Result<()> {
-    let mut depth = 1;
-    while depth > 0 {
-        let event = reader.next()?;
-        match event {
-            XmlEvent::StartElement { .. } => {
-                depth += 1;
-                xml::check_skip_depth(reader, depth)?;
-            }
-            XmlEvent::EndElement { .. } => depth -= 1,
-            _ => {}
-        }
-    }
-
-    Ok(())
-}
diff --git a/src/format/xml.rs b/src/format/xml.rs
index 3ee10e4..d9bfa7e 100644
--- a/src/format/xml.rs
+++ b/src/format/xml.rs
@@ -331,6 +331,24 @@ pub fn search_attr_value(attrs: &Vec<OwnedAttribute>, name: &str) -> Option<Stri
     None
 }
 
+/// Skips an element and everything in it.
+pub fn skip_element<R: Read>(reader: &mut EventReader<R>) -> Result<()> {
+    let mut depth = 1;
+    while depth > 0 {
+        let event = reader.next()?;
+        match event {
+            reader::XmlEvent::StartElement { .. } => {
+                depth += 1;
+                check_skip_depth(reader, depth)?;
+            }
+            reader::XmlEvent::EndElement { .. } => depth -= 1,
+            _ => {}
+        }
+    }
+
+    Ok(())
+}
+
 /// Attempts to write binary data.
 pub fn write_binary<W: Write>(writer: &mut EventWriter<W>, data: &[u8]) -> Result<()> {
     write_string(writer, &general_purpose::STANDARD.encode(&data))
-- 
2.43.0


From 3f9d28925b0f031ed157aba92160baa615e1ee85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:51 +0000
Subject: [PATCH 22/31] fix: skip history inside history items without
 recursion

---
 src/format/kdb2_xml_reader.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/format/kdb2_xml_reader.rs b/src/format/kdb2_xml_reader.rs
index 642f651..35f6a01 100644
--- a/src/format/kdb2_xml_reader.rs
+++ b/src/format/kdb2_xml_reader.rs
@@ -550,9 +550,11 @@ fn read_entry<R: Read>(
                         node.foreground_color = xml::read_color_opt(reader)?;
                     }
                     kdb2::HISTORY_TAG => {
-                        let mut history = read_history(reader, cipher, parent.clone())?;
                         if state == EntryState::Active {
+                            let mut history = read_history(reader, cipher, parent.clone())?;
                             node.history.append(&mut history);
+                        } else {
+                            skip_element(reader, cipher, &attributes)?;
                         }
                     }
                     kdb2::ICON_ID_TAG => {
-- 
2.43.0


From f471d811280c60607bc2c32efd57c76a3d43c885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:04 +0000
Subject: [PATCH 23/31] fix: decompress compressed attachments stored in
 entries

---
 src/format/kdb2_xml_reader.rs | 15 +--------------
 src/format/xml.rs             | 17 +++++++++++++++++
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/format/kdb2_xml_reader.rs b/src/format/kdb2_xml_reader.rs
index 35f6a01..06273b6 100644
--- a/src/format/kdb2_xml_reader.rs
+++ b/src/format/kdb2_xml_reader.rs
@@ -242,7 +242,7 @@ fn read_binaries<R: Read>(
             } => match name.local_name.as_str() {
                 kdb2::BINARY_TAG => {
                     let id = BinaryId(get_id_attr_value(reader, &attributes)?);
-                    let compressed = get_compressed_attr_value(reader, &attributes)?;
+                    let compressed = xml::get_compressed_attr_value(reader, &attributes)?;
                     let protected = xml::get_protected_attr_value(reader, &attributes)?;
                     let bytes = if protected {
                         salsa20::decrypt(cipher, &xml::read_binary(reader)?)
@@ -874,19 +874,6 @@ fn skip_element<R: Read>(
     Ok(())
 }
 
-fn get_compressed_attr_value<R: Read>(
-    reader: &mut EventReader<R>,
-    attrs: &Vec<OwnedAttribute>,
-) -> Result<bool> {
-    match xml::search_attr_value(attrs, "compressed") {
-        Some(val) => match val.to_lowercase().parse::<bool>() {
-            Ok(val) => Ok(val),
-            Err(_) => xml::read_err(reader, "Attribute Compressed invalid value"),
-        },
-        None => Ok(false),
-    }
-}
-
 fn get_id_attr_value<R: Read>(
     reader: &mut EventReader<R>,
     attrs: &Vec<OwnedAttribute>,
diff --git a/src/format/xml.rs b/src/format/xml.rs
index d9bfa7e..4adccce 100644
--- a/src/format/xml.rs
+++ b/src/format/xml.rs
@@ -84,6 +84,7 @@ pub fn read_binary_value_opt<R: Read>(
     attrs: &Vec<OwnedAttribute>,
 ) -> Result<Option<BinaryValue>> {
     let ref_value = search_attr_value(attrs, "ref");
+    let compressed = get_compressed_attr_value(reader, attrs)?;
     let protected = get_protected_attr_value(reader, attrs)?;
     match ref_value {
         Some(string) => Ok(Some(BinaryValue::Ref(BinaryId(string)))),
@@ -93,6 +94,8 @@ pub fn read_binary_value_opt<R: Read>(
                     let pbytes = salsa20::decrypt(cipher, &bytes);
                     let secstr = SecStr::new(pbytes);
                     Ok(Some(BinaryValue::Protected(secstr)))
+                } else if compressed {
+                    Ok(Some(BinaryValue::Plain(gzip::decode(&bytes)?)))
                 } else {
                     Ok(Some(BinaryValue::Plain(bytes)))
                 }
@@ -474,6 +477,20 @@ pub fn write_uuid_tag<W: Write>(writer: &mut EventWriter<W>, tag: &str, uuid: &U
     write_binary_tag(writer, tag, uuid.as_bytes())
 }
 
+/// Gets the value of the compressed attribute; false if there is none.
+pub fn get_compressed_attr_value<R: Read>(
+    reader: &mut EventReader<R>,
+    attrs: &Vec<OwnedAttribute>,
+) -> Result<bool> {
+    match search_attr_value(attrs, "compressed") {
+        Some(val) => match val.to_lowercase().parse::<bool>() {
+            Ok(val) => Ok(val),
+            Err(_) => read_err(reader, "Attribute Compressed invalid value"),
+        },
+        None => Ok(false),
+    }
+}
+
 fn get_protect_in_memory_attr_value<R: Read>(
     reader: &mut EventReader<R>,
     attrs: &Vec<OwnedAttribute>,
-- 
2.43.0


From 817e749ae81d09d69b23a3ba526ae0efec47a5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:47 +0000
Subject: [PATCH 24/31] fix: read text values up to the end of their element
 and reject elements in them

---
 src/format/xml.rs | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/format/xml.rs b/src/format/xml.rs
index 4adccce..a95ce4c 100644
--- a/src/format/xml.rs
+++ b/src/format/xml.rs
@@ -244,19 +244,18 @@ pub fn read_string_key_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Optio
     }
 }
 
-/// Attempts to read an optional string.
+/// Attempts to read an optional string up to the end of its element.
 pub fn read_string_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Option<String>> {
-    let event = reader.next()?;
-    match event {
-        reader::XmlEvent::Characters(val) => Ok(Some(val)),
-        reader::XmlEvent::EndElement { .. } => Ok(None),
-        _ => {
-            let _: Result<Option<String>> =
-                read_err(reader, "No characters found").map_err(|err| {
-                    eprintln!("{}", err);
-                    err
-                });
-            Ok(None)
+    let mut opt: Option<String> = None;
+    loop {
+        let event = reader.next()?;
+        match event {
+            reader::XmlEvent::Characters(val) => opt.get_or_insert_with(String::new).push_str(&val),
+            reader::XmlEvent::EndElement { .. } => return Ok(opt),
+            reader::XmlEvent::StartElement { .. } => {
+                return read_err(reader, "Unexpected element in a value")
+            }
+            _ => {}
         }
     }
 }
-- 
2.43.0


From 8d53048d7d44039a06faec7d04aa80cdcb3e9039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:01 +0000
Subject: [PATCH 25/31] fix: treat literal line ends in the XML as newlines

---
 src/format/kdb2_reader.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/format/kdb2_reader.rs b/src/format/kdb2_reader.rs
index 6bdaef6..9135371 100644
--- a/src/format/kdb2_reader.rs
+++ b/src/format/kdb2_reader.rs
@@ -131,7 +131,7 @@ where
         return Err(Error::InvalidKey);
     }
 
-    let xml_bytes = read_xml_bytes(&compression, &payload[32..])?;
+    let xml_bytes = normalize_line_ends(&read_xml_bytes(&compression, &payload[32..])?);
     let xml_data = kdb2_xml_reader::read(&mut Cursor::new(xml_bytes), &stream_key)?;
     let meta_data = MetaData {
         comment: comment,
@@ -146,6 +146,19 @@ where
     Ok((meta_data, xml_data))
 }
 
+/// Turns line ends into newlines, as XML requires before parsing.
+fn normalize_line_ends(data: &[u8]) -> Vec<u8> {
+    let mut result = Vec::with_capacity(data.len());
+    for (index, &byte) in data.iter().enumerate() {
+        if byte == b'\r' {
+            result.push(b'\n');
+        } else if byte != b'\n' || index == 0 || data[index - 1] != b'\r' {
+            result.push(byte);
+        }
+    }
+    result
+}
+
 fn read_comment<R: Read>(reader: &mut R) -> Result<Comment> {
     let size = reader.read_u16::<LittleEndian>()? as usize;
     let data = read_bytes_size(reader, &size)?;
-- 
2.43.0


From 0df8d6e751ceff6a39e2670a485342bcfb424a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:15 +0000
Subject: [PATCH 26/31] fix: read protected values of skipped elements up to
 their end

---
 src/format/kdb2_xml_reader.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/format/kdb2_xml_reader.rs b/src/format/kdb2_xml_reader.rs
index 06273b6..bf251b4 100644
--- a/src/format/kdb2_xml_reader.rs
+++ b/src/format/kdb2_xml_reader.rs
@@ -845,26 +845,26 @@ fn skip_element<R: Read>(
 ) -> Result<()> {
     let mut depth = 1;
     let mut protected = xml::get_protected_attr_value(reader, attrs)?;
+    let mut text = String::new();
     while depth > 0 {
         let event = reader.next()?;
         match event {
             XmlEvent::StartElement { attributes, .. } => {
                 depth += 1;
                 xml::check_skip_depth(reader, depth)?;
+                skip_protected(reader, cipher, &mut text)?;
                 protected = xml::get_protected_attr_value(reader, &attributes)?;
             }
 
             XmlEvent::EndElement { .. } => {
                 depth -= 1;
+                skip_protected(reader, cipher, &mut text)?;
                 protected = false;
             }
 
-            XmlEvent::Characters(text) => {
+            XmlEvent::Characters(part) => {
                 if protected {
-                    match general_purpose::STANDARD.decode(text.trim()) {
-                        Ok(bytes) => salsa20::decrypt(cipher, &bytes),
-                        Err(err) => return xml::read_err(reader, format!("Base64 {}", err)),
-                    };
+                    text.push_str(&part);
                 }
             }
 
@@ -874,6 +874,20 @@ fn skip_element<R: Read>(
     Ok(())
 }
 
+/// Advances the cipher past a protected value and clears the value.
+fn skip_protected<R: Read>(
+    reader: &mut EventReader<R>,
+    cipher: &mut Salsa20,
+    text: &mut String,
+) -> Result<()> {
+    match general_purpose::STANDARD.decode(text.trim()) {
+        Ok(bytes) => salsa20::decrypt(cipher, &bytes),
+        Err(err) => return xml::read_err(reader, format!("Base64 {}", err)),
+    };
+    text.clear();
+    Ok(())
+}
+
 fn get_id_attr_value<R: Read>(
     reader: &mut EventReader<R>,
     attrs: &Vec<OwnedAttribute>,
-- 
2.43.0


From 57663be55d8dc8990ded9ea22a36d6e12ae646da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:58 +0000
Subject: [PATCH 27/31] fix: keep the groups of a mutable group search valid
 while searching

---
 src/types/database.rs | 12 +++++++++---
 src/types/group.rs    | 18 ++++++++++++------
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/types/database.rs b/src/types/database.rs
index cee1708..c699845 100644
--- a/src/types/database.rs
+++ b/src/types/database.rs
@@ -318,9 +318,15 @@ impl Database {
     /// ```
     pub fn find_groups_mut<'a, S: Into<String>>(&'a mut self, name: S) -> Vec<&'a mut Group> {
         let name = &fold_case(&name.into());
-        self.root_group
-            .iter_mut()
-            .filter(|g| fold_case(&g.name).contains(name))
+        let mut groups = self.root_group.iter_mut();
+        let mut list = Vec::new();
+        while let Some(group) = groups.next_ptr() {
+            if fold_case(unsafe { &(*group.as_ptr()).name }).contains(name) {
+                list.push(group);
+            }
+        }
+        list.into_iter()
+            .map(|group| unsafe { &mut *group.as_ptr() })
             .collect::<Vec<&'a mut Group>>()
     }
 
diff --git a/src/types/group.rs b/src/types/group.rs
index 9b2bc1d..567f90f 100644
--- a/src/types/group.rs
+++ b/src/types/group.rs
@@ -362,12 +362,10 @@ impl<'a> IterMut<'a> {
             marker: PhantomData,
         }
     }
-}
-
-impl<'a> Iterator for IterMut<'a> {
-    type Item = &'a mut Group;
 
-    fn next(&mut self) -> Option<&'a mut Group> {
+    // The pointers stay valid while the iterator advances; references to the
+    // groups don't, since advancing looks at the sub groups.
+    pub(crate) fn next_ptr(&mut self) -> Option<NonNull<Group>> {
         match self.curr.take() {
             Some(group) => {
                 for sub in unsafe { (*group.as_ptr()).groups.iter_mut() } {
@@ -377,7 +375,15 @@ impl<'a> Iterator for IterMut<'a> {
             None => {}
         }
         self.curr = self.todo.pop_front();
-        self.curr.map(|group| unsafe { &mut *group.as_ptr() })
+        self.curr
+    }
+}
+
+impl<'a> Iterator for IterMut<'a> {
+    type Item = &'a mut Group;
+
+    fn next(&mut self) -> Option<&'a mut Group> {
+        self.next_ptr().map(|group| unsafe { &mut *group.as_ptr() })
     }
 }
 
-- 
2.43.0


From 3e26defbf3b8cc038ae579b0c6ff170eaea5eacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:42 +0000
Subject: [PATCH 28/31] fix: keep the key stream in step with unknown elements
 in every place

---
 src/format/kdb2_xml_reader.rs | 109 ++++++++++++++++++++++++----------
 1 file changed, 76 insertions(+), 33 deletions(-)

diff --git a/src/format/kdb2_xml_reader.rs b/src/format/kdb2_xml_reader.rs
index bf251b4..44c0c90 100644
--- a/src/format/kdb2_xml_reader.rs
+++ b/src/format/kdb2_xml_reader.rs
@@ -112,10 +112,10 @@ fn read_meta<R: Read>(
                     data.color = xml::read_color_opt(reader)?;
                 }
                 kdb2::CUSTOM_DATA_TAG => {
-                    data.custom_data = read_custom_data(reader)?;
+                    data.custom_data = read_custom_data(reader, cipher)?;
                 }
                 kdb2::CUSTOM_ICONS_TAG => {
-                    data.custom_icons = read_custom_icons(reader)?;
+                    data.custom_icons = read_custom_icons(reader, cipher)?;
                 }
                 kdb2::DATABASE_DESCRIPTION_TAG => {
                     data.description = xml::read_string(reader)?;
@@ -172,7 +172,7 @@ fn read_meta<R: Read>(
                     data.master_key_changed = xml::read_datetime(reader)?;
                 }
                 kdb2::MEMORY_PROTECTION_TAG => {
-                    read_memory_protection(reader, data)?;
+                    read_memory_protection(reader, data, cipher)?;
                 }
                 kdb2::RECYCLE_BIN_CHANGED_TAG => {
                     data.recycle_bin_changed = xml::read_datetime(reader)?;
@@ -269,17 +269,22 @@ fn read_binaries<R: Read>(
     Ok(map)
 }
 
-fn read_custom_data<R: Read>(reader: &mut EventReader<R>) -> Result<CustomDataMap> {
+fn read_custom_data<R: Read>(
+    reader: &mut EventReader<R>,
+    cipher: &mut Salsa20,
+) -> Result<CustomDataMap> {
     let mut map = CustomDataMap::new();
     loop {
         let event = reader.next()?;
         match event {
-            XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => match name.local_name.as_str() {
                 kdb2::ITEM_TAG => {
-                    let (key, value) = read_custom_data_item(reader)?;
+                    let (key, value) = read_custom_data_item(reader, cipher)?;
                     map.insert(key, value);
                 }
-                _ => xml::skip_element(reader)?,
+                _ => skip_element(reader, cipher, &attributes)?,
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -295,20 +300,25 @@ fn read_custom_data<R: Read>(reader: &mut EventReader<R>) -> Result<CustomDataMa
     Ok(map)
 }
 
-fn read_custom_data_item<R: Read>(reader: &mut EventReader<R>) -> Result<(String, String)> {
+fn read_custom_data_item<R: Read>(
+    reader: &mut EventReader<R>,
+    cipher: &mut Salsa20,
+) -> Result<(String, String)> {
     let mut key: Option<String> = None;
     let mut value: Option<String> = None;
     loop {
         let event = reader.next()?;
         match event {
-            XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => match name.local_name.as_str() {
                 kdb2::KEY_TAG => {
                     key = Some(xml::read_string(reader)?);
                 }
                 kdb2::VALUE_TAG => {
                     value = Some(xml::read_string(reader)?);
                 }
-                _ => xml::skip_element(reader)?,
+                _ => skip_element(reader, cipher, &attributes)?,
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -334,17 +344,22 @@ fn read_custom_data_item<R: Read>(reader: &mut EventReader<R>) -> Result<(String
     Ok((key, value))
 }
 
-fn read_custom_icons<R: Read>(reader: &mut EventReader<R>) -> Result<CustomIconsMap> {
+fn read_custom_icons<R: Read>(
+    reader: &mut EventReader<R>,
+    cipher: &mut Salsa20,
+) -> Result<CustomIconsMap> {
     let mut map = CustomIconsMap::new();
     loop {
         let event = reader.next()?;
         match event {
-            XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => match name.local_name.as_str() {
                 kdb2::ICON_TAG => {
-                    let (uuid, data) = read_custom_icon(reader)?;
+                    let (uuid, data) = read_custom_icon(reader, cipher)?;
                     map.insert(uuid, data);
                 }
-                _ => xml::skip_element(reader)?,
+                _ => skip_element(reader, cipher, &attributes)?,
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -360,20 +375,25 @@ fn read_custom_icons<R: Read>(reader: &mut EventReader<R>) -> Result<CustomIcons
     Ok(map)
 }
 
-fn read_custom_icon<R: Read>(reader: &mut EventReader<R>) -> Result<(CustomIconUuid, Vec<u8>)> {
+fn read_custom_icon<R: Read>(
+    reader: &mut EventReader<R>,
+    cipher: &mut Salsa20,
+) -> Result<(CustomIconUuid, Vec<u8>)> {
     let mut uuid: Option<CustomIconUuid> = None;
     let mut data: Option<Vec<u8>> = None;
     loop {
         let event = reader.next()?;
         match event {
-            XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => match name.local_name.as_str() {
                 kdb2::DATA_TAG => {
                     data = Some(xml::read_binary(reader)?);
                 }
                 kdb2::UUID_TAG => {
                     uuid = xml::read_custom_icon_uuid_opt(reader)?;
                 }
-                _ => xml::skip_element(reader)?,
+                _ => skip_element(reader, cipher, &attributes)?,
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -399,11 +419,17 @@ fn read_custom_icon<R: Read>(reader: &mut EventReader<R>) -> Result<(CustomIconU
     Ok((uuid, data))
 }
 
-fn read_memory_protection<R: Read>(reader: &mut EventReader<R>, data: &mut XmlData) -> Result<()> {
+fn read_memory_protection<R: Read>(
+    reader: &mut EventReader<R>,
+    data: &mut XmlData,
+    cipher: &mut Salsa20,
+) -> Result<()> {
     loop {
         let event = reader.next()?;
         match event {
-            XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => match name.local_name.as_str() {
                 kdb2::PROTECT_NOTES_TAG => {
                     data.protect_notes = xml::read_bool(reader)?;
                 }
@@ -419,7 +445,7 @@ fn read_memory_protection<R: Read>(reader: &mut EventReader<R>, data: &mut XmlDa
                 kdb2::PROTECT_USERNAME_TAG => {
                     data.protect_username = xml::read_bool(reader)?;
                 }
-                _ => xml::skip_element(reader)?,
+                _ => skip_element(reader, cipher, &attributes)?,
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -488,7 +514,7 @@ fn read_group<R: Read>(
                     node.notes = xml::read_string(reader)?;
                 }
                 kdb2::TIMES_TAG => {
-                    read_times(reader, &mut node)?;
+                    read_times(reader, &mut node, cipher)?;
                 }
                 kdb2::UUID_TAG => {
                     node.uuid = GroupUuid(xml::read_uuid(reader)?);
@@ -534,7 +560,7 @@ fn read_entry<R: Read>(
                 node.parent = parent;
                 match name.local_name.as_str() {
                     kdb2::AUTO_TYPE_TAG => {
-                        read_auto_type(reader, &mut node)?;
+                        read_auto_type(reader, &mut node, cipher)?;
                     }
                     kdb2::BACKGROUND_COLOR_TAG => {
                         node.background_color = xml::read_color_opt(reader)?;
@@ -571,7 +597,7 @@ fn read_entry<R: Read>(
                         node.tags = xml::read_string(reader)?;
                     }
                     kdb2::TIMES_TAG => {
-                        read_times(reader, &mut node)?;
+                        read_times(reader, &mut node, cipher)?;
                     }
                     kdb2::UUID_TAG => {
                         node.uuid = EntryUuid(xml::read_uuid(reader)?);
@@ -592,16 +618,22 @@ fn read_entry<R: Read>(
     Ok(node)
 }
 
-fn read_auto_type<R: Read>(reader: &mut EventReader<R>, node: &mut Entry) -> Result<()> {
+fn read_auto_type<R: Read>(
+    reader: &mut EventReader<R>,
+    node: &mut Entry,
+    cipher: &mut Salsa20,
+) -> Result<()> {
     loop {
         let event = reader.next()?;
         match event {
-            XmlEvent::StartElement { name, .. } =>
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } =>
             {
                 #[allow(unused_must_use)]
                 match name.local_name.as_str() {
                     kdb2::ASSOCIATION_TAG => {
-                        read_association(reader)
+                        read_association(reader, cipher)
                             .map(|x| node.associations.push(x))
                             .map_err(|err| eprintln!("{}", err));
                     }
@@ -614,7 +646,7 @@ fn read_auto_type<R: Read>(reader: &mut EventReader<R>, node: &mut Entry) -> Res
                     kdb2::ENABLED_TAG => {
                         node.auto_type_enabled = xml::read_bool(reader)?;
                     }
-                    _ => xml::skip_element(reader)?,
+                    _ => skip_element(reader, cipher, &attributes)?,
                 }
             }
 
@@ -630,20 +662,25 @@ fn read_auto_type<R: Read>(reader: &mut EventReader<R>, node: &mut Entry) -> Res
     Ok(())
 }
 
-fn read_association<R: Read>(reader: &mut EventReader<R>) -> Result<Association> {
+fn read_association<R: Read>(
+    reader: &mut EventReader<R>,
+    cipher: &mut Salsa20,
+) -> Result<Association> {
     let mut keystroke: Option<String> = None;
     let mut window: Option<String> = None;
     loop {
         let event = reader.next()?;
         match event {
-            XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => match name.local_name.as_str() {
                 kdb2::KEYSTROKE_SEQUENCE_TAG => {
                     keystroke = Some(xml::read_string(reader)?);
                 }
                 kdb2::WINDOW_TAG => {
                     window = Some(xml::read_string(reader)?);
                 }
-                _ => xml::skip_element(reader)?,
+                _ => skip_element(reader, cipher, &attributes)?,
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -791,7 +828,11 @@ fn read_string<R: Read>(
     Ok((key, value))
 }
 
-fn read_times<N, R>(reader: &mut EventReader<R>, node: &mut N) -> Result<()>
+fn read_times<N, R>(
+    reader: &mut EventReader<R>,
+    node: &mut N,
+    cipher: &mut Salsa20,
+) -> Result<()>
 where
     N: Times,
     R: Read,
@@ -799,7 +840,9 @@ where
     loop {
         let event = reader.next()?;
         match event {
-            XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => match name.local_name.as_str() {
                 kdb2::CREATION_TIME_TAG => {
                     node.set_creation_time(xml::read_datetime(reader)?);
                 }
@@ -821,7 +864,7 @@ where
                 kdb2::USAGE_COUNT_TAG => {
                     node.set_usage_count(xml::read_i32(reader)?);
                 }
-                _ => xml::skip_element(reader)?,
+                _ => skip_element(reader, cipher, &attributes)?,
             },
 
             XmlEvent::EndElement { name, .. } => {
-- 
2.43.0


From 1d50408b904bb424bd2a1cdeefe180b9b9037f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:21 +0000
Subject: [PATCH 29/31] fix: decompress gzip data of several members

---
 src/compression/gzip.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compression/gzip.rs b/src/compression/gzip.rs
index d3b74be..9fae941 100644
--- a/src/compression/gzip.rs
+++ b/src/compression/gzip.rs
@@ -7,7 +7,7 @@
 // except according to those terms.
 
 use crate::types::Result;
-use flate2::read::GzDecoder;
+use flate2::read::MultiGzDecoder;
 use flate2::write::GzEncoder;
 use flate2::Compression;
 use std::io::{Read, Write};
@@ -15,7 +15,7 @@ use std::io::{Read, Write};
 /// Decode (decompress) the input using GZip.
 pub fn decode(input: &[u8]) -> Result<Vec<u8>> {
     let mut output = Vec::new();
-    let mut decoder = GzDecoder::new(input);
+    let mut decoder = MultiGzDecoder::new(input);
     decoder.read_to_end(&mut output)?;
     Ok(output)
 }
-- 
2.43.0


From b34d9ab54f3d0c0a6fe341a7650684a95e02859d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:25 +0000
Subject: [PATCH 30/31] fix: keep fields whose names only differ from a
 well-known one in case

---
 src/format/kdb2_xml_reader.rs | 27 ++++++++++++++++++++++-----
 src/format/xml.rs             |  9 ---------
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/format/kdb2_xml_reader.rs b/src/format/kdb2_xml_reader.rs
index 44c0c90..40a47ad 100644
--- a/src/format/kdb2_xml_reader.rs
+++ b/src/format/kdb2_xml_reader.rs
@@ -28,6 +28,7 @@ use crate::types::Result;
 use crate::types::StreamKey;
 use crate::types::StringKey;
 use crate::types::StringValue;
+use crate::types::StringsMap;
 use crate::types::Times;
 use crate::types::XmlData;
 use base64::{engine::general_purpose, Engine as _};
@@ -551,6 +552,7 @@ fn read_entry<R: Read>(
     parent: GroupUuid,
 ) -> Result<Entry> {
     let mut node = Entry::default();
+    let mut strings = Vec::new();
     loop {
         let event = reader.next()?;
         match event {
@@ -590,8 +592,7 @@ fn read_entry<R: Read>(
                         node.override_url = xml::read_string(reader)?;
                     }
                     kdb2::STRING_TAG => {
-                        let (key, value) = read_string(reader, cipher)?;
-                        node.strings.insert(key, value);
+                        strings.push(read_string(reader, cipher)?);
                     }
                     kdb2::TAGS_TAG => {
                         node.tags = xml::read_string(reader)?;
@@ -615,6 +616,7 @@ fn read_entry<R: Read>(
             _ => {}
         }
     }
+    node.strings = to_strings_map(strings);
     Ok(node)
 }
 
@@ -787,8 +789,8 @@ fn read_history<R: Read>(
 fn read_string<R: Read>(
     reader: &mut EventReader<R>,
     cipher: &mut Salsa20,
-) -> Result<(StringKey, StringValue)> {
-    let mut key: Option<StringKey> = None;
+) -> Result<(String, StringValue)> {
+    let mut key: Option<String> = None;
     let mut value: Option<StringValue> = None;
     loop {
         let event = reader.next()?;
@@ -797,7 +799,7 @@ fn read_string<R: Read>(
                 name, attributes, ..
             } => match name.local_name.as_str() {
                 kdb2::KEY_TAG => {
-                    key = xml::read_string_key_opt(reader)?;
+                    key = Some(xml::read_string(reader)?);
                 }
                 kdb2::VALUE_TAG => {
                     value = xml::read_string_value_opt(reader, cipher, &attributes)?;
@@ -828,6 +830,21 @@ fn read_string<R: Read>(
     Ok((key, value))
 }
 
+// The well-known field is the one with the standard spelling of its name, fields with a name that
+// only differs in case are kept as other fields next to it.
+fn to_strings_map(mut strings: Vec<(String, StringValue)>) -> StringsMap {
+    let mut map = StringsMap::new();
+    strings.sort_by_key(|(name, _)| StringKey::from_string(name).to_string() != *name);
+    for (name, value) in strings {
+        let mut key = StringKey::from_string(&name);
+        if map.contains_key(&key) && key.to_string() != name {
+            key = StringKey::Other(name);
+        }
+        map.insert(key, value);
+    }
+    map
+}
+
 fn read_times<N, R>(
     reader: &mut EventReader<R>,
     node: &mut N,
diff --git a/src/format/xml.rs b/src/format/xml.rs
index a95ce4c..bfc4a0a 100644
--- a/src/format/xml.rs
+++ b/src/format/xml.rs
@@ -19,7 +19,6 @@ use crate::types::Error;
 use crate::types::Icon;
 use crate::types::Obfuscation;
 use crate::types::Result;
-use crate::types::StringKey;
 use crate::types::StringValue;
 use base64::{engine::general_purpose, Engine as _};
 use chrono::{DateTime, Utc};
@@ -236,14 +235,6 @@ pub fn read_string<R: Read>(reader: &mut EventReader<R>) -> Result<String> {
     }
 }
 
-/// Attempts to read an optional string key
-pub fn read_string_key_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Option<StringKey>> {
-    match read_string_opt(reader)? {
-        Some(string) => Ok(Some(StringKey::from_string(&string))),
-        None => Ok(Some(StringKey::Other(String::new()))),
-    }
-}
-
 /// Attempts to read an optional string up to the end of its element.
 pub fn read_string_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Option<String>> {
     let mut opt: Option<String> = None;
-- 
2.43.0


From 46ada3f7b388e2d162342bcd34322331546db0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:28 +0000
Subject: [PATCH 31/31] fix: refuse to save two fields under the same name

---
 src/format/kdb2_xml_writer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/format/kdb2_xml_writer.rs b/src/format/kdb2_xml_writer.rs
index 76a3aad..fa9260e 100644
--- a/src/format/kdb2_xml_writer.rs
+++ b/src/format/kdb2_xml_writer.rs
@@ -199,6 +199,10 @@ fn write_entry_section<W: Write>(
     }
 
     for (key, value) in &entry.strings {
+        let known = StringKey::from_string(&key.to_string());
+        if known != *key && known.to_string() == key.to_string() && entry.strings.contains_key(&known) {
+            return Err(Error::XmlError(String::from("Two fields have the same name")));
+        }
         write_string_section(writer, cipher, key, value)?;
     }
 
-- 
2.43.0

