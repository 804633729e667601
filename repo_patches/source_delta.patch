From d6d0315dac8e8a5f05c6fff506af19ba66bacdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:39 +0000
Subject: [PATCH 01/42] fix: reject name compression pointers beyond the end of
 the message

Such a pointer made the decoder panic, and pointers to offsets from 8192
on overflowed the 16 bits in which the position was computed.
---
 src/shared/buffer/buffer.rs | 5 +++++
 src/shared/dns/name.rs      | 7 +++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/shared/buffer/buffer.rs b/src/shared/buffer/buffer.rs
index a78abb0..a5d21fa 100644
--- a/src/shared/buffer/buffer.rs
+++ b/src/shared/buffer/buffer.rs
@@ -61,6 +61,11 @@ impl BitsBuf {
         }
     }
 
+    /// Returns the length of the buffer, expressed in bits.
+    pub fn len(&self) -> usize {
+        self.last
+    }
+
     /// Consumes the buffer and returns the inner bytes as a [Vec].
     pub fn into_vec(self) -> Vec<u8> {
         self.buf
diff --git a/src/shared/dns/name.rs b/src/shared/dns/name.rs
index 90a0cdb..5599a3d 100644
--- a/src/shared/dns/name.rs
+++ b/src/shared/dns/name.rs
@@ -55,8 +55,11 @@ impl Name {
                     }
                     let second_byte = check_end(buffer.read_u8())? as u16;
                     let jump_pos = (((len_byte as u16) << 8) | second_byte) & Self::POINTER_MASK;
-                    let jump_pos = jump_pos * 8;
-                    buffer.set_read_pos(jump_pos as usize);
+                    let jump_pos = jump_pos as usize * 8;
+                    if jump_pos >= buffer.len() {
+                        return Err(NameErr::PointerOutOfBonds);
+                    }
+                    buffer.set_read_pos(jump_pos);
                     n_jumps += 1;
                 }
                 // Normal label type. Could be found either after
-- 
2.43.0


From 30e68b6fb03c085d59772f33c6e01bbd97297a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:39 +0000
Subject: [PATCH 02/42] fix: compute record data lengths in bits without
 overflowing 16 bits

A data length of 8192 or more overflowed when compared with the data read.
---
 src/shared/dns/records.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/shared/dns/records.rs b/src/shared/dns/records.rs
index fe82ccb..3f59c71 100644
--- a/src/shared/dns/records.rs
+++ b/src/shared/dns/records.rs
@@ -338,7 +338,7 @@ fn decode_ns_data(buffer: &mut BitsBuf, data_len: u16) -> Result<Name, ParsingEr
     let before = buffer.read_pos();
     let nameserver = Name::from_bytes(buffer)?;
     let after = buffer.read_pos();
-    if after - before != (data_len * 8) as usize {
+    if after - before != data_len as usize * 8 {
         Err(ParsingErr::DataLenMismatch)
     } else {
         Ok(nameserver)
@@ -357,7 +357,7 @@ fn decode_cname_data(buffer: &mut BitsBuf, data_len: u16) -> Result<Name, Parsin
     let before = buffer.read_pos();
     let alias = Name::from_bytes(buffer)?;
     let after = buffer.read_pos();
-    if after - before != (data_len * 8) as usize {
+    if after - before != data_len as usize * 8 {
         Err(ParsingErr::DataLenMismatch)
     } else {
         Ok(alias)
@@ -384,7 +384,7 @@ fn decode_soa_data(buffer: &mut BitsBuf, data_len: u16) -> Result<SoaData, Parsi
     let expire = buffer.read_u32().ok_or(ParsingErr::BytesEnd)?;
     let minimum = buffer.read_u32().ok_or(ParsingErr::BytesEnd)?;
     let after = buffer.read_pos();
-    if after - before != (data_len * 8) as usize {
+    if after - before != data_len as usize * 8 {
         Err(ParsingErr::DataLenMismatch)
     } else {
         Ok((mname, rname, serial, refresh, retry, expire, minimum))
@@ -450,7 +450,7 @@ fn decode_ptr_data(buffer: &mut BitsBuf, data_len: u16) -> Result<Name, ParsingE
     let before = buffer.read_pos();
     let name = Name::from_bytes(buffer)?;
     let after = buffer.read_pos();
-    if after - before != (data_len * 8) as usize {
+    if after - before != data_len as usize * 8 {
         Err(ParsingErr::DataLenMismatch)
     } else {
         Ok(name)
@@ -470,7 +470,7 @@ fn decode_hinfo_data(buffer: &mut BitsBuf, data_len: u16) -> Result<(String, Str
     let cpu = decode_character_string(buffer)?;
     let os = decode_character_string(buffer)?;
     let after = buffer.read_pos();
-    if after - before != (data_len * 8) as usize {
+    if after - before != data_len as usize * 8 {
         Err(ParsingErr::DataLenMismatch)
     } else {
         Ok((cpu, os))
@@ -492,7 +492,7 @@ fn decode_mx_data(buffer: &mut BitsBuf, data_len: u16) -> Result<(u16, Name), Pa
     let preference = buffer.read_u16().ok_or(ParsingErr::BytesEnd)?;
     let exchange = Name::from_bytes(buffer)?;
     let after = buffer.read_pos();
-    if after - before != (data_len * 8) as usize {
+    if after - before != data_len as usize * 8 {
         Err(ParsingErr::DataLenMismatch)
     } else {
         Ok((preference, exchange))
-- 
2.43.0


From 5c4c1a0f47dc21016f31a50d5965e43de7fd4851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:39 +0000
Subject: [PATCH 03/42] fix: decode the strings of TXT records at the right
 position

After peeking at the length byte the position was moved one bit before it,
and the running length could overflow 16 bits.
---
 src/shared/dns/records.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/shared/dns/records.rs b/src/shared/dns/records.rs
index 3f59c71..d1cf67f 100644
--- a/src/shared/dns/records.rs
+++ b/src/shared/dns/records.rs
@@ -510,11 +510,12 @@ fn encode_mx_data(buffer: &mut BitsBuf, priority: u16, name: &Name) -> Result<()
 // TXT records data encoding and decoding functions.
 fn decode_txt_data(buffer: &mut BitsBuf, data_len: u16) -> Result<Vec<String>, ParsingErr> {
     let mut strings = vec![];
-    let mut read: u16 = 0;
+    let data_len = data_len as usize;
+    let mut read = 0;
     loop {
         let pos = buffer.read_pos();
-        let len = buffer.read_u8().ok_or(ParsingErr::BytesEnd)? as u16;
-        buffer.set_read_pos(pos - 1);
+        let len = buffer.read_u8().ok_or(ParsingErr::BytesEnd)? as usize;
+        buffer.set_read_pos(pos);
         if read + len + 1 > data_len {
             return Err(ParsingErr::DataLenMismatch);
         }
-- 
2.43.0


From 4b1b3fd02bd64fb2cf16f5c9339125370b2bba14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:39 +0000
Subject: [PATCH 04/42] fix: decode and encode the port bitmap of WKS records

Decoding panicked on truncated data, never ended on a non-zero bitmap byte
and did not check the data length. Encoding wrote four bytes per port with
a data length of one byte per port.
---
 src/shared/dns/records.rs | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/src/shared/dns/records.rs b/src/shared/dns/records.rs
index d1cf67f..635e102 100644
--- a/src/shared/dns/records.rs
+++ b/src/shared/dns/records.rs
@@ -409,36 +409,37 @@ fn encode_soa_data(buffer: &mut BitsBuf, data: (&Name, &Name, u32, u32, u32, u32
 type WksData = ([u8; 4], u8, Vec<u32>);
 
 fn decode_wks_data(buffer: &mut BitsBuf, data_len: u16) -> Result<WksData, ParsingErr> {
+    if data_len < 5 {
+        return Err(ParsingErr::DataLenMismatch);
+    }
     let address = buffer.read_bytes().ok_or(ParsingErr::BytesEnd)?;
     let protocol = buffer.read_u8().ok_or(ParsingErr::BytesEnd)?;
-    let ports = if data_len > 5 {
-        let ports_bytes = buffer.read_bytes_vec((data_len - 5) as usize).unwrap();
-        parse_wks_ports(&ports_bytes)
-    } else {
-        vec![]
-    };
-
+    let ports_bytes = buffer.read_bytes_vec((data_len - 5) as usize).ok_or(ParsingErr::BytesEnd)?;
+    let ports = parse_wks_ports(&ports_bytes);
     Ok((address, protocol, ports))
 }
 
 fn encode_wks_data(buffer: &mut BitsBuf, address: &[u8; 4], protocol: u8, ports: &[u32]) {
-    buffer.write_u16((5 + ports.len()) as u16);
+    let mut ports_bytes = vec![];
+    for port in ports {
+        let (byte, bit) = (*port as usize / 8, *port % 8);
+        if ports_bytes.len() <= byte {
+            ports_bytes.resize(byte + 1, 0_u8);
+        }
+        ports_bytes[byte] |= 0b10000000 >> bit;
+    }
+    buffer.write_u16((5 + ports_bytes.len()) as u16);
     buffer.write_bytes(address);
     buffer.write_u8(protocol);
-    for p in ports {
-        buffer.write_u32(*p);
-    }
+    buffer.write_bytes(&ports_bytes);
 }
 
 fn parse_wks_ports(ports_bytes: &[u8]) -> Vec<u32> {
     let mut ports = vec![];
     for (i, &byte) in ports_bytes.iter().enumerate() {
-        if byte == 0 {
-            continue;
-        }
-        for j in 1.. {
-            if byte << j == 0 {
-                ports.push((i * 8 + j - 1) as u32);
+        for j in 0..8 {
+            if byte & (0b10000000 >> j) != 0 {
+                ports.push((i * 8 + j) as u32);
             };
         }
     }
-- 
2.43.0


From cda5493055c6ab6772137730550c3b01f765aa66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:39 +0000
Subject: [PATCH 05/42] fix: count only the decoded questions and records in
 decoded headers

Questions and records of unknown types are skipped, but the header still
counted them. Handling such a request (an AAAA query, for example) indexed
a missing question and panicked.
---
 src/shared/dns/message.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/shared/dns/message.rs b/src/shared/dns/message.rs
index 8dce77e..3756390 100644
--- a/src/shared/dns/message.rs
+++ b/src/shared/dns/message.rs
@@ -27,7 +27,7 @@ impl Message {
     pub fn decode_from_bytes(bytes: &[u8]) -> Result<Message, MessageErr> {
         let mut buffer = BitsBuf::from_raw_bytes(&bytes);
 
-        let header = match Header::decode_from_buf(&mut buffer) {
+        let mut header = match Header::decode_from_buf(&mut buffer) {
             Err(err) => return Err(MessageErr::HeaderErr(err)),
             Ok(header) => header,
         };
@@ -73,6 +73,13 @@ impl Message {
             };
         }
 
+        // Questions and records of unknown type were skipped: keep the
+        // header concordant with what the message actually contains.
+        header.questions_count = questions.len() as u16;
+        header.answers_count = answers.len() as u16;
+        header.authorities_count = authorities.len() as u16;
+        header.additionals_count = additionals.len() as u16;
+
         Ok(Message {
             header,
             questions,
-- 
2.43.0


From 9cfb6e4a1efb9fa46dc0f6343eda146bc003559e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:23 +0000
Subject: [PATCH 06/42] fix: encode the root name as a single zero byte and let
 the root zone contain every name

The root name was encoded as two zero bytes and no name was inside the root zone.
---
 src/shared/dns/name.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/shared/dns/name.rs b/src/shared/dns/name.rs
index 5599a3d..bd102cc 100644
--- a/src/shared/dns/name.rs
+++ b/src/shared/dns/name.rs
@@ -105,6 +105,9 @@ impl Name {
     /// (a series of labels, divided by a length byte).
     pub fn to_bytes(&self) -> Vec<u8> {
         debug_assert!(validate_name(&self.0).is_ok());
+        if self.0 == "." {
+            return vec![0];
+        }
         let mut vec = Vec::with_capacity(self.0.len());
         for n in self.0.split('.') {
             let n_bytes = n.as_bytes();
@@ -181,6 +184,9 @@ impl Name {
     /// Reports if the [`Name`] is contained in the passed zone. The zone
     /// must be a valid name to ensure a correct comparison.
     pub fn is_in_zone(&self, zone: &Self) -> bool {
+        if zone.0 == "." {
+            return true;
+        }
         let mut name_labels = self.0.rsplit('.');
         let zone_labels = zone.0.rsplit('.');
         for zl in zone_labels {
-- 
2.43.0


From ceee59402f6a55d842b1d96c25b6d65b1deace3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:23 +0000
Subject: [PATCH 07/42] fix: enforce the length limits of domain names and
 labels

Labels longer than 63 bytes and names of 256 encoded bytes were accepted, and
could then only be encoded into malformed messages.
---
 src/shared/dns/name.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/shared/dns/name.rs b/src/shared/dns/name.rs
index bd102cc..c81ef75 100644
--- a/src/shared/dns/name.rs
+++ b/src/shared/dns/name.rs
@@ -124,7 +124,8 @@ fn validate_name(name: &str) -> Result<(), NameErr> {
     if name == "." {
         return Ok(());
     }
-    if name.len() > 255 {
+    // In its encoded form a name is one byte longer than its text.
+    if name.len() > 254 {
         return Err(NameErr::LongName);
     }
     if !name.ends_with('.') {
@@ -152,6 +153,9 @@ fn validate_label(label: &str) -> Result<(), NameErr> {
     if label.len() == 0 {
         return Err(NameErr::MalformedLabel("empty label"));
     }
+    if label.len() > 63 {
+        return Err(NameErr::LongLabel);
+    }
     let first = label.chars().next().unwrap();
     let last = label.chars().last().unwrap();
     if !first.is_ascii_alphanumeric() {
-- 
2.43.0


From 6646fbf0a9b3ad54f8a1ff20f84d948badf41e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:23 +0000
Subject: [PATCH 08/42] fix: reject encoded labels which contain a dot

Such a label was silently turned into two labels, that is another name.
---
 src/shared/dns/name.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/shared/dns/name.rs b/src/shared/dns/name.rs
index c81ef75..77dfb90 100644
--- a/src/shared/dns/name.rs
+++ b/src/shared/dns/name.rs
@@ -76,6 +76,9 @@ impl Name {
                         name_bytes.push('.' as u8);
                     }
                     let label_bytes = check_end(buffer.read_bytes_vec(len_byte as usize))?;
+                    if label_bytes.contains(&('.' as u8)) {
+                        return Err(NameErr::MalformedLabel("dot inside label"));
+                    }
                     name_bytes.extend(label_bytes);
                     if name_bytes.len() > 255 {
                         return Err(NameErr::LongName);
-- 
2.43.0


From eafc7c75dceeb792290e08a0f58e051ed219b519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:23 +0000
Subject: [PATCH 09/42] fix: compare domain names ignoring the case of ASCII
 letters

A query in another case than the zone file was answered with a name error,
and a delegation in another case than the query was not recognised.
---
 src/shared/dns/name.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/shared/dns/name.rs b/src/shared/dns/name.rs
index 77dfb90..5e94a48 100644
--- a/src/shared/dns/name.rs
+++ b/src/shared/dns/name.rs
@@ -1,15 +1,29 @@
 use crate::shared::buffer::*;
 use serde::{Deserialize, Serialize};
 use std::fmt::{self, Display, Formatter};
+use std::hash::{Hash, Hasher};
 use std::str;
 
 /// A wrapper for domain names. The [`Name`] struct is used to hold valid
 /// absolute domain names. This is the invariant that must be guaranteed
 /// in every method that creates or modifies names. [`Name`] implements
 /// `AsRef<str>`, so a reference to the inner string can be easily obtained.  
-#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
+/// Names are compared ignoring the case of ASCII letters.
+#[derive(Debug, Clone, Eq, Serialize, Deserialize)]
 pub struct Name(String);
 
+impl PartialEq for Name {
+    fn eq(&self, other: &Self) -> bool {
+        self.0.eq_ignore_ascii_case(&other.0)
+    }
+}
+
+impl Hash for Name {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        self.0.to_ascii_lowercase().hash(state);
+    }
+}
+
 impl AsRef<str> for Name {
     fn as_ref(&self) -> &str {
         &self.0
@@ -201,7 +215,7 @@ impl Name {
                 None => return false,
                 Some(v) => v,
             };
-            if nl != zl {
+            if !nl.eq_ignore_ascii_case(zl) {
                 return false;
             }
         }
-- 
2.43.0


From f9bbc54d43d4a574b8adff019f0ecb7a530ff814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:56 +0000
Subject: [PATCH 10/42] fix: accept '@' wherever zone files may name the
 current origin

---
 src/nameserver/zones/parser_auth.rs | 58 +++++++----------------------
 src/nameserver/zones/utils.rs       | 11 ++++++
 2 files changed, 24 insertions(+), 45 deletions(-)

diff --git a/src/nameserver/zones/parser_auth.rs b/src/nameserver/zones/parser_auth.rs
index 061e1ef..12c8200 100644
--- a/src/nameserver/zones/parser_auth.rs
+++ b/src/nameserver/zones/parser_auth.rs
@@ -162,13 +162,14 @@ fn parse_include(tokenizer: &mut Tokenizer, state: &AuthParsingState) -> Result<
     };
 
     let mut domain_or_newline = tokenizer.next_after_blanks()?;
-    let origin = if let Token::String(mut name) = domain_or_newline {
-        domain_or_newline = tokenizer.next_after_blanks()?;
-        let name = adjust_name(&state.current_orig, &mut name)?;
-        ensure_name_in_auth_zone(&name, state.zone, state.sub_zones)?;
-        name
-    } else {
-        state.current_orig.clone()
+    let origin = match domain_or_newline {
+        Token::String(_) | Token::At => {
+            let name = parse_name(&state.current_orig, domain_or_newline)?;
+            domain_or_newline = tokenizer.next_after_blanks()?;
+            ensure_name_in_auth_zone(&name, state.zone, state.sub_zones)?;
+            name
+        }
+        _ => state.current_orig.clone(),
     };
 
     // Here should be newline/end in any case.
@@ -266,13 +267,7 @@ pub fn parse_a_record(tokens: &mut Tokenizer, rec_data: RecData) -> Result<dns::
 }
 
 pub fn parse_ns_record(tokens: &mut Tokenizer, origin: &dns::Name, rec_data: RecData) -> Result<dns::Record, ParseErr> {
-    let name = tokens.next_after_blanks()?;
-    let name = if let Token::String(mut s) = name {
-        let s = adjust_name(origin, &mut s)?;
-        s
-    } else {
-        return Err(ParseErr::UnexpectedToken(name));
-    };
+    let name = parse_name(origin, tokens.next_after_blanks()?)?;
 
     Ok(dns::Record::NS {
         node: rec_data.0,
@@ -284,15 +279,7 @@ pub fn parse_ns_record(tokens: &mut Tokenizer, origin: &dns::Name, rec_data: Rec
 }
 
 fn parse_cname_record(tokens: &mut Tokenizer, origin: &dns::Name, rec_data: RecData) -> Result<dns::Record, ParseErr> {
-    let name = tokens.next_after_blanks()?;
-    let name = match name {
-        Token::At => origin.clone(),
-        Token::String(mut s) => {
-            let s = adjust_name(origin, &mut s)?;
-            s
-        }
-        _ => return Err(ParseErr::UnexpectedToken(name)),
-    };
+    let name = parse_name(origin, tokens.next_after_blanks()?)?;
 
     Ok(dns::Record::CNAME {
         node: rec_data.0,
@@ -304,21 +291,8 @@ fn parse_cname_record(tokens: &mut Tokenizer, origin: &dns::Name, rec_data: RecD
 }
 
 fn parse_soa_record(tokens: &mut Tokenizer, origin: &dns::Name, rec_data: RecData) -> Result<dns::Record, ParseErr> {
-    let token = tokens.next_after_blanks()?;
-    let ns_name = if let Token::String(mut name) = token {
-        let name = adjust_name(origin, &mut name)?;
-        name
-    } else {
-        return Err(ParseErr::UnexpectedToken(token));
-    };
-
-    let token = tokens.next_after_blanks()?;
-    let mail_name = if let Token::String(mut name) = token {
-        let name = adjust_name(origin, &mut name)?;
-        name
-    } else {
-        return Err(ParseErr::UnexpectedToken(token));
-    };
+    let ns_name = parse_name(origin, tokens.next_after_blanks()?)?;
+    let mail_name = parse_name(origin, tokens.next_after_blanks()?)?;
 
     let mut zone_auth_params = [0_u32; 5];
     for i in 0..5 {
@@ -423,13 +397,7 @@ fn parse_mx_record(tokens: &mut Tokenizer, origin: &dns::Name, rec_data: RecData
         return Err(ParseErr::UnexpectedToken(next));
     };
 
-    let next = tokens.next_after_blanks()?;
-    let name = if let Token::String(mut mail) = next {
-        let mail = adjust_name(origin, &mut mail)?;
-        mail
-    } else {
-        return Err(ParseErr::UnexpectedToken(next));
-    };
+    let name = parse_name(origin, tokens.next_after_blanks()?)?;
 
     Ok(dns::Record::MX {
         node: rec_data.0,
diff --git a/src/nameserver/zones/utils.rs b/src/nameserver/zones/utils.rs
index e55c035..e1e6f27 100644
--- a/src/nameserver/zones/utils.rs
+++ b/src/nameserver/zones/utils.rs
@@ -76,11 +76,22 @@ pub fn adjust_name(current_origin: &dns::Name, name: &mut String) -> Result<dns:
     }
 }
 
+/// Parse the passed token as a domain name, relative to the current origin
+/// when not absolute. A free standing "@" denotes the origin itself.
+pub fn parse_name(current_origin: &dns::Name, token: Token) -> Result<dns::Name, ParseErr> {
+    match token {
+        Token::At => Ok(current_origin.clone()),
+        Token::String(mut name) => adjust_name(current_origin, &mut name),
+        _ => Err(ParseErr::UnexpectedToken(token)),
+    }
+}
+
 /// Parse the passed token as a character string. Validate it before returning.
 pub fn parse_char_string(token: Token) -> Result<String, ParseErr> {
     let (is_valid, str) = match token {
         Token::String(s) => (dns::is_valid_character_string(&s, false), s),
         Token::QString(s) => (dns::is_valid_character_string(&s, true), s),
+        Token::At => (true, "@".to_string()),
         _ => return Err(ParseErr::UnexpectedToken(token)),
     };
     if !is_valid {
-- 
2.43.0


From f00ef5e79139af0768386f75e3b06e93ca79ec1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:57 +0000
Subject: [PATCH 11/42] fix: let zone files use numbers as names and strings

---
 src/nameserver/zones/parser_auth.rs | 11 ++++++-----
 src/nameserver/zones/parser_sub.rs  |  3 ++-
 src/nameserver/zones/tokens.rs      |  7 ++++---
 src/nameserver/zones/utils.rs       | 10 +++++-----
 4 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/nameserver/zones/parser_auth.rs b/src/nameserver/zones/parser_auth.rs
index 12c8200..90e8cdc 100644
--- a/src/nameserver/zones/parser_auth.rs
+++ b/src/nameserver/zones/parser_auth.rs
@@ -101,6 +101,7 @@ fn parse_entries(tokenizer: &mut Tokenizer, state: &mut AuthParsingState) -> Res
             Token::OriginDir => parse_origin(tokenizer, &state),
             Token::IncludeDir => parse_include(tokenizer, &state),
             Token::String(_) => parse_record(tokenizer, &state),
+            Token::Number(..) => parse_record(tokenizer, &state),
             Token::At => parse_record(tokenizer, &state),
             Token::Blank => parse_record(tokenizer, &state),
             _ => Err(ParseErr::UnexpectedToken(next_token)),
@@ -156,14 +157,14 @@ fn parse_include(tokenizer: &mut Tokenizer, state: &AuthParsingState) -> Result<
 
     let file_name = tokenizer.next_after_blanks()?;
     let file_name = match file_name {
-        Token::Number(n) => n.to_string(),
+        Token::Number(_, s) => s,
         Token::String(s) => s,
         _ => return Err(ParseErr::UnexpectedToken(file_name)),
     };
 
     let mut domain_or_newline = tokenizer.next_after_blanks()?;
     let origin = match domain_or_newline {
-        Token::String(_) | Token::At => {
+        Token::String(_) | Token::Number(..) | Token::At => {
             let name = parse_name(&state.current_orig, domain_or_newline)?;
             domain_or_newline = tokenizer.next_after_blanks()?;
             ensure_name_in_auth_zone(&name, state.zone, state.sub_zones)?;
@@ -186,7 +187,7 @@ fn parse_record(tokenizer: &mut Tokenizer, state: &AuthParsingState) -> Result<Z
     let node = match tokenizer.next() {
         Ok(Token::Blank) => state.current_orig.clone(),
         Ok(Token::At) => state.current_orig.clone(),
-        Ok(Token::String(mut name)) => {
+        Ok(Token::String(mut name) | Token::Number(_, mut name)) => {
             let name = adjust_name(&state.current_orig, &mut name)?;
             ensure_name_in_auth_zone(&name, state.zone, state.sub_zones)?;
             name
@@ -297,7 +298,7 @@ fn parse_soa_record(tokens: &mut Tokenizer, origin: &dns::Name, rec_data: RecDat
     let mut zone_auth_params = [0_u32; 5];
     for i in 0..5 {
         let next = tokens.next_after_blanks()?;
-        if let Token::Number(n) = next {
+        if let Token::Number(n, _) = next {
             zone_auth_params[i] = n;
         } else {
             return Err(ParseErr::UnexpectedToken(next));
@@ -391,7 +392,7 @@ fn parse_hinfo_record(tokenizer: &mut Tokenizer, rec_data: RecData) -> Result<dn
 
 fn parse_mx_record(tokens: &mut Tokenizer, origin: &dns::Name, rec_data: RecData) -> Result<dns::Record, ParseErr> {
     let next = tokens.next_after_blanks()?;
-    let priority = if let Token::Number(num) = next {
+    let priority = if let Token::Number(num, _) = next {
         num.try_into().or(Err(ParseErr::MalformedData(num.to_string())))?
     } else {
         return Err(ParseErr::UnexpectedToken(next));
diff --git a/src/nameserver/zones/parser_sub.rs b/src/nameserver/zones/parser_sub.rs
index cd41fbc..1715483 100644
--- a/src/nameserver/zones/parser_sub.rs
+++ b/src/nameserver/zones/parser_sub.rs
@@ -52,6 +52,7 @@ fn parse_entries(tokenizer: &mut Tokenizer, state: &mut SubParsingState) -> Resu
         let line = tokenizer.line();
         let record = match &next_token {
             Token::String(_) => parse_record(tokenizer, &state),
+            Token::Number(..) => parse_record(tokenizer, &state),
             Token::At => parse_record(tokenizer, &state),
             Token::Blank => parse_record(tokenizer, &state),
             _ => {
@@ -79,7 +80,7 @@ fn parse_record(tokenizer: &mut Tokenizer, state: &SubParsingState) -> Result<dn
     let node = match tokenizer.next() {
         Ok(Token::Blank) => state.zone.clone(),
         Ok(Token::At) => state.zone.clone(),
-        Ok(Token::String(mut node)) => {
+        Ok(Token::String(mut node) | Token::Number(_, mut node)) => {
             let node = adjust_name(&state.zone, &mut node)?;
             ensure_name_in_zone(&node, &state.zone)?;
             node
diff --git a/src/nameserver/zones/tokens.rs b/src/nameserver/zones/tokens.rs
index a308e09..b69c0c3 100644
--- a/src/nameserver/zones/tokens.rs
+++ b/src/nameserver/zones/tokens.rs
@@ -1,14 +1,15 @@
 use std::fs;
 use std::io::{self, BufRead, BufReader};
 
-/// The different types of tokens returned by the [`Tokenizer`].
+/// The different types of tokens returned by the [`Tokenizer`]. Numbers
+/// come with their text, since they could also be names or strings.
 #[derive(Debug, Clone)]
 pub enum Token {
     OriginDir,
     IncludeDir,
     QString(String),
     String(String),
-    Number(u32),
+    Number(u32, String),
     Blank,
     NewLine,
     End,
@@ -279,7 +280,7 @@ impl Tokenizer {
         }
         match str.parse::<u32>() {
             Err(_) => Ok(Token::String(str)),
-            Ok(n) => Ok(Token::Number(n)),
+            Ok(n) => Ok(Token::Number(n, str)),
         }
     }
 
diff --git a/src/nameserver/zones/utils.rs b/src/nameserver/zones/utils.rs
index e1e6f27..c8c1319 100644
--- a/src/nameserver/zones/utils.rs
+++ b/src/nameserver/zones/utils.rs
@@ -9,7 +9,7 @@ pub fn parse_ttl_class(tokenizer: &mut Tokenizer) -> Result<(Option<u32>, Option
     let next_token = tokenizer.peek_after_blanks()?;
 
     // Try the ttl [class] format.
-    if let Token::Number(n) = next_token {
+    if let Token::Number(n, _) = next_token {
         tokenizer.next().unwrap(); // discard the peeked token
         let class_or_type = tokenizer.peek_after_blanks()?;
         return if let Ok(class) = try_to_class(&class_or_type) {
@@ -43,7 +43,7 @@ pub fn parse_ttl_class(tokenizer: &mut Tokenizer) -> Result<(Option<u32>, Option
 }
 
 fn try_to_ttl(token: &Token) -> Result<u32, ()> {
-    if let Token::Number(n) = token {
+    if let Token::Number(n, _) = token {
         Ok(*n)
     } else {
         Err(())
@@ -81,7 +81,7 @@ pub fn adjust_name(current_origin: &dns::Name, name: &mut String) -> Result<dns:
 pub fn parse_name(current_origin: &dns::Name, token: Token) -> Result<dns::Name, ParseErr> {
     match token {
         Token::At => Ok(current_origin.clone()),
-        Token::String(mut name) => adjust_name(current_origin, &mut name),
+        Token::String(mut name) | Token::Number(_, mut name) => adjust_name(current_origin, &mut name),
         _ => Err(ParseErr::UnexpectedToken(token)),
     }
 }
@@ -89,7 +89,7 @@ pub fn parse_name(current_origin: &dns::Name, token: Token) -> Result<dns::Name,
 /// Parse the passed token as a character string. Validate it before returning.
 pub fn parse_char_string(token: Token) -> Result<String, ParseErr> {
     let (is_valid, str) = match token {
-        Token::String(s) => (dns::is_valid_character_string(&s, false), s),
+        Token::String(s) | Token::Number(_, s) => (dns::is_valid_character_string(&s, false), s),
         Token::QString(s) => (dns::is_valid_character_string(&s, true), s),
         Token::At => (true, "@".to_string()),
         _ => return Err(ParseErr::UnexpectedToken(token)),
@@ -109,7 +109,7 @@ pub fn discard_strings_until_newline(tokenizer: &mut Tokenizer) -> Result<(), Pa
         match token {
             Token::NewLine => break,
             Token::End => break,
-            Token::String(_) => {
+            Token::String(_) | Token::Number(..) => {
                 tokenizer.next_after_blanks().unwrap();
                 continue;
             }
-- 
2.43.0


From aab501e4388941df5a15888a32d19f27761d3055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:58 +0000
Subject: [PATCH 12/42] fix: complete relative names of zone files when the
 origin is the root

---
 src/nameserver/zones/utils.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nameserver/zones/utils.rs b/src/nameserver/zones/utils.rs
index c8c1319..adfbb1d 100644
--- a/src/nameserver/zones/utils.rs
+++ b/src/nameserver/zones/utils.rs
@@ -68,7 +68,9 @@ pub fn adjust_name(current_origin: &dns::Name, name: &mut String) -> Result<dns:
     }
     if !name.ends_with('.') {
         name.push('.');
-        name.push_str(current_origin.as_ref());
+        if current_origin.as_ref() != "." {
+            name.push_str(current_origin.as_ref());
+        }
     }
     match dns::Name::from_string(name) {
         Ok(name) => Ok(name),
-- 
2.43.0


From be3a015915c2c3845f8ad36e1ed10b0932495ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:59 +0000
Subject: [PATCH 13/42] fix: read decimal escapes of zone files

---
 src/nameserver/zones/tokens.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/nameserver/zones/tokens.rs b/src/nameserver/zones/tokens.rs
index b69c0c3..1b1dbeb 100644
--- a/src/nameserver/zones/tokens.rs
+++ b/src/nameserver/zones/tokens.rs
@@ -290,11 +290,21 @@ impl Tokenizer {
         self.pos = self.line_chars.len();
     }
 
+    // Parse an escape sequence: either a backslash followed by the three decimal
+    // digits of the character code, or a backslash followed by the character.
     fn parse_escape(&mut self) -> Result<char, TokenErr> {
         assert_eq!(self.line_chars[self.pos], '\\');
         if self.pos + 1 >= self.line_chars.len() {
             return Err(TokenErr::InvalidEscape);
         }
+        let digits: String = self.line_chars[self.pos + 1..].iter().take(3).collect();
+        if digits.len() == 3 && digits.chars().all(|ch| ch.is_ascii_digit()) {
+            self.pos += 4;
+            return match digits.parse::<u8>() {
+                Err(_) => Err(TokenErr::InvalidEscape),
+                Ok(n) => Ok(n as char),
+            };
+        }
         let ch_esc = Ok(self.line_chars[self.pos + 1]);
         self.pos += 2;
         ch_esc
-- 
2.43.0


From 14596e6d029c40bc1d0aee18aa8ded9befde61cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:26 +0000
Subject: [PATCH 14/42] fix: do not read past the line after escapes in zone
 files

---
 src/nameserver/zones/tokens.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nameserver/zones/tokens.rs b/src/nameserver/zones/tokens.rs
index 1b1dbeb..02404c6 100644
--- a/src/nameserver/zones/tokens.rs
+++ b/src/nameserver/zones/tokens.rs
@@ -158,7 +158,7 @@ impl Tokenizer {
     // Consume all consecutive whitespaces and return the corresponding token.
     fn process_whitespace(&mut self) -> Token {
         assert!(self.line_chars[self.pos].is_whitespace());
-        for _ in self.pos..self.line_chars.len() {
+        while self.pos < self.line_chars.len() {
             let ch = self.line_chars[self.pos];
             if ch.is_whitespace() {
                 self.pos += 1;
@@ -175,7 +175,7 @@ impl Tokenizer {
         let mut directive = String::from('$');
         self.pos += 1;
 
-        for _ in self.pos..self.line_chars.len() {
+        while self.pos < self.line_chars.len() {
             let ch = self.line_chars[self.pos];
             if ch == '\\' {
                 let ch = self.parse_escape()?;
@@ -207,7 +207,7 @@ impl Tokenizer {
         let mut string = String::with_capacity(20);
         let mut closed = false;
 
-        for _ in self.pos..self.line_chars.len() {
+        while self.pos < self.line_chars.len() {
             let ch = self.line_chars[self.pos];
             if ch == '\\' {
                 let ch = self.parse_escape()?;
@@ -258,7 +258,7 @@ impl Tokenizer {
     fn process_string_or_number(&mut self) -> Result<Token, TokenErr> {
         let mut str = String::with_capacity(20);
 
-        for _ in self.pos..self.line_chars.len() {
+        while self.pos < self.line_chars.len() {
             let ch = self.line_chars[self.pos];
             if ch == '\\' {
                 let ch = self.parse_escape()?;
-- 
2.43.0


From 09964fc8b38c15041bd787b7c4b16827935a1012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:34 +0000
Subject: [PATCH 15/42] fix: reject strings of zone files which do not fit the
 records

---
 src/nameserver/zones/parser_auth.rs | 7 +++++++
 src/shared/dns/utils.rs             | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/src/nameserver/zones/parser_auth.rs b/src/nameserver/zones/parser_auth.rs
index 90e8cdc..fc7c812 100644
--- a/src/nameserver/zones/parser_auth.rs
+++ b/src/nameserver/zones/parser_auth.rs
@@ -425,6 +425,13 @@ fn parse_txt_record(tokenizer: &mut Tokenizer, rec_data: RecData) -> Result<dns:
         };
     }
 
+    // At least one string is required, and all of them must fit the record data.
+    let txts_len = txts.iter().map(|txt| txt.len() + 1).sum::<usize>();
+    if txts.is_empty() || txts_len > u16::MAX as usize {
+        let err_msg = format!("invalid length of TXT data: {}", txts_len);
+        return Err(ParseErr::MalformedData(err_msg));
+    }
+
     Ok(dns::Record::TXT {
         node: rec_data.0,
         class: rec_data.1,
diff --git a/src/shared/dns/utils.rs b/src/shared/dns/utils.rs
index 793b631..6b4bff2 100644
--- a/src/shared/dns/utils.rs
+++ b/src/shared/dns/utils.rs
@@ -30,6 +30,9 @@ pub fn encode_character_string(string: &str) -> Result<Vec<u8>, ParsingErr> {
 }
 
 pub fn is_valid_character_string(s: &str, quoted: bool) -> bool {
+    if s.len() > 255 {
+        return false;
+    }
     if quoted {
         s.chars().all(|ch| ch.is_ascii())
     } else {
-- 
2.43.0


From 4a8b6ccec2ec9dad5dd5040709b7ff5bf5c10b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:11 +0000
Subject: [PATCH 16/42] fix: treat every whitespace character as such in zone
 files

---
 src/nameserver/zones/tokens.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nameserver/zones/tokens.rs b/src/nameserver/zones/tokens.rs
index 02404c6..31707fc 100644
--- a/src/nameserver/zones/tokens.rs
+++ b/src/nameserver/zones/tokens.rs
@@ -84,7 +84,7 @@ impl Tokenizer {
         // Parse the token. Note that some branches only consume
         // some characters and invoke 'next' recursively.
         match self.line_chars[self.pos] {
-            ' ' | '\t' => Ok(self.process_whitespace()),
+            ch if ch.is_whitespace() => Ok(self.process_whitespace()),
             '$' => self.process_directive(),
             '"' => self.process_quoted_string(),
             '(' => {
-- 
2.43.0


From 6aab899f020bfbe367d415bd598d118aa6cd1e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:52 +0000
Subject: [PATCH 17/42] fix: read zone files with many parentheses or comments
 without recursion

---
 src/nameserver/zones/tokens.rs | 53 +++++++++++++++-------------------
 1 file changed, 23 insertions(+), 30 deletions(-)

diff --git a/src/nameserver/zones/tokens.rs b/src/nameserver/zones/tokens.rs
index 31707fc..88f4576 100644
--- a/src/nameserver/zones/tokens.rs
+++ b/src/nameserver/zones/tokens.rs
@@ -67,39 +67,32 @@ impl Tokenizer {
             return Ok(self.peeked.remove(0));
         }
 
-        if self.line_chars.len() == self.pos {
-            let new_line_load = self.load_new_line()?;
-            if let None = new_line_load {
-                return if self.multiline {
-                    Err(TokenErr::MlMissingClose)
-                } else {
-                    Ok(Token::End)
-                };
-            }
-            if !self.multiline {
-                return Ok(Token::NewLine);
+        loop {
+            if self.line_chars.len() == self.pos {
+                let new_line_load = self.load_new_line()?;
+                if let None = new_line_load {
+                    return if self.multiline {
+                        Err(TokenErr::MlMissingClose)
+                    } else {
+                        Ok(Token::End)
+                    };
+                }
+                if !self.multiline {
+                    return Ok(Token::NewLine);
+                }
             }
-        }
 
-        // Parse the token. Note that some branches only consume
-        // some characters and invoke 'next' recursively.
-        match self.line_chars[self.pos] {
-            ch if ch.is_whitespace() => Ok(self.process_whitespace()),
-            '$' => self.process_directive(),
-            '"' => self.process_quoted_string(),
-            '(' => {
-                self.process_multi_line()?;
-                self.next()
-            }
-            ')' => {
-                self.process_close_multi()?;
-                self.next()
-            }
-            ';' => {
-                self.process_comment();
-                self.next()
+            // Parse the token. Note that some branches only consume
+            // some characters and then look for the next token.
+            match self.line_chars[self.pos] {
+                '$' => return self.process_directive(),
+                '"' => return self.process_quoted_string(),
+                '(' => self.process_multi_line()?,
+                ')' => self.process_close_multi()?,
+                ';' => self.process_comment(),
+                ch if ch.is_whitespace() => return Ok(self.process_whitespace()),
+                _ => return self.process_string_or_number(),
             }
-            _ => self.process_string_or_number(),
         }
     }
 
-- 
2.43.0


From b98856e144f2afa4339c1148ebf76892b6a1a7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:03 +0000
Subject: [PATCH 18/42] fix: limit the depth of nested included files

---
 src/nameserver/zones/parser_auth.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/nameserver/zones/parser_auth.rs b/src/nameserver/zones/parser_auth.rs
index fc7c812..fd254a8 100644
--- a/src/nameserver/zones/parser_auth.rs
+++ b/src/nameserver/zones/parser_auth.rs
@@ -22,8 +22,13 @@ struct AuthParsingState<'a> {
     pub current_orig: dns::Name,
     pub current_ttl: u32,
     pub min_ttl: u32,
+    pub include_depth: usize,
 }
 
+/// Max number of nested included files. Files including
+/// themselves would otherwise be read endlessly.
+const MAX_INCLUDE_DEPTH: usize = 100;
+
 /// Parse the zone file related to the authoritative zone managed by the nameserver.
 /// A [`Zone`] object is returned, holding the zone records. The zone file could use
 /// the 'include' directive further files.
@@ -42,6 +47,7 @@ pub fn parse_auth_zone_file(conf: &ParsingParams) -> Result<Zone, ParseErrCtx> {
         current_orig: conf.zone.clone(),
         current_ttl: conf.starting_ttl,
         min_ttl: 0,
+        include_depth: 0,
     };
 
     let soa_record = parse_starting_soa_record(&mut tokenizer, &mut parsing_state);
@@ -63,6 +69,10 @@ pub fn parse_auth_zone_file(conf: &ParsingParams) -> Result<Zone, ParseErrCtx> {
 /// the parent parsing state is left untouched.
 fn parse_included_file(file_path: String, origin: dns::Name, p_state: &AuthParsingState) -> Result<Zone, ParseErrCtx> {
     log::info!("Including {:?}", file_path);
+    if p_state.include_depth >= MAX_INCLUDE_DEPTH {
+        let err_msg = format!("too many nested included files: '{}'", file_path);
+        return Err((ParseErr::MalformedData(err_msg), p_state.current_file.to_string()));
+    }
     let mut tokenizer = match Tokenizer::from_file(&file_path) {
         Err(err) => return Err((ParseErr::ReadingErr(err), p_state.current_file.to_string())),
         Ok(v) => v,
@@ -75,6 +85,7 @@ fn parse_included_file(file_path: String, origin: dns::Name, p_state: &AuthParsi
         current_orig: origin,
         current_ttl: p_state.current_ttl,
         min_ttl: p_state.min_ttl,
+        include_depth: p_state.include_depth + 1,
     };
 
     parse_entries(&mut tokenizer, &mut child_state)
-- 
2.43.0


From 4fb200add8f61c8db5737db6a2c6025806c5810b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:27 +0000
Subject: [PATCH 19/42] fix: reply to requests that cannot be decoded instead
 of panicking

The counters of the request header were kept in the reply, whose sections
are empty, so encoding the reply panicked.
---
 src/nameserver/handler.rs | 7 ++++++-
 src/resolver/handler.rs   | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/nameserver/handler.rs b/src/nameserver/handler.rs
index a642b17..1e5f1f8 100644
--- a/src/nameserver/handler.rs
+++ b/src/nameserver/handler.rs
@@ -164,7 +164,12 @@ fn handle_decode_err<W: DnsWrite>(resp: W, req_header: dns::Header, msg_err: dns
         dns::ParsingErr::UnsupportedType(_) => dns::RespCode::NotImp,
         _ => dns::RespCode::FormErr,
     };
-    let resp_header = resp_header_from_req_header(&req_header, resp_code);
+    // No section of the request is sent back, whatever its header announced.
+    let mut resp_header = resp_header_from_req_header(&req_header, resp_code);
+    resp_header.questions_count = 0;
+    resp_header.answers_count = 0;
+    resp_header.authorities_count = 0;
+    resp_header.additionals_count = 0;
     let dns_response = dns::Message {
         header: resp_header,
         questions: vec![],
diff --git a/src/resolver/handler.rs b/src/resolver/handler.rs
index 5cf6baf..bd0a1fb 100644
--- a/src/resolver/handler.rs
+++ b/src/resolver/handler.rs
@@ -93,7 +93,12 @@ fn handle_decode_err<W: DnsWrite>(resp: W, req_header: dns::Header, msg_err: dns
         dns::ParsingErr::UnsupportedType(_) => dns::RespCode::NotImp,
         _ => dns::RespCode::FormErr,
     };
-    let resp_header = resp_header_from_req_header(&req_header, resp_code);
+    // No section of the request is sent back, whatever its header announced.
+    let mut resp_header = resp_header_from_req_header(&req_header, resp_code);
+    resp_header.questions_count = 0;
+    resp_header.answers_count = 0;
+    resp_header.authorities_count = 0;
+    resp_header.additionals_count = 0;
     let dns_response = dns::Message {
         header: resp_header,
         questions: vec![],
-- 
2.43.0


From d482d3f37df4aa0bfc113a490b543ac0018c091c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:27 +0000
Subject: [PATCH 20/42] fix: reply to requests with an unsupported operation
 code

The reply carries the operation code of the request, but encoding a header
asserted that the code was supported.
---
 src/shared/dns/header.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/shared/dns/header.rs b/src/shared/dns/header.rs
index 165c4f3..98afb80 100644
--- a/src/shared/dns/header.rs
+++ b/src/shared/dns/header.rs
@@ -85,10 +85,9 @@ impl Header {
     }
 
     /// Encode a dns [`Header`] to raw bytes, writing them into the provided
-    /// buffer. The function panics if some unsupported op codes are provided
-    /// (this helps maintaining invariants about supported features).
+    /// buffer. Unsupported op codes are encoded too, since responses must
+    /// carry the op code of the request, even to say it is not implemented.
     pub fn encode_to_buf(&self, buffer: &mut BitsBuf) {
-        assert!(self.op_code.is_supported());
         buffer.write_u16(self.id);
         buffer.write_bits(self.query_resp as u8, 1);
         buffer.write_bits(self.op_code.to_num(), 4);
-- 
2.43.0


From 98638c60f479a7f58ba4444b359a5efbd67cd8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:27 +0000
Subject: [PATCH 21/42] fix: do not copy the truncation flag of the request
 into the reply

---
 src/nameserver/handler.rs | 1 +
 src/resolver/handler.rs   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/nameserver/handler.rs b/src/nameserver/handler.rs
index 1e5f1f8..819704a 100644
--- a/src/nameserver/handler.rs
+++ b/src/nameserver/handler.rs
@@ -237,6 +237,7 @@ fn reply<W: DnsWrite>(resp: W, dns_response: dns::Message) {
 fn resp_header_from_req_header(req_header: &dns::Header, resp_code: dns::RespCode) -> dns::Header {
     dns::Header {
         query_resp: true,
+        truncated: false,
         auth_answer: false,
         recursion_available: false,
         z: 0,
diff --git a/src/resolver/handler.rs b/src/resolver/handler.rs
index bd0a1fb..ecb43d0 100644
--- a/src/resolver/handler.rs
+++ b/src/resolver/handler.rs
@@ -144,6 +144,7 @@ fn reply<W: DnsWrite>(resp: W, dns_response: dns::Message) {
 fn resp_header_from_req_header(req_header: &dns::Header, resp_code: dns::RespCode) -> dns::Header {
     dns::Header {
         query_resp: true,
+        truncated: false,
         auth_answer: false,
         recursion_available: true,
         z: 0,
-- 
2.43.0


From 60d5fb8107eb6f73c5ceb209e3602557a89eea5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:13 +0000
Subject: [PATCH 22/42] fix: keep pool workers alive when a job panics

A panicking job ended its worker thread. When the last worker was gone the
next submission panicked too, and dropping the pool while unwinding aborted
the process.
---
 src/shared/thread_pool.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/shared/thread_pool.rs b/src/shared/thread_pool.rs
index 0e83e0f..564e1bd 100644
--- a/src/shared/thread_pool.rs
+++ b/src/shared/thread_pool.rs
@@ -1,5 +1,5 @@
 use std::sync::{mpsc, Arc, Mutex};
-use std::thread;
+use std::{panic, thread};
 
 /// Represents and controls a pool of OS threads, which can receive jobs (`FnOnce`
 /// pointers) to be executed. Threads are spawned when the pool is created via the
@@ -78,7 +78,12 @@ impl Worker {
             drop(receiver_guard);
             match worker_message {
                 WorkerMessage::Stop => return,
-                WorkerMessage::Job(job_fn) => job_fn(),
+                WorkerMessage::Job(job_fn) => {
+                    // A failing job must not take down the thread with it.
+                    if panic::catch_unwind(panic::AssertUnwindSafe(job_fn)).is_err() {
+                        log::error!("Job panicked.");
+                    }
+                }
             }
         });
 
-- 
2.43.0


From e42d87c734695dedac9f06f2b778476a1a430ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:13 +0000
Subject: [PATCH 23/42] fix: truncate TCP replies which do not fit in the
 length prefix

The length was cut to 16 bits while all bytes were sent, which broke the
framing of the reply.
---
 src/shared/net/tcp_server.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/shared/net/tcp_server.rs b/src/shared/net/tcp_server.rs
index de94449..4c98068 100644
--- a/src/shared/net/tcp_server.rs
+++ b/src/shared/net/tcp_server.rs
@@ -41,7 +41,11 @@ pub struct TcpResponse(net::TcpStream);
 
 impl DnsWrite for TcpResponse {
     fn reply(mut self, response: dns::Message) -> io::Result<()> {
-        let resp_bytes = response.encode_to_bytes().unwrap();
+        // Messages longer than the length prefix can tell are truncated.
+        let mut resp_bytes = response.encode_to_bytes().unwrap();
+        if resp_bytes.len() > u16::MAX as usize {
+            resp_bytes = response.encode_to_bytes_trunc().unwrap();
+        }
         let resp_len = resp_bytes.len() as u16;
         let buf = [(resp_len >> 8) as u8, (resp_len) as u8];
         self.0.write_all(&buf)?;
-- 
2.43.0


From df76a13625b9f549bd9b9d2057d309038ae7f314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:53 +0000
Subject: [PATCH 24/42] fix: check the stop signal before blocking on the
 listening sockets

---
 src/shared/net/tcp_server.rs | 7 +++++++
 src/shared/net/udp_server.rs | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/shared/net/tcp_server.rs b/src/shared/net/tcp_server.rs
index 4c98068..20ebd05 100644
--- a/src/shared/net/tcp_server.rs
+++ b/src/shared/net/tcp_server.rs
@@ -89,6 +89,13 @@ where
     // Loop accepting TCP connections. When a new one is accepted, read
     // it and delegate the request processing to a thread in the pool.
     loop {
+        // The signal to exit could have been sent before the socket was bound,
+        // in that case nobody is going to wake up this server.
+        if stop.load(atomic::Ordering::SeqCst) {
+            drop(threads_pool);
+            return;
+        }
+
         let (mut tcp_stream, _) = match tcp_socket.accept() {
             Ok(v) => v,
             Err(err) => {
diff --git a/src/shared/net/udp_server.rs b/src/shared/net/udp_server.rs
index 14f9c09..8c0e1ba 100644
--- a/src/shared/net/udp_server.rs
+++ b/src/shared/net/udp_server.rs
@@ -75,6 +75,13 @@ where
     // Loop receiving UDP messages. When a new request arrives, read
     // it and delegate request handling to a thread in the pool.
     loop {
+        // The signal to exit could have been sent before the socket was bound,
+        // in that case nobody is going to wake up this server.
+        if stop.load(atomic::Ordering::SeqCst) {
+            drop(threads_pool);
+            return;
+        }
+
         let mut buffer = [0; dns::MAX_UDP_LEN_BYTES];
         let (n_read, src_addr) = match socket.recv_from(&mut buffer) {
             Ok(read_data) => read_data,
-- 
2.43.0


From 629d918beefb9ebab1dc701396be09362d22f2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:53 +0000
Subject: [PATCH 25/42] fix: wake up UDP servers listening on IPv6 addresses

---
 src/shared/net/setup.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/shared/net/setup.rs b/src/shared/net/setup.rs
index 2d1a8d2..8d1fbe5 100644
--- a/src/shared/net/setup.rs
+++ b/src/shared/net/setup.rs
@@ -48,9 +48,13 @@ pub fn start_servers<H: DnsHandler>(handler: Arc<H>, udp_params: UdpParams, tcp_
 #[allow(unused_must_use)]
 fn wake_up_servers(udp_conf: &UdpParams, tcp_conf: &TcpParams) {
     let udp_server_addr: (&str, u16) = (&udp_conf.address, udp_conf.port);
-    match net::UdpSocket::bind("0.0.0.0:0") {
-        Ok(udp_sock) => udp_sock.send_to(&[0], udp_server_addr),
-        Err(_) => return,
+    // The address family of the socket must be the one of the server.
+    let local_addr = match udp_conf.address.parse::<net::IpAddr>() {
+        Ok(net::IpAddr::V6(_)) => "[::]:0",
+        _ => "0.0.0.0:0",
+    };
+    if let Ok(udp_sock) = net::UdpSocket::bind(local_addr) {
+        udp_sock.send_to(&[0], udp_server_addr);
     };
     let tcp_server_addr: (&str, u16) = (&tcp_conf.address, tcp_conf.port);
     match net::TcpStream::connect(tcp_server_addr) {
-- 
2.43.0


From c695e8ebadbe9b632d308ec0e9aee67f389d441f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:53 +0000
Subject: [PATCH 26/42] fix: do not panic when requests in progress outlast the
 shutdown

---
 src/shared/net/setup.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/shared/net/setup.rs b/src/shared/net/setup.rs
index 8d1fbe5..15c4107 100644
--- a/src/shared/net/setup.rs
+++ b/src/shared/net/setup.rs
@@ -39,7 +39,9 @@ pub fn start_servers<H: DnsHandler>(handler: Arc<H>, udp_params: UdpParams, tcp_
     rx.recv().unwrap();
     stop.store(true, atomic::Ordering::SeqCst);
     wake_up_servers(&udp_params, &tcp_params);
-    rx.recv_timeout(time::Duration::from_secs(4)).unwrap();
+    if rx.recv_timeout(time::Duration::from_secs(4)).is_err() {
+        log::warn!("Requests still in progress while shutting down.");
+    }
 }
 
 /// Dirty hack. The only way to interrupt the UDP 'recv' and the TCP 'accept' calls
-- 
2.43.0


From 731b005669729ba725f35883e9c3c372d1aa8d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:53 +0000
Subject: [PATCH 27/42] fix: stop the service when the thread of a server
 panics

---
 src/shared/net/setup.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/shared/net/setup.rs b/src/shared/net/setup.rs
index 15c4107..616e93b 100644
--- a/src/shared/net/setup.rs
+++ b/src/shared/net/setup.rs
@@ -16,22 +16,22 @@ pub fn start_servers<H: DnsHandler>(handler: Arc<H>, udp_params: UdpParams, tcp_
     let udp_params_clone = udp_params.clone();
     let handler_clone = Arc::clone(&handler);
     let stop_clone = Arc::clone(&stop);
-    let tx_clone = tx.clone();
+    let exit_notifier = ExitNotifier(tx.clone());
     thread::spawn(move || {
+        let _exit_notifier = exit_notifier;
         start_udp_server(handler_clone, udp_params_clone, &stop_clone);
         log::warn!("UDP server shut down.");
-        tx_clone.send(()).unwrap();
     });
 
     // Setup tcp parameters and spawn the tcp server in a new thread.
     let tcp_params_clone = tcp_params.clone();
     let handler_clone = Arc::clone(&handler);
     let stop_clone = Arc::clone(&stop);
-    let tx_clone = tx.clone();
+    let exit_notifier = ExitNotifier(tx.clone());
     thread::spawn(move || {
+        let _exit_notifier = exit_notifier;
         start_tcp_server(handler_clone, tcp_params_clone, &stop_clone);
         log::warn!("TCP server shut down.");
-        tx_clone.send(()).unwrap();
     });
 
     // Wait for errors or teardowns. Note that in any case
@@ -44,6 +44,16 @@ pub fn start_servers<H: DnsHandler>(handler: Arc<H>, udp_params: UdpParams, tcp_
     }
 }
 
+/// Notifies the end of the thread which owns it, even if the thread panicked. The
+/// receiving end could be gone, if the teardown of the server took too long.
+struct ExitNotifier(mpsc::Sender<()>);
+
+impl Drop for ExitNotifier {
+    fn drop(&mut self) {
+        let _ = self.0.send(());
+    }
+}
+
 /// Dirty hack. The only way to interrupt the UDP 'recv' and the TCP 'accept' calls
 /// is sending them a message. Those calls are blocking and without this hack the
 /// servers cannot unblock and check the stop signal (and so exit properly).
-- 
2.43.0


From 99e65b9a84bc1bc766e432a5738bae7c0b1a88af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:20 +0000
Subject: [PATCH 28/42] fix: compare the zones of nameservers with names label
 by label

---
 src/resolver/back_end/requests.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/resolver/back_end/requests.rs b/src/resolver/back_end/requests.rs
index 21e446e..c5f7096 100644
--- a/src/resolver/back_end/requests.rs
+++ b/src/resolver/back_end/requests.rs
@@ -111,7 +111,7 @@ pub fn perform_request(ns_req: NsRequest, trace: &mut Trace) -> Result<NsRespons
     }
 
     let current_zone = ns_req.nameserver.zone();
-    let next_nss = extract_next_nss_for_subzone(&mut dns_resp, searched_node, current_zone.as_ref());
+    let next_nss = extract_next_nss_for_subzone(&mut dns_resp, searched_node, current_zone);
     if next_nss.len() > 0 {
         return Ok(NsResponse::Delegation {
             header: dns_resp.header,
@@ -129,7 +129,7 @@ fn extract_next_nss_for_cname(response: &mut dns::Message, cname: &Name) -> Vec<
     authority_records
         .into_iter()
         .filter(|rec| rec.record_type() == dns::RecordType::NS)
-        .filter(|rec| cname.as_ref().ends_with(rec.node().as_ref()))
+        .filter(|rec| cname.is_in_zone(rec.node()))
         .map(|next_record| {
             let ns_node = next_record.ns_data();
             let ns_addrs = extract_records(&mut response.additionals, dns::RecordType::A, ns_node);
@@ -143,7 +143,7 @@ fn extract_next_nss_for_cname(response: &mut dns::Message, cname: &Name) -> Vec<
 
 /// Extract from the [`dns::Message`] response all records related to a sub zone
 /// delegation. Some validation is performed so some records could be discarded.
-fn extract_next_nss_for_subzone(resp: &mut dns::Message, node: &Name, zone: &str) -> Vec<NextSubzoneNs> {
+fn extract_next_nss_for_subzone(resp: &mut dns::Message, node: &Name, zone: &Name) -> Vec<NextSubzoneNs> {
     let authority_records = mem::take(&mut resp.authorities);
     authority_records
         .into_iter()
@@ -178,7 +178,7 @@ fn extract_next_nss_for_subzone(resp: &mut dns::Message, node: &Name, zone: &str
 // are looking for. Example: if we are looking for "company.com." the ns
 // record returned here cannot be authoritative over "pizza.com.".
 fn is_nameserver_authoritative_over_node(ns_zone: &Name, searched_node: &Name) -> bool {
-    if !searched_node.as_ref().ends_with(&ns_zone.as_ref()) {
+    if !searched_node.is_in_zone(ns_zone) {
         // TODO: trace?
         return false;
     }
@@ -189,8 +189,8 @@ fn is_nameserver_authoritative_over_node(ns_zone: &Name, searched_node: &Name) -
 // node than the current zone. Example: if we are looking for "s3.company.com."
 // and the ".com." nameserver responds with a NS record, the zone must be 'more'
 // than simply ".com.".
-fn is_nameserver_authority_a_subzone(ns_zone: &Name, current_zone: &str) -> bool {
-    if ns_zone.as_ref().len() <= current_zone.len() {
+fn is_nameserver_authority_a_subzone(ns_zone: &Name, current_zone: &Name) -> bool {
+    if !ns_zone.is_in_zone(current_zone) || ns_zone == current_zone {
         // TODO: trace?
         return false;
     }
@@ -201,7 +201,7 @@ fn is_nameserver_authority_a_subzone(ns_zone: &Name, current_zone: &str) -> bool
 // nameserver and no addresses are present for it. Example: the nameserver managing
 // '.com' is 'dns.com' and without an address we enter in a loop.
 fn is_nameserver_in_subzone_without_glue(ns_node: &Name, ns_zone: &Name, no_addr: bool) -> bool {
-    if ns_node.as_ref().ends_with(ns_zone.as_ref()) && no_addr {
+    if ns_node.is_in_zone(ns_zone) && no_addr {
         // TODO: trace?
         return true;
     }
-- 
2.43.0


From ae1e5d8fb1d64e55b30811f35d599cfc554ed799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:28 +0000
Subject: [PATCH 29/42] fix: do not use cached nameservers whose addresses are
 expired

---
 src/resolver/back_end/recursive.rs | 31 +++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/resolver/back_end/recursive.rs b/src/resolver/back_end/recursive.rs
index 8714691..ba6671a 100644
--- a/src/resolver/back_end/recursive.rs
+++ b/src/resolver/back_end/recursive.rs
@@ -299,17 +299,26 @@ impl<'a> Lookup<'a> {
     // Search records related to nameserver in cache and trace the outcome.
     fn search_nss_in_cache_with_trace(&mut self) -> Vec<NextSubzoneNs> {
         let domains = generate_domain_hierarchy(&self.searched_node.as_ref());
-        let ns_records: Option<Vec<dns::Record>> = domains.iter().find_map(|name| {
+        let cached_next_nss = domains.iter().find_map(|name| {
             let name = dns::Name::from_string(name).unwrap();
-            let records = search_records_in_cache(&self.cache, &name, dns::RecordType::NS);
-            if records.len() > 0 {
-                Some(records)
-            } else {
-                None
+            let ns_records = search_records_in_cache(&self.cache, &name, dns::RecordType::NS);
+            let next_nss: Vec<NextSubzoneNs> = ns_records
+                .into_iter()
+                .map(|ns_record| {
+                    let a_records = search_records_in_cache(&self.cache, ns_record.ns_data(), dns::RecordType::A);
+                    NextSubzoneNs { ns_record, a_records }
+                })
+                .collect();
+
+            // Without addresses (e.g. expired) resolving the names of the nameservers could
+            // require those same nameservers. Only the parent zone knows how to reach them.
+            match next_nss.iter().any(|next_ns| !next_ns.a_records.is_empty()) {
+                true => Some(next_nss),
+                false => None,
             }
         });
 
-        let ns_records: Vec<dns::Record> = match ns_records {
+        let cached_next_nss: Vec<NextSubzoneNs> = match cached_next_nss {
             Some(v) => v,
             None => {
                 self.trace.t_cache_ns_miss(&self.searched_node.as_ref());
@@ -317,14 +326,6 @@ impl<'a> Lookup<'a> {
             }
         };
 
-        let cached_next_nss: Vec<NextSubzoneNs> = ns_records
-            .into_iter()
-            .map(|ns_record| {
-                let a_records = search_records_in_cache(&self.cache, ns_record.ns_data(), dns::RecordType::A);
-                NextSubzoneNs { ns_record, a_records }
-            })
-            .collect();
-
         self.trace
             .t_cache_ns_hit(&self.searched_node.as_ref(), &cached_next_nss);
         cached_next_nss
-- 
2.43.0


From 77f3df84c6548be49c3450cba15ff1bff33cf969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:15 +0000
Subject: [PATCH 30/42] fix: do not shorten the lifetime of cached aliases when
 they are used

---
 src/resolver/back_end/recursive.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/resolver/back_end/recursive.rs b/src/resolver/back_end/recursive.rs
index ba6671a..8469bb0 100644
--- a/src/resolver/back_end/recursive.rs
+++ b/src/resolver/back_end/recursive.rs
@@ -144,7 +144,8 @@ impl<'a> Lookup<'a> {
                 }
                 // Cname found. Stash the cname, save data in cache and restart.
                 NsResponse::Alias { cname_rec, next_nss, .. } => {
-                    self.handle_cname(cname_rec, next_nss)?;
+                    self.handle_cname(cname_rec.clone(), next_nss)?;
+                    save_records_in_cache(&self.cache, vec![cname_rec]);
                     continue;
                 }
                 // Nothing found for the searched domain, a SOA record could be present.
@@ -168,11 +169,10 @@ impl<'a> Lookup<'a> {
     fn handle_cname(&mut self, cname_record: dns::Record, next_nss: Vec<NextSubzoneNs>) -> Result<(), LookupErrCtx> {
         let cname = cname_record.cname_data().clone();
         detect_cname_loops(&cname_record, &self.previous_cnames)?;
-        self.previous_cnames.push(cname_record.clone());
+        self.previous_cnames.push(cname_record);
         if self.conf.no_follow_cname {
             return Err((cname.to_string(), LookupErr::UnexpectedCname));
         }
-        save_records_in_cache(&self.cache, vec![cname_record]);
         self.next_nss = next_nss;
         self.searched_node = cname;
         Ok(())
-- 
2.43.0


From 09010843173907904fe6ec8ddf05c9007ec0e205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:59 +0000
Subject: [PATCH 31/42] fix: do not panic when the name of a nameserver has no
 addresses

---
 src/resolver/back_end/recursive.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/resolver/back_end/recursive.rs b/src/resolver/back_end/recursive.rs
index 8469bb0..2024519 100644
--- a/src/resolver/back_end/recursive.rs
+++ b/src/resolver/back_end/recursive.rs
@@ -263,7 +263,10 @@ impl<'a> Lookup<'a> {
         let (response, sub_trace) = resolver.perform();
         self.trace.add_sub_trace(sub_trace);
         match response {
-            Ok(mut v) => Ok(extract_records(&mut v.0, dns::RecordType::A, node)),
+            Ok(mut v) => match extract_records(&mut v.0, dns::RecordType::A, node) {
+                addrs if addrs.is_empty() => Err((node.to_string(), LookupErr::UnexpectedEmptyResp)),
+                addrs => Ok(addrs),
+            },
             Err(err) => return Err(err),
         }
     }
-- 
2.43.0


From 49bc52781b85583cbb5a0250adc042fe66858fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:46 +0000
Subject: [PATCH 32/42] fix: limit the requests and the nesting of a lookup

---
 src/resolver/back_end/errors.rs    |  1 +
 src/resolver/back_end/recursive.rs | 26 +++++++++++++++++++++++---
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/resolver/back_end/errors.rs b/src/resolver/back_end/errors.rs
index 84ba1e7..ea94563 100644
--- a/src/resolver/back_end/errors.rs
+++ b/src/resolver/back_end/errors.rs
@@ -17,6 +17,7 @@ pub enum LookupErr {
     CnamesLoop,
     UnexpectedCname,
     MaxCnameRedir,
+    MaxRequests,
 
     // Error resolving a sub-lookup,
     // usually resolving a NS name.
diff --git a/src/resolver/back_end/recursive.rs b/src/resolver/back_end/recursive.rs
index 2024519..21e7709 100644
--- a/src/resolver/back_end/recursive.rs
+++ b/src/resolver/back_end/recursive.rs
@@ -7,6 +7,13 @@ use crate::shared::dns;
 use std::sync::Arc;
 use std::{mem, time};
 
+/// The maximum number of requests to external nameservers made to perform a lookup,
+/// including its sub-lookups. Malicious nameservers could require many more.
+const MAX_REQUESTS: usize = 200;
+
+/// The maximum number of nested sub-lookups.
+const MAX_SUB_LOOKUPS: usize = 16;
+
 /// The resolver parameters passed to the [`Resolver`] constructor.
 /// A good default configuration is provided via the [`Default`] trait.
 #[derive(Debug, Clone)]
@@ -65,6 +72,7 @@ impl Resolver {
             previous_cnames: vec![],
             cache: &self.cache,
             next_nss: vec![],
+            requests: 0,
             conf: self.rsv_conf.clone(),
             trace,
         }
@@ -80,6 +88,7 @@ pub struct Lookup<'a> {
     previous_zones: Vec<dns::Name>,
     previous_cnames: Vec<dns::Record>,
     next_nss: Vec<NextSubzoneNs>,
+    requests: usize,
     cache: &'a RecordsCache,
     trace: Trace,
     conf: ResolverParams,
@@ -202,6 +211,12 @@ impl<'a> Lookup<'a> {
                     }
                 }
 
+                // Make sure lookups requiring too much work are discarded.
+                if self.requests >= MAX_REQUESTS {
+                    return Err((format!("{:?}", next_ns), LookupErr::MaxRequests));
+                }
+                self.requests += 1;
+
                 // Query an external nameserver.
                 let ns_response = self.perform_request_with_trace(NsRequest {
                     searched_node: self.searched_node.clone(),
@@ -242,6 +257,9 @@ impl<'a> Lookup<'a> {
     /// not allowed when resolving a nameserver name.
     fn resolve_ns_subquery(&mut self, node: &dns::Name, zone: &dns::Name) -> Result<Vec<dns::Record>, LookupErrCtx> {
         detect_zones_loop(zone, &self.previous_zones)?;
+        if self.previous_zones.len() >= MAX_SUB_LOOKUPS || self.requests >= MAX_REQUESTS {
+            return Err((node.to_string(), LookupErr::MaxRequests));
+        }
         let mut zones = self.previous_zones.clone();
         zones.push(zone.clone());
 
@@ -249,7 +267,7 @@ impl<'a> Lookup<'a> {
             no_follow_cname: true,
             ..self.conf.clone()
         };
-        let resolver = Lookup {
+        let mut sub_lookup = Lookup {
             searched_node: node.clone(),
             searched_kind: dns::RecordType::A,
             previous_zones: zones,
@@ -257,11 +275,13 @@ impl<'a> Lookup<'a> {
             cache: &self.cache,
             trace: self.trace.clone_empty(),
             next_nss: vec![],
+            requests: self.requests,
             conf,
         };
 
-        let (response, sub_trace) = resolver.perform();
-        self.trace.add_sub_trace(sub_trace);
+        let response = sub_lookup.perform_inner();
+        self.requests = sub_lookup.requests;
+        self.trace.add_sub_trace(sub_lookup.trace);
         match response {
             Ok(mut v) => match extract_records(&mut v.0, dns::RecordType::A, node) {
                 addrs if addrs.is_empty() => Err((node.to_string(), LookupErr::UnexpectedEmptyResp)),
-- 
2.43.0


From 8197448108336196e802545b28cf17388a6b2c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:26 +0000
Subject: [PATCH 33/42] fix: accept upstream responses only from the server
 which was asked

---
 src/resolver/back_end/requests.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/resolver/back_end/requests.rs b/src/resolver/back_end/requests.rs
index c5f7096..98724dd 100644
--- a/src/resolver/back_end/requests.rs
+++ b/src/resolver/back_end/requests.rs
@@ -272,8 +272,10 @@ fn send_udp_packet(request: &NsRequest, bytes: &[u8]) -> io::Result<([u8; dns::M
     let udp_socket = net::UdpSocket::bind("0.0.0.0:0")?;
     udp_socket.set_write_timeout(Some(request.w_timeout))?;
     udp_socket.set_read_timeout(Some(request.r_timeout))?;
-    udp_socket.send_to(&bytes, (addr, 53))?;
+    // Datagrams coming from other addresses are not responses.
+    udp_socket.connect((addr, 53))?;
+    udp_socket.send(&bytes)?;
     let mut buffer = [0_u8; dns::MAX_UDP_LEN_BYTES];
-    let (n_recv, _) = udp_socket.recv_from(&mut buffer)?;
+    let n_recv = udp_socket.recv(&mut buffer)?;
     Ok((buffer, n_recv))
 }
-- 
2.43.0


From e3293ab70756a8b0808d34425fe368d16101a165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:30 +0000
Subject: [PATCH 34/42] fix: ignore records about names outside the zone of the
 queried nameserver

---
 src/resolver/back_end/requests.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/resolver/back_end/requests.rs b/src/resolver/back_end/requests.rs
index 98724dd..eae4e3a 100644
--- a/src/resolver/back_end/requests.rs
+++ b/src/resolver/back_end/requests.rs
@@ -73,6 +73,10 @@ pub fn perform_request(ns_req: NsRequest, trace: &mut Trace) -> Result<NsRespons
     let mut dns_resp = send_query_with_retries(&ns_req)?;
     trace.t_raw_resp(&dns_resp);
 
+    // Nameservers could be malicious, they know only about names in their zone.
+    let current_zone = ns_req.nameserver.zone();
+    remove_out_of_zone_records(&mut dns_resp, current_zone);
+
     // The upstream should only use the nx_domain code with the auth flag.
     let NsRequest { searched_node, searched_type, .. } = &ns_req;
     match dns_resp.header.resp_code {
@@ -110,7 +114,6 @@ pub fn perform_request(ns_req: NsRequest, trace: &mut Trace) -> Result<NsRespons
         });
     }
 
-    let current_zone = ns_req.nameserver.zone();
     let next_nss = extract_next_nss_for_subzone(&mut dns_resp, searched_node, current_zone);
     if next_nss.len() > 0 {
         return Ok(NsResponse::Delegation {
@@ -122,6 +125,15 @@ pub fn perform_request(ns_req: NsRequest, trace: &mut Trace) -> Result<NsRespons
     Err(LookupErr::UnexpectedEmptyResp)
 }
 
+/// Remove from the [`dns::Message`] all records about nodes outside the zone managed
+/// by the queried nameserver. Example: the nameserver managing "company.com." cannot
+/// provide an address for "dns.pizza.com.", it must be asked to another nameserver.
+fn remove_out_of_zone_records(resp: &mut dns::Message, zone: &Name) {
+    resp.answers.retain(|rec| rec.node().is_in_zone(zone));
+    resp.authorities.retain(|rec| rec.node().is_in_zone(zone));
+    resp.additionals.retain(|rec| rec.node().is_in_zone(zone));
+}
+
 /// Extracts from the [`dns::Message`] response all records useful to re-start
 /// the cname resolution. Those are typically NS records and their addresses.
 fn extract_next_nss_for_cname(response: &mut dns::Message, cname: &Name) -> Vec<NextSubzoneNs> {
-- 
2.43.0


From 70717cc7a6d9b4daa9f57afc5220d3884d5b468c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:23 +0000
Subject: [PATCH 35/42] fix: no colours in the trace of failed requests when
 colours are disabled

---
 src/resolver/back_end/trace.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/resolver/back_end/trace.rs b/src/resolver/back_end/trace.rs
index 783019e..66fd433 100644
--- a/src/resolver/back_end/trace.rs
+++ b/src/resolver/back_end/trace.rs
@@ -309,7 +309,11 @@ fn display_trace_lines(f: &mut Formatter<'_>, lines: &[TraceLine], depth: u8, co
             }
             TraceLine::NameserverErr(header) => {
                 indent(f, depth)?;
-                writeln!(f, "{}", header.bold().bright_red())?;
+                if conf.color {
+                    writeln!(f, "{}", header.bold().bright_red())?
+                } else {
+                    writeln!(f, "{}", header)?
+                }
             }
             TraceLine::SubResolution(sub_trace) => {
                 display_trace_lines(f, sub_trace, depth + 1, conf)?;
-- 
2.43.0


From 62ab20d90374d27685894f91a1b05ad6333ff7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:47 +0000
Subject: [PATCH 36/42] fix: do not record traces of sub-lookups when silenced

---
 src/resolver/back_end/trace.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/resolver/back_end/trace.rs b/src/resolver/back_end/trace.rs
index 66fd433..22cd95e 100644
--- a/src/resolver/back_end/trace.rs
+++ b/src/resolver/back_end/trace.rs
@@ -213,6 +213,7 @@ impl Trace {
 
     /// Consume another trace and add to the present one as a sub trace.
     pub fn add_sub_trace(&mut self, sub_trace: Trace) {
+        skip_if_silent!(self);
         let item = TraceLine::SubResolution(sub_trace.lines);
         self.lines.push(item);
     }
-- 
2.43.0


From ad4c39285b003ea39d52eaba46f1d4cfd89d1fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:43 +0000
Subject: [PATCH 37/42] fix: age cached records with the time at which they
 were read, not an earlier one

---
 src/resolver/back_end/recursive.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/resolver/back_end/recursive.rs b/src/resolver/back_end/recursive.rs
index 21e7709..fe9406d 100644
--- a/src/resolver/back_end/recursive.rs
+++ b/src/resolver/back_end/recursive.rs
@@ -359,7 +359,6 @@ impl<'a> Lookup<'a> {
 /// All the records should have the same ttl and record type.The TTL of the returned
 /// records is properly lowered since they were inserted in the cache in the past.
 fn search_records_in_cache(cache: &RecordsCache, node: &dns::Name, kind: dns::RecordType) -> Vec<dns::Record> {
-    let before_get = time::Instant::now();
     let cache_entry = cache.get_clone(&(node.clone(), kind));
     let (exp, mut records) = match cache_entry {
         Some(v) if v.1.is_empty() => return vec![],
@@ -367,18 +366,19 @@ fn search_records_in_cache(cache: &RecordsCache, node: &dns::Name, kind: dns::Re
         Some(v) => v,
     };
 
+    // Taken after the get, since another lookup could have just stored the entry.
+    let after_get = time::Instant::now();
     assert!(records.len() > 0);
     let rec_type = records[0].record_type();
     let rec_ttl = records[0].ttl();
     for rec in &records {
         assert_eq!(rec.record_type(), rec_type);
         assert_eq!(rec.ttl(), rec_ttl);
-        assert!(exp > before_get);
     }
 
     // Correct records TTLs.
     for record in &mut records {
-        let ttl = (exp - before_get).as_secs();
+        let ttl = exp.saturating_duration_since(after_get).as_secs();
         let remaining_ttl = u32::try_from(ttl).unwrap();
         record.set_ttl(remaining_ttl);
     }
-- 
2.43.0


From 9f97099a262e5783a75b127868dff962142f2b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:54 +0000
Subject: [PATCH 38/42] fix: reject a read timeout of zero for the TCP server

---
 src/nameserver/conf.rs | 3 +++
 src/resolver/conf.rs   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/nameserver/conf.rs b/src/nameserver/conf.rs
index 8949dbe..3e0b9bb 100644
--- a/src/nameserver/conf.rs
+++ b/src/nameserver/conf.rs
@@ -80,6 +80,9 @@ impl Conf {
         if let Err(err) = net::IpAddr::from_str(self.tcp_server.address.as_ref()) {
             return Err(format!("invalid tcp address: {}", err));
         }
+        if self.tcp_server.read_timeout == 0 {
+            return Err("invalid tcp read timeout: cannot be 0 seconds".to_string());
+        }
         if self.tcp_server.write_timeout == 0 {
             return Err("invalid tcp write timeout: cannot be 0 seconds".to_string());
         }
diff --git a/src/resolver/conf.rs b/src/resolver/conf.rs
index 88648c4..244df2f 100644
--- a/src/resolver/conf.rs
+++ b/src/resolver/conf.rs
@@ -88,6 +88,9 @@ impl Conf {
         if let Err(err) = net::IpAddr::from_str(self.tcp_server.address.as_ref()) {
             return Err(format!("invalid tcp address: {}", err));
         }
+        if self.tcp_server.read_timeout == 0 {
+            return Err("invalid tcp read timeout: cannot be 0 seconds".to_string());
+        }
         if self.tcp_server.write_timeout == 0 {
             return Err("invalid tcp write timeout: cannot be 0 seconds".to_string());
         }
-- 
2.43.0


From 761b72b790cd6ac2ce5d68b4d95f84e66af0c4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:15 +0000
Subject: [PATCH 39/42] fix: follow as many aliases as configured

---
 src/resolver/back_end/recursive.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/resolver/back_end/recursive.rs b/src/resolver/back_end/recursive.rs
index fe9406d..90a7f00 100644
--- a/src/resolver/back_end/recursive.rs
+++ b/src/resolver/back_end/recursive.rs
@@ -118,7 +118,8 @@ impl<'a> Lookup<'a> {
     /// answers, then for cnames. If nothing found query external nameservers. Restart the
     /// process every time a cname is found. Cnames are included in the response.
     fn perform_inner(&mut self) -> Result<LookupResponse, LookupErrCtx> {
-        for _ in 0..self.conf.max_cname_redir {
+        // The searched name itself is not a redirection.
+        for _ in 0..=self.conf.max_cname_redir {
             self.trace.t_start(&self.searched_node, self.searched_kind);
 
             let cached_answers = self.search_records_in_cache_with_trace(self.searched_kind);
-- 
2.43.0


From 13262a00575549af2365f9a26c5724522b286083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:21 +0000
Subject: [PATCH 40/42] fix: a record without TTL after the SOA takes the TTL
 of the SOA

The record following the SOA took the configured starting TTL instead of the
TTL of the previous record, as every other record of a zone file does.
---
 src/nameserver/zones/parser_auth.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nameserver/zones/parser_auth.rs b/src/nameserver/zones/parser_auth.rs
index fd254a8..aa653cc 100644
--- a/src/nameserver/zones/parser_auth.rs
+++ b/src/nameserver/zones/parser_auth.rs
@@ -496,6 +496,7 @@ fn parse_starting_soa_record(tokenizer: &mut Tokenizer, state: &mut AuthParsingS
         dns::Record::SOA { ttl, minimum, .. } => {
             ensure_min_ttl(minimum, ttl)?;
             state.min_ttl = minimum;
+            state.current_ttl = ttl;
         }
         _ => unreachable!(),
     };
-- 
2.43.0


From 9e19ee365f4effdf2ab1fe6cb5c859748792bc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:01 +0000
Subject: [PATCH 41/42] fix: report the line of errors in the first token of an
 entry

---
 src/nameserver/zones/parser_auth.rs | 3 +--
 src/nameserver/zones/parser_sub.rs  | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/nameserver/zones/parser_auth.rs b/src/nameserver/zones/parser_auth.rs
index aa653cc..8b4fdb5 100644
--- a/src/nameserver/zones/parser_auth.rs
+++ b/src/nameserver/zones/parser_auth.rs
@@ -98,10 +98,9 @@ fn parse_entries(tokenizer: &mut Tokenizer, state: &mut AuthParsingState) -> Res
     let mut zone_records = Zone::new(state.zone);
     loop {
         // Peek only. All tokens are needed to parse the file entry.
-        let line = tokenizer.line();
         let next_token = tokenizer.peek();
         let next_token = match next_token {
-            Err(err) => return Err((err.into(), format!("{}, line: {}", state.current_file, line))),
+            Err(err) => return Err((err.into(), format!("{}, line: {}", state.current_file, tokenizer.line()))),
             Ok(Token::End) => break,
             Ok(v) => v,
         };
diff --git a/src/nameserver/zones/parser_sub.rs b/src/nameserver/zones/parser_sub.rs
index 1715483..dccca8b 100644
--- a/src/nameserver/zones/parser_sub.rs
+++ b/src/nameserver/zones/parser_sub.rs
@@ -40,10 +40,9 @@ fn parse_entries(tokenizer: &mut Tokenizer, state: &mut SubParsingState) -> Resu
     let mut sub_zone_records = Zone::new(state.zone);
     loop {
         // Peek only. All tokens are needed to parse the file entry.
-        let line = tokenizer.line();
         let next_token = tokenizer.peek();
         let next_token = match next_token {
-            Err(err) => return Err((err.into(), format!("{}, line: {}", state.current_file, line))),
+            Err(err) => return Err((err.into(), format!("{}, line: {}", state.current_file, tokenizer.line()))),
             Ok(Token::End) => break,
             Ok(v) => v,
         };
-- 
2.43.0


From 0d8d48f56b0f8263fbeda0ebfb8f3fd0f17974ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:22 +0000
Subject: [PATCH 42/42] fix: announce at most 65535 records in the header of a
 response

---
 src/nameserver/handler.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/nameserver/handler.rs b/src/nameserver/handler.rs
index 819704a..9caa058 100644
--- a/src/nameserver/handler.rs
+++ b/src/nameserver/handler.rs
@@ -95,7 +95,7 @@ fn handle_auth_zone<W: DnsWrite>(resp: W, request: dns::Message, auth_zone: &Zon
     let mut resp_header = resp_header_from_req_header(&request.header, dns::RespCode::NoError);
     resp_header.auth_answer = true;
     resp_header.questions_count = 1;
-    resp_header.answers_count = searched_records.len() as u16;
+    resp_header.answers_count = section_count(&searched_records);
     resp_header.authorities_count = 0;
     resp_header.additionals_count = 0;
     let response = dns::Message {
@@ -128,8 +128,8 @@ fn handle_subzone<W: DnsWrite>(resp: W, request: dns::Message, sub_zone: &Zone,
     resp_header.auth_answer = false;
     resp_header.questions_count = 1;
     resp_header.answers_count = 0;
-    resp_header.authorities_count = authorities.len() as u16;
-    resp_header.additionals_count = additionals.len() as u16;
+    resp_header.authorities_count = section_count(&authorities);
+    resp_header.additionals_count = section_count(&additionals);
     let response = dns::Message {
         header: resp_header,
         questions: request.questions,
@@ -232,6 +232,12 @@ fn reply<W: DnsWrite>(resp: W, dns_response: dns::Message) {
     };
 }
 
+// The number of records to announce in the header. No message can carry more
+// than the counter can tell, such a response is truncated when it is sent.
+fn section_count(records: &[dns::Record]) -> u16 {
+    records.len().min(u16::MAX as usize) as u16
+}
+
 // Creates a proper header from the request header, suitable to be used in
 // the corresponding response. The passed code is used in the resp header.
 fn resp_header_from_req_header(req_header: &dns::Header, resp_code: dns::RespCode) -> dns::Header {
-- 
2.43.0

