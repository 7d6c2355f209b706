From 3a9069fd24406c601bbc2681607d33dd7d5e201a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:33 +0000
Subject: [PATCH 01/34] fix: reject truncated struct buffers instead of
 panicking or over-allocating in the generated Rust decoder

---
 .../render/rust/static/protocol.storage.rs     | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/cli/src/protocol/render/rust/static/protocol.storage.rs b/cli/src/protocol/render/rust/static/protocol.storage.rs
index 20fb0fe..c2ecf5d 100644
--- a/cli/src/protocol/render/rust/static/protocol.storage.rs
+++ b/cli/src/protocol/render/rust/static/protocol.storage.rs
@@ -49,6 +49,9 @@ impl Storage {
         } else {
             return Err("Fail to set cursor position".to_string());
         }
+        if cursor.remaining() < sizes::U16_LEN {
+            return Err("Not enough bytes to read property id".to_string());
+        }
         let id = cursor.get_u16_le();
         Ok((id, pos + sizes::U16_LEN))
     }
@@ -60,10 +63,18 @@ impl Storage {
         } else {
             return Err("Fail to set cursor position".to_string());
         }
+        if cursor.remaining() < sizes::U8_LEN {
+            return Err("Not enough bytes to read rank of property length".to_string());
+        }
         let prop_body_len_rank = cursor.get_u8();
         let prop_body_len_usize: usize;
         let prop_rank_len: usize = 1;
         let prop_size_len: usize;
+        if matches!(prop_body_len_rank, 8 | 16 | 32 | 64)
+            && cursor.remaining() < usize::from(prop_body_len_rank / 8)
+        {
+            return Err("Not enough bytes to read property length".to_string());
+        }
         match prop_body_len_rank {
             8 => {
                 if let Ok(val) = usize::try_from(cursor.get_u8()) {
@@ -101,6 +112,13 @@ impl Storage {
                 return Err(format!("Unknown rank has been gotten: {}", v));
             }
         };
+        if cursor.remaining() < prop_body_len_usize {
+            return Err(format!(
+                "Property body should have {} bytes, but only {} bytes are available",
+                prop_body_len_usize,
+                cursor.remaining()
+            ));
+        }
         let mut prop_body_buf = vec![0; prop_body_len_usize];
         prop_body_buf.copy_from_slice(
             &buf[(pos + prop_rank_len + prop_size_len)
-- 
2.43.0


From c88914efc333c02beba7bc78b9371e0ae01c8abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:33 +0000
Subject: [PATCH 02/34] fix: package body length check no longer overflows on
 hostile header lengths

---
 cli/src/protocol/render/rust/static/protocol.packing.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cli/src/protocol/render/rust/static/protocol.packing.rs b/cli/src/protocol/render/rust/static/protocol.packing.rs
index f29a44e..0af689b 100644
--- a/cli/src/protocol/render/rust/static/protocol.packing.rs
+++ b/cli/src/protocol/render/rust/static/protocol.packing.rs
@@ -98,7 +98,10 @@ pub fn get_header_from_buffer(buf: &[u8]) -> Result<PackageHeader, String> {
 }
 
 pub fn has_buffer_body(buf: &[u8], header: &PackageHeader) -> bool {
-    buf.len() >= header.len_usize + MSG_HEADER_LEN
+    match header.len_usize.checked_add(MSG_HEADER_LEN) {
+        Some(len) => buf.len() >= len,
+        None => false,
+    }
 }
 
 pub fn get_body_from_buffer(
@@ -106,8 +109,8 @@ pub fn get_body_from_buffer(
     header: &PackageHeader,
     uuid: Option<String>,
 ) -> Result<(Vec<u8>, Vec<u8>), String> {
-    if buf.len() < header.len_usize + MSG_HEADER_LEN {
-        return Err(format!("Cannot extract body of package because size in header {} bytes, but size of buffer {} bytes.", header.len, buf.len() - MSG_HEADER_LEN));
+    if !has_buffer_body(buf, header) {
+        return Err(format!("Cannot extract body of package because size in header {} bytes, but size of buffer {} bytes.", header.len, buf.len().saturating_sub(MSG_HEADER_LEN)));
     }
     // Get body
     let mut body = vec![0; header.len_usize];
-- 
2.43.0


From 5c3855a544fbc0e5485edb05d47f7f6106f8506b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:33 +0000
Subject: [PATCH 03/34] fix: element length check of struct and enum arrays no
 longer overflows

---
 cli/src/protocol/render/rust/static/protocol.decode.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cli/src/protocol/render/rust/static/protocol.decode.rs b/cli/src/protocol/render/rust/static/protocol.decode.rs
index 3d2ad78..0306a0c 100644
--- a/cli/src/protocol/render/rust/static/protocol.decode.rs
+++ b/cli/src/protocol/render/rust/static/protocol.decode.rs
@@ -92,7 +92,7 @@ where
                     return Err(format!("To extract length of string (u64) value from array buffer should have length at least {} bytes, but length is {}", sizes::U64_LEN, buf.len()));
                 }
                 let item_len: u64 = cursor.get_u64_le();
-                if buffer.len() < sizes::U64_LEN + item_len as usize {
+                if ((buffer.len() - sizes::U64_LEN) as u64) < item_len {
                     return Err(format!("Cannot extract string, because expecting {} bytes, but length of buffer is {}", item_len, (buffer.len() - sizes::U64_LEN)));
                 }
                 let mut item_buf = vec![0; item_len as usize];
@@ -606,7 +606,7 @@ where
                     return Err(format!("To extract length of string (u64) value from array buffer should have length at least {} bytes, but length is {}", sizes::U64_LEN, buf.len()));
                 }
                 let item_len: u64 = cursor.get_u64_le();
-                if buffer.len() < sizes::U64_LEN + item_len as usize {
+                if ((buffer.len() - sizes::U64_LEN) as u64) < item_len {
                     return Err(format!("Cannot extract string, because expecting {} bytes, but length of buffer is {}", item_len, (buffer.len() - sizes::U64_LEN)));
                 }
                 let mut item_buf = vec![0; item_len as usize];
-- 
2.43.0


From 3b45bbe407e608273be1d5dac267b3378f7e1e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:33 +0000
Subject: [PATCH 04/34] fix: generated Rust enums accept options whose encoded
 payload is empty

---
 cli/src/protocol/render/rust/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/protocol/render/rust/mod.rs b/cli/src/protocol/render/rust/mod.rs
index 54554e5..df46284 100644
--- a/cli/src/protocol/render/rust/mod.rs
+++ b/cli/src/protocol/render/rust/mod.rs
@@ -304,7 +304,7 @@ impl RustRender {
             enums.name
         );
         body = format!(
-            "{}{}if buf.len() <= sizes::U16_LEN {{\n",
+            "{}{}if buf.len() < sizes::U16_LEN {{\n",
             body,
             self.spaces(level + 2)
         );
-- 
2.43.0


From 8e96375558044321cb808ce8ddc0b393a7d9ec56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:33 +0000
Subject: [PATCH 05/34] fix: white space between a simple enum option and its
 semicolon no longer makes the schema unreadable

---
 cli/src/protocol/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cli/src/protocol/parser.rs b/cli/src/protocol/parser.rs
index 3aba545..6d8cd18 100644
--- a/cli/src/protocol/parser.rs
+++ b/cli/src/protocol/parser.rs
@@ -375,7 +375,11 @@ impl Parser {
                 };
             }
             if char.is_ascii_whitespace() || breakable.is_some() {
-                return Ok(ENext::Word((str, pass - 1, breakable)));
+                let next_char: Option<char> = content
+                    .chars()
+                    .skip(pass - 1)
+                    .find(|c| !c.is_ascii_whitespace());
+                return Ok(ENext::Word((str, pass - 1, next_char)));
             }
             let allowed: bool = allowed_chars.iter().any(|&c| c == char);
             if !char.is_ascii_alphanumeric() && !allowed {
-- 
2.43.0


From 1d01db593663fe880c9c55eb3574f83543e608f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:00 +0000
Subject: [PATCH 06/34] fix: the schema parser rejects square brackets that are
 not a pair

---
 cli/src/protocol/parser.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cli/src/protocol/parser.rs b/cli/src/protocol/parser.rs
index 6d8cd18..381d2d2 100644
--- a/cli/src/protocol/parser.rs
+++ b/cli/src/protocol/parser.rs
@@ -313,6 +313,7 @@ impl Parser {
     fn next(&mut self, content: String) -> Result<ENext, ENextErr> {
         let mut str: String = String::new();
         let mut pass: usize = 0;
+        let mut opened_sq_bracket: bool = false;
         let break_chars: Vec<char> = vec![
             chars::SEMICOLON,
             chars::OPEN,
@@ -336,6 +337,12 @@ impl Parser {
             if char.is_ascii_whitespace() && str.is_empty() {
                 continue;
             }
+            if opened_sq_bracket != (char == chars::CLOSE_SQ_BRACKET && str.is_empty()) {
+                return Err(ENextErr::NotSupported(format!(
+                    "square brackets should be used in pair; found char: {}",
+                    char
+                )));
+            }
             let mut breakable: Option<char> = None;
             if break_chars.iter().any(|&c| c == char) {
                 breakable = Some(char);
@@ -357,6 +364,7 @@ impl Parser {
                         if !str.is_empty() {
                             breakable = Some(char);
                         } else {
+                            opened_sq_bracket = true;
                             continue;
                         }
                     }
-- 
2.43.0


From 99f17c6385c187f87936f45c825c128d986d6784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:00 +0000
Subject: [PATCH 07/34] fix: the schema parser rejects a name declared twice in
 the same scope

---
 cli/src/protocol/enums.rs |  7 +++++++
 cli/src/protocol/store.rs | 25 +++++++++++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/cli/src/protocol/enums.rs b/cli/src/protocol/enums.rs
index e756585..f000759 100644
--- a/cli/src/protocol/enums.rs
+++ b/cli/src/protocol/enums.rs
@@ -77,6 +77,13 @@ impl Enum {
     }
 
     pub fn set_name(&mut self, name: String) {
+        if self.variants.iter().any(|v| v.name == name) {
+            stop!(
+                "Fail to add option \"{}\" into \"{}\" because option with same name already exist",
+                name,
+                self.name
+            );
+        }
         if let Some(mut current) = self.current.take() {
             current.name = name;
             self.variants.push(current);
diff --git a/cli/src/protocol/store.rs b/cli/src/protocol/store.rs
index 1b1815e..cfe8cfc 100644
--- a/cli/src/protocol/store.rs
+++ b/cli/src/protocol/store.rs
@@ -136,6 +136,7 @@ impl Store {
         if self.c_enum.is_some() {
             stop!("Struct cannot be defined inside enum");
         }
+        self.check_name(&name);
         self.sequence += 1;
         self.bind_struct_with_group(self.sequence);
         let parent = self.get_group_id();
@@ -154,6 +155,7 @@ impl Store {
         if self.c_enum.is_some() {
             stop!("Enum cannot be defined inside enum");
         }
+        self.check_name(&name);
         self.sequence += 1;
         self.bind_enum_with_group(self.sequence);
         let parent = self.get_group_id();
@@ -172,6 +174,7 @@ impl Store {
         if self.c_enum.is_some() {
             stop!("Group cannot be defined inside enum");
         }
+        self.check_name(&name);
         let parent: usize = self.get_group_id();
         self.sequence += 1;
         self.bind_group_with_group(self.sequence);
@@ -466,6 +469,28 @@ impl Store {
         }
     }
 
+    fn check_name(&mut self, name: &str) {
+        let parent = self.get_group_id();
+        if self
+            .structs
+            .iter()
+            .any(|s| s.parent == parent && s.name == name)
+            || self
+                .enums
+                .iter()
+                .any(|e| e.parent == parent && e.name == name)
+            || self
+                .groups
+                .iter()
+                .any(|g| g.parent == parent && g.name == name)
+        {
+            stop!(
+                "Name \"{}\" is already used in the same group by another definition",
+                name
+            );
+        }
+    }
+
     fn get_group_id(&mut self) -> usize {
         if let Some(c_group) = self.c_group.clone() {
             c_group.id
-- 
2.43.0


From e22ae8d5b53bc273607abe3a615450317817558c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:00 +0000
Subject: [PATCH 08/34] fix: the schema parser rejects a file which ends inside
 of a definition

---
 cli/src/protocol/parser.rs | 6 ++++++
 cli/src/protocol/store.rs  | 7 +++++++
 2 files changed, 13 insertions(+)

diff --git a/cli/src/protocol/parser.rs b/cli/src/protocol/parser.rs
index 381d2d2..9d638c6 100644
--- a/cli/src/protocol/parser.rs
+++ b/cli/src/protocol/parser.rs
@@ -282,6 +282,12 @@ impl Parser {
                             offset
                         }
                         ENext::End() => {
+                            if store.is_opened() || !is_in(&expectation, &EExpectation::StructDef) {
+                                errs.push(format!(
+                                    "Unexpecting end of file. Expectations: {:?}",
+                                    expectation
+                                ));
+                            }
                             break;
                         }
                     };
diff --git a/cli/src/protocol/store.rs b/cli/src/protocol/store.rs
index cfe8cfc..2277795 100644
--- a/cli/src/protocol/store.rs
+++ b/cli/src/protocol/store.rs
@@ -370,6 +370,13 @@ impl Store {
         self.c_enum.is_some()
     }
 
+    pub fn is_opened(&self) -> bool {
+        self.c_group.is_some()
+            || self.c_struct.is_some()
+            || self.c_enum.is_some()
+            || self.c_field.is_some()
+    }
+
     pub fn is_field_opened(&mut self) -> bool {
         self.c_field.is_some()
     }
-- 
2.43.0


From 255f44f7e37592a43e6660fd61a1fdbecce54f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:00 +0000
Subject: [PATCH 09/34] fix: a type can be referenced by its full path inside
 of its own group

---
 cli/src/protocol/store.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cli/src/protocol/store.rs b/cli/src/protocol/store.rs
index 2277795..0c1f1ca 100644
--- a/cli/src/protocol/store.rs
+++ b/cli/src/protocol/store.rs
@@ -232,6 +232,7 @@ impl Store {
             } else if let Some(group_ref) = self
                 .groups
                 .iter()
+                .chain(self.c_group.iter())
                 .find(|i| i.name == *type_str && i.parent == parent)
             {
                 results.push((String::from(type_str), group_ref.id));
-- 
2.43.0


From 8c24fcae5bab8e3c13fef4251082bf04e1dd2cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:01 +0000
Subject: [PATCH 10/34] fix: the schema parser rejects an open square bracket
 at the end of a file

---
 cli/src/protocol/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cli/src/protocol/parser.rs b/cli/src/protocol/parser.rs
index 9d638c6..5be9f3f 100644
--- a/cli/src/protocol/parser.rs
+++ b/cli/src/protocol/parser.rs
@@ -404,7 +404,11 @@ impl Parser {
             }
             str.push(char);
         }
-        if str.is_empty() {
+        if opened_sq_bracket {
+            Err(ENextErr::NotSupported(
+                "square brackets should be used in pair".to_owned(),
+            ))
+        } else if str.is_empty() {
             Ok(ENext::End())
         } else {
             Ok(ENext::Word((str, pass - 1, None)))
-- 
2.43.0


From 9aafb4de17e90721d645c6baf580bb83e7abf7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:21 +0000
Subject: [PATCH 11/34] fix: comments of a workflow may contain non-ASCII text

---
 cli/src/workflow/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/workflow/parser.rs b/cli/src/workflow/parser.rs
index f668bf4..af86c30 100644
--- a/cli/src/workflow/parser.rs
+++ b/cli/src/workflow/parser.rs
@@ -209,7 +209,7 @@ impl Parser {
         let mut limited: bool = false;
         let mut comment: bool = false;
         for char in content.chars() {
-            pass += 1;
+            pass += char.len_utf8();
             if comment && char == chars::CARET {
                 comment = false;
             } else if comment {
-- 
2.43.0


From 49425db05047f53a8bce2314e0e7ef5bf67d2217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:21 +0000
Subject: [PATCH 12/34] fix: the workflow parser ends on a file which ends with
 a word

---
 cli/src/workflow/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/workflow/parser.rs b/cli/src/workflow/parser.rs
index af86c30..a0e80f6 100644
--- a/cli/src/workflow/parser.rs
+++ b/cli/src/workflow/parser.rs
@@ -281,7 +281,7 @@ impl Parser {
         if str.is_empty() {
             Ok(ENext::End())
         } else {
-            Ok(ENext::Word((str, pass - 1, None)))
+            Ok(ENext::Word((str, pass, None)))
         }
     }
 
-- 
2.43.0


From f9cd1225e6d4cdc4ccfee38748e067ff498d6f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:21 +0000
Subject: [PATCH 13/34] fix: the workflow parser rejects a file which ends
 inside of a declaration

---
 cli/src/workflow/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cli/src/workflow/parser.rs b/cli/src/workflow/parser.rs
index a0e80f6..559e647 100644
--- a/cli/src/workflow/parser.rs
+++ b/cli/src/workflow/parser.rs
@@ -109,6 +109,9 @@ impl Parser {
                             }
                         }
                         ENext::End() => {
+                            if opened.is_some() {
+                                return Err(self.err("Unexpected end of file: the last declaration isn't closed."));
+                            }
                             break;
                         }
                         _ => 0,
-- 
2.43.0


From b03908260d80b5dcc8bbde2c7e71e142512968cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:21 +0000
Subject: [PATCH 14/34] fix: names of requests may contain an underscore

---
 cli/src/workflow/request.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cli/src/workflow/request.rs b/cli/src/workflow/request.rs
index e3ab5c7..9873692 100644
--- a/cli/src/workflow/request.rs
+++ b/cli/src/workflow/request.rs
@@ -1,4 +1,4 @@
-use super::{Broadcast, ENext, EntityOut, EntityParser, Protocol};
+use super::{chars, Broadcast, ENext, EntityOut, EntityParser, Protocol};
 
 #[derive(Debug, PartialEq, Clone)]
 enum EExpectation {
@@ -244,7 +244,7 @@ impl Request {
 
 impl EntityParser for Request {
     fn open(word: String) -> Option<Self> {
-        if word.chars().all(char::is_alphanumeric) {
+        if word.chars().all(|c| c.is_alphanumeric() || c == chars::UNDERLINE) {
             Some(Self::new(word))
         } else {
             None
-- 
2.43.0


From bf0c172ac9ce68fd1748e3c57ffc13188a8d4287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:39 +0000
Subject: [PATCH 15/34] fix: a key of the workflow's settings isn't ignored if
 it isn't closed

---
 cli/src/workflow/config.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cli/src/workflow/config.rs b/cli/src/workflow/config.rs
index ef76d9c..ee7bada 100644
--- a/cli/src/workflow/config.rs
+++ b/cli/src/workflow/config.rs
@@ -443,7 +443,9 @@ impl EntityParser for Config {
                 }
             }
             ENext::Close(offset) => {
-                if let Err(e) = self.close(protocol) {
+                if matches!(self.pending, Pending::SelfKey(_) | Pending::AssignedKey(_)) {
+                    Err(String::from("Key's definition should be closed with ;"))
+                } else if let Err(e) = self.close(protocol) {
                     Err(e)
                 } else {
                     Ok(offset)
-- 
2.43.0


From 9b28ff00942cc35cf0c1e0d9c7ad19529504136e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:44 +0000
Subject: [PATCH 16/34] fix: TypeScript keeps a leading U+FEFF of a decoded
 string

---
 .../typescript/static/protocol.primitives.string.utf8.ts       | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cli/src/protocol/render/typescript/static/protocol.primitives.string.utf8.ts b/cli/src/protocol/render/typescript/static/protocol.primitives.string.utf8.ts
index f4f167d..51a5cfd 100644
--- a/cli/src/protocol/render/typescript/static/protocol.primitives.string.utf8.ts
+++ b/cli/src/protocol/render/typescript/static/protocol.primitives.string.utf8.ts
@@ -17,7 +17,8 @@ export class StrUTF8 extends Primitive<string> {
     }
 
     public static decode(bytes: ArrayBufferLike): string | Error {
-        const decoder = new TextDecoder();
+        // leading U+FEFF is a part of the string
+        const decoder = new TextDecoder('utf-8', { ignoreBOM: true });
         return decoder.decode(bytes);
     }
 
-- 
2.43.0


From 36047a08d81dc04237ad750860b10e1dcbfcd49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:44 +0000
Subject: [PATCH 17/34] fix: TypeScript reads ids of fields above 255

---
 .../render/typescript/static/protocol.convertor.storage.ts      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/protocol/render/typescript/static/protocol.convertor.storage.ts b/cli/src/protocol/render/typescript/static/protocol.convertor.storage.ts
index cc74a1e..2b81038 100644
--- a/cli/src/protocol/render/typescript/static/protocol.convertor.storage.ts
+++ b/cli/src/protocol/render/typescript/static/protocol.convertor.storage.ts
@@ -37,7 +37,7 @@ export class Storage {
 
 	private _getId(buffer: Buffer, position: number): number | Error {
 		try {
-			return buffer.readUInt8(position);
+			return buffer.readUInt16LE(position);
 		} catch (err) {
 			return err instanceof Error
 				? err
-- 
2.43.0


From c08ec093996eec9e14878d718e38210873ef02e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:44 +0000
Subject: [PATCH 18/34] fix: TypeScript enum doesn't throw on truncated or
 unknown options

---
 .../static/protocol.primitives.enum.ts         | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/cli/src/protocol/render/typescript/static/protocol.primitives.enum.ts b/cli/src/protocol/render/typescript/static/protocol.primitives.enum.ts
index 7ab80e9..c21cfd8 100644
--- a/cli/src/protocol/render/typescript/static/protocol.primitives.enum.ts
+++ b/cli/src/protocol/render/typescript/static/protocol.primitives.enum.ts
@@ -87,16 +87,16 @@ export abstract class Enum<T> {
 	}
 
 	public decode(bytes: ArrayBufferLike): Error | undefined {
-		const buffer = Buffer.from(bytes);
-		const id: number = buffer.readUInt16LE();
-		const target: ISigned<any> = this.getOptionValue(id);
-		const error: Error | undefined = target.decode(
-			bytes.slice(u16.getSize(), buffer.byteLength)
-		);
-		if (error instanceof Error) {
-			return error;
-		}
 		try {
+			const buffer = Buffer.from(bytes);
+			const id: number = buffer.readUInt16LE();
+			const target: ISigned<any> = this.getOptionValue(id);
+			const error: Error | undefined = target.decode(
+				bytes.slice(u16.getSize(), buffer.byteLength)
+			);
+			if (error instanceof Error) {
+				return error;
+			}
 			this._value = new Option<any>(id, target);
 		} catch (e) {
 			return new Error(`Fail to decode due error: ${e}`);
-- 
2.43.0


From 403ea8d1f63f184fbdbabdfea26006cc57425801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:44 +0000
Subject: [PATCH 19/34] fix: TypeScript arrays don't throw on a truncated size
 marker

---
 .../render/typescript/static/protocol.convertor.ts         | 7 +++++++
 .../static/protocol.primitives.array.string.utf8.ts        | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/cli/src/protocol/render/typescript/static/protocol.convertor.ts b/cli/src/protocol/render/typescript/static/protocol.convertor.ts
index a20a8d7..27f00c0 100644
--- a/cli/src/protocol/render/typescript/static/protocol.convertor.ts
+++ b/cli/src/protocol/render/typescript/static/protocol.convertor.ts
@@ -177,6 +177,13 @@ export abstract class Convertor<T> {
 		}
 		let offset: number = 0;
 		do {
+			if (buffer.byteLength - offset < u64.getSize()) {
+				return new Error(
+					`Invalid size marker. Expecting u64 (size ${u64.getSize()} bytes), but size of buffer: ${
+						buffer.byteLength - offset
+					} bytes.`
+				);
+			}
 			const len = buffer.readBigUInt64LE(offset);
 			if (isNaN(Number(len)) || !isFinite(Number(len))) {
 				return new Error(
diff --git a/cli/src/protocol/render/typescript/static/protocol.primitives.array.string.utf8.ts b/cli/src/protocol/render/typescript/static/protocol.primitives.array.string.utf8.ts
index 497bcc3..ebfecad 100644
--- a/cli/src/protocol/render/typescript/static/protocol.primitives.array.string.utf8.ts
+++ b/cli/src/protocol/render/typescript/static/protocol.primitives.array.string.utf8.ts
@@ -61,6 +61,13 @@ export class ArrayStrUTF8 extends Primitive<string[]> {
 		}
 		let offset: number = 0;
 		do {
+			if (buffer.byteLength - offset < u32.getSize()) {
+				return new Error(
+					`Invalid size marker. Expecting u32 (size ${u32.getSize()} bytes), but size of buffer: ${
+						buffer.byteLength - offset
+					} bytes.`
+				);
+			}
 			const len = buffer.readUInt32LE(offset);
 			if (isNaN(len) || !isFinite(len)) {
 				return new Error(`Invalid length of string in an array`);
-- 
2.43.0


From e3beeb1c18a3fea9e841da1bf83a5573b27c3289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:44 +0000
Subject: [PATCH 20/34] fix: TypeScript reader skips packages with a foreign
 signature or an unknown id

---
 cli/src/protocol/render/typescript/mod.rs            | 2 +-
 cli/src/protocol/render/typescript/static/packing.ts | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cli/src/protocol/render/typescript/mod.rs b/cli/src/protocol/render/typescript/mod.rs
index e052e23..f9e40e3 100644
--- a/cli/src/protocol/render/typescript/mod.rs
+++ b/cli/src/protocol/render/typescript/mod.rs
@@ -1670,7 +1670,7 @@ impl TypescriptRender {
             body = format!("{}{}return err instanceof Error ? err : {{ header: {{ id: header.id, sequence: header.sequence, timestamp: header.ts }}, msg: {{ {}}}, getRef: () => instance }};\n", body, self.spaces(4), self.get_available_entity(structs.parent, &structs.name, &mut store.clone()));
         }
         body = format!(
-            "{}{}default: throw new Error(`Unknown message id=${{header.id}}`);\n",
+            "{}{}default: return new Error(`Unknown message id=${{header.id}}`);\n",
             body,
             self.spaces(3)
         );
diff --git a/cli/src/protocol/render/typescript/static/packing.ts b/cli/src/protocol/render/typescript/static/packing.ts
index a15edf5..d8ba0f3 100644
--- a/cli/src/protocol/render/typescript/static/packing.ts
+++ b/cli/src/protocol/render/typescript/static/packing.ts
@@ -84,10 +84,10 @@ export abstract class BufferReader<T> {
 						this._queue.push(msg);
 					}
 				}
-				this._buffer = this._buffer.slice(
-					MessageHeader.SIZE + header.len
-				);
 			}
+			this._buffer = this._buffer.slice(
+				MessageHeader.SIZE + header.len
+			);
 		} while (true);
 		return errors.length > 0 ? errors : undefined;
 	}
-- 
2.43.0


From 825a9259227082376acb0caad94a9377c64c5c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:44 +0000
Subject: [PATCH 21/34] fix: TypeScript producer checks the assigned key
 instead of the method

---
 .../render/producer/typescript/render_identification.rs         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/workflow/render/producer/typescript/render_identification.rs b/cli/src/workflow/render/producer/typescript/render_identification.rs
index adb72fd..c62c6be 100644
--- a/cli/src/workflow/render/producer/typescript/render_identification.rs
+++ b/cli/src/workflow/render/producer/typescript/render_identification.rs
@@ -62,7 +62,7 @@ export class Identification {
     }
 
     public assigned(): boolean {
-        if (this.assign === undefined) {
+        if (this._assigned === undefined) {
             switch (this._strategy) {
                 case ProducerIdentificationStrategy.Ignore:
                     return true;
-- 
2.43.0


From 982d6b0cb2050d5a56c7881bf6fa821fed68fdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:44 +0000
Subject: [PATCH 22/34] fix: TypeScript producer handles all messages of a
 chunk after an unknown one

---
 cli/src/workflow/render/producer/typescript/render_mod.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cli/src/workflow/render/producer/typescript/render_mod.rs b/cli/src/workflow/render/producer/typescript/render_mod.rs
index 1842f8d..e990ead 100644
--- a/cli/src/workflow/render/producer/typescript/render_mod.rs
+++ b/cli/src/workflow/render/producer/typescript/render_mod.rs
@@ -240,7 +240,7 @@ export class Producer {
         }
         const error = consumer.chunk(event.buffer);
         if (error instanceof Error) {
-            return this._receivingErr(error, event.uuid, consumer);
+            this._receivingErr(error, event.uuid, consumer);
         }
         do {
             const message = consumer.message();
@@ -441,7 +441,6 @@ export class Producer {
 					)}`
 				);
 			} catch (_) {}
-            break;
         } while (true);
     }
 
-- 
2.43.0


From c59d21565e41141ac47cf78903ca4e31539f0d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:53 +0000
Subject: [PATCH 23/34] fix: broadcasts of a request with a single action
 aren't lost

---
 .../render/producer/rust/render_request_handler.rs    | 11 ++++++++---
 .../render/producer/rust/render_request_response.rs   | 11 ++++++++---
 .../producer/typescript/render_request_handler.rs     | 11 ++++++++---
 cli/src/workflow/request.rs                           |  6 ++++++
 4 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/cli/src/workflow/render/producer/rust/render_request_handler.rs b/cli/src/workflow/render/producer/rust/render_request_handler.rs
index 8ecde49..6727e51 100644
--- a/cli/src/workflow/render/producer/rust/render_request_handler.rs
+++ b/cli/src/workflow/render/producer/rust/render_request_handler.rs
@@ -100,7 +100,12 @@ impl Render {
     pub fn render(&self, base: &Path, request: &Request) -> Result<(), String> {
         let dest: PathBuf = self.get_dest_file(base, request)?;
         let request_ref = request.get_request()?;
-        let mut output: String = if request.actions.len() > 1 {
+        let mut output: String = if request.actions.len() > 1
+            || request
+                .actions
+                .iter()
+                .any(|action| !action.broadcast.is_empty())
+        {
             let mut output = templates::MODULE_WITH_CONCLUSION.to_owned();
             output = output.replace("[[response_mod]]", &self.get_response_mod_name(request)?);
             output = output.replace("[[conclusions]]", &self.get_conclusions(request)?);
@@ -120,7 +125,7 @@ impl Render {
             if action.broadcast.is_empty() {
                 let mut out = templates::CONCLUSION_WITHOUT_BROADCAST.to_owned();
                 out = out.replace("[[response_mod]]", &self.get_response_mod_name(request)?);
-                out = out.replace("[[conclusion]]", &action.get_conclusion()?);
+                out = out.replace("[[conclusion]]", &action.get_conclusion_or_default());
                 output = format!(
                     "{}{}{}",
                     output,
@@ -134,7 +139,7 @@ impl Render {
             } else {
                 let mut out = templates::CONCLUSION_WITH_BROADCAST.to_owned();
                 out = out.replace("[[response_mod]]", &self.get_response_mod_name(request)?);
-                out = out.replace("[[conclusion]]", &action.get_conclusion()?);
+                out = out.replace("[[conclusion]]", &action.get_conclusion_or_default());
                 let mut broadcasts_declaration = String::new();
                 let mut broadcasts_processing = String::new();
                 for (pos, broadcast) in action.broadcast.iter().enumerate() {
diff --git a/cli/src/workflow/render/producer/rust/render_request_response.rs b/cli/src/workflow/render/producer/rust/render_request_response.rs
index 2239344..3857424 100644
--- a/cli/src/workflow/render/producer/rust/render_request_response.rs
+++ b/cli/src/workflow/render/producer/rust/render_request_response.rs
@@ -58,7 +58,12 @@ impl Render {
             return Ok(());
         }
         let request_ref = request.get_request()?;
-        let mut output: String = if request.actions.len() > 1 {
+        let mut output: String = if request.actions.len() > 1
+            || request
+                .actions
+                .iter()
+                .any(|action| !action.broadcast.is_empty())
+        {
             let mut output = templates::MODULE_WITH_CONCLUSION.to_owned();
             output = output.replace("[[broadcast_types]]", &self.get_broadcast_types(request)?);
             output = output.replace(
@@ -88,7 +93,7 @@ impl Render {
                 output = format!(
                     "{}{}(protocol::{}),{}",
                     output,
-                    action.get_conclusion()?,
+                    action.get_conclusion_or_default(),
                     tools::into_rust_path(&action.get_response()?),
                     if pos == request.actions.len() - 1 {
                         ""
@@ -113,7 +118,7 @@ impl Render {
                 output = format!(
                     "{}\n{}(\n\t(\n\t\tprotocol::{},\n{}\n\t)\n),{}",
                     output,
-                    action.get_conclusion()?,
+                    action.get_conclusion_or_default(),
                     tools::into_rust_path(&action.get_response()?),
                     tools::inject_tabs(2, brodcast_output),
                     if pos == request.actions.len() - 1 {
diff --git a/cli/src/workflow/render/producer/typescript/render_request_handler.rs b/cli/src/workflow/render/producer/typescript/render_request_handler.rs
index 7820748..52bdd22 100644
--- a/cli/src/workflow/render/producer/typescript/render_request_handler.rs
+++ b/cli/src/workflow/render/producer/typescript/render_request_handler.rs
@@ -175,7 +175,12 @@ impl Render {
     pub fn render(&self, base: &Path, request: &Request) -> Result<(), String> {
         let dest: PathBuf = self.get_dest_file(base, request)?;
         let request_ref = request.get_request()?;
-        let mut output: String = if request.actions.len() > 1 {
+        let mut output: String = if request.actions.len() > 1
+            || request
+                .actions
+                .iter()
+                .any(|action| !action.broadcast.is_empty())
+        {
             let mut output = templates::MODULE_WITH_CONCLUSION.to_owned();
             output = output.replace(
                 "[[required_broadcasts]]",
@@ -226,7 +231,7 @@ impl Render {
 ];"#,
                     output,
                     "\n",
-                    action.get_conclusion()?.to_uppercase(),
+                    action.get_conclusion_or_default().to_uppercase(),
                     tools::inject_tabs(1, broadcasts),
                 );
             }
@@ -284,7 +289,7 @@ impl Render {
                 let mut out = templates::BROADCAST_CHECK.to_owned();
                 out = out.replace(
                     "[[requered_conclusion]]",
-                    &action.get_conclusion()?.to_uppercase(),
+                    &action.get_conclusion_or_default().to_uppercase(),
                 );
                 out = out.replace("[[conclusion]]", &action.get_response()?);
                 output = format!("{}\n{}", output, out,);
diff --git a/cli/src/workflow/request.rs b/cli/src/workflow/request.rs
index 9873692..e349a9c 100644
--- a/cli/src/workflow/request.rs
+++ b/cli/src/workflow/request.rs
@@ -89,6 +89,12 @@ impl Action {
         }
     }
 
+    pub fn get_conclusion_or_default(&self) -> String {
+        self.conclusion
+            .clone()
+            .unwrap_or_else(|| String::from("Response"))
+    }
+
     pub fn get_response(&self) -> Result<String, String> {
         if let Some(response) = self.response.as_ref() {
             Ok(String::from(response))
-- 
2.43.0


From c63ff13224d6cd53c5f36aad321edc2213d79d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:53 +0000
Subject: [PATCH 24/34] fix: TypeScript request can be sent again after it
 failed to be sent

---
 cli/src/workflow/render/consumer/typescript/render_beacon.rs  | 3 +++
 cli/src/workflow/render/consumer/typescript/render_request.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/cli/src/workflow/render/consumer/typescript/render_beacon.rs b/cli/src/workflow/render/consumer/typescript/render_beacon.rs
index 9f476b9..6a82002 100644
--- a/cli/src/workflow/render/consumer/typescript/render_beacon.rs
+++ b/cli/src/workflow/render/consumer/typescript/render_beacon.rs
@@ -104,6 +104,9 @@ export class [[reference]] extends Protocol.[[struct_ref]] {
                     }
                 })
                 .catch((err: Error) => {
+                    if (this._state === ERequestState.Pending) {
+                        this._state = ERequestState.Ready;
+                    }
                     reject(err);
                 });
         });
diff --git a/cli/src/workflow/render/consumer/typescript/render_request.rs b/cli/src/workflow/render/consumer/typescript/render_request.rs
index d25bf40..ff5242e 100644
--- a/cli/src/workflow/render/consumer/typescript/render_request.rs
+++ b/cli/src/workflow/render/consumer/typescript/render_request.rs
@@ -54,6 +54,9 @@ export class [[reference]] extends Protocol.[[struct_ref]] {
                         return reject(new Error(`Unexpected state for request "[[reference]]".`));
                 }
             }).catch((err: Error) => {
+                if (this._state === ERequestState.Pending) {
+                    this._state = ERequestState.Ready;
+                }
                 reject(err);
             });
         });
-- 
2.43.0


From af336311c63c79e96267f2ea729a8cc253d34518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:53 +0000
Subject: [PATCH 25/34] fix: TypeScript consumer survives enum messages and
 handles a chunk with an unreadable one to its end

---
 cli/src/workflow/render/consumer/typescript/render_consumer.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cli/src/workflow/render/consumer/typescript/render_consumer.rs b/cli/src/workflow/render/consumer/typescript/render_consumer.rs
index 0c42841..bd034f1 100644
--- a/cli/src/workflow/render/consumer/typescript/render_consumer.rs
+++ b/cli/src/workflow/render/consumer/typescript/render_consumer.rs
@@ -244,7 +244,6 @@ export class Consumer {
         const errors: Error[] | undefined = this._buffer.chunk(buffer);
         if (errors instanceof Array) {
             this._logger.err(`Fail to process chunk of data due error(s):\n\t${errors.map(e => e.message).join('\n\t')}`)
-            return;
         }
         do {
             const msg: Protocol.IAvailableMessage<Protocol.IAvailableMessages> | undefined =  this._buffer.next();
@@ -261,7 +260,7 @@ export class Consumer {
     }
 }"#;
     pub const BROADCAST_CHECKS: &str = r#" else {
-    const id: number = msg.getRef<any>().getId();
+    const id: number = msg.header.id;
     switch (id) {[[cases]]
         default:
             this._logger.warn(`Has been gotten unexpected message ID=${id};`)
-- 
2.43.0


From 337e70ed48f20405b114c96179e98dad3f2e3e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:53 +0000
Subject: [PATCH 26/34] fix: TypeScript consumer drops partial data and pending
 requests with the connection

---
 .../consumer/typescript/render_consumer.rs      | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/cli/src/workflow/render/consumer/typescript/render_consumer.rs b/cli/src/workflow/render/consumer/typescript/render_consumer.rs
index bd034f1..70a53ff 100644
--- a/cli/src/workflow/render/consumer/typescript/render_consumer.rs
+++ b/cli/src/workflow/render/consumer/typescript/render_consumer.rs
@@ -71,7 +71,10 @@ export class Consumer {
  
     private readonly _client: Client;
     private readonly _subscriptions: { [key: string]: Subscription } = {};
-    private readonly _pending: Map<number, (response: Protocol.IAvailableMessages) => void> = new Map();
+    private readonly _pending: Map<number, {
+        resolve: (response: Protocol.IAvailableMessages) => void;
+        reject: (error: Error) => void;
+    }> = new Map();
     private readonly _buffer: Protocol.BufferReaderMessages = new Protocol.BufferReaderMessages();
     private readonly _logger: Logger;
     private readonly _options: Options;
@@ -160,8 +163,8 @@ export class Consumer {
         if (sequence === undefined) {
             return Promise.resolve({});
         }
-        return new Promise((resolve) => {
-            this._pending.set(sequence, resolve);
+        return new Promise((resolve, reject) => {
+            this._pending.set(sequence, { resolve, reject });
         });
     }
 
@@ -232,6 +235,12 @@ export class Consumer {
     private _onClientDisconnected() {
         this._logger.debug(`Client is disconnected`);
         this.uuid = undefined;
+        this._buffer.destroy();
+        const pending = Array.from(this._pending.values());
+        this._pending.clear();
+        pending.forEach((request) => {
+            request.reject(new Error(`Client is disconnected. Response would not be received.`));
+        });
         this.disconnected.emit();
     }
 
@@ -253,7 +262,7 @@ export class Consumer {
             const pending = this._pending.get(msg.header.sequence);
             if (pending !== undefined) {
                 this._pending.delete(msg.header.sequence);
-                pending(msg.msg);
+                pending.resolve(msg.msg);
             }[[broadcasts_checking]]
             
         } while (true);
-- 
2.43.0


From cd23a3a20192f6f31d6a7c44e1f01d23c75009e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:06 +0000
Subject: [PATCH 27/34] fix: Rust producer checks a client before each message,
 not once per chunk

---
 .../workflow/render/producer/rust/render_mod.rs    | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/cli/src/workflow/render/producer/rust/render_mod.rs b/cli/src/workflow/render/producer/rust/render_mod.rs
index 44ba0c6..a228523 100644
--- a/cli/src/workflow/render/producer/rust/render_mod.rs
+++ b/cli/src/workflow/render/producer/rust/render_mod.rs
@@ -388,7 +388,7 @@ pub mod producer {
             "new chunk of data from {} has been gotten",
             uuid,
         );
-        let (messages, assigned, has_key) = if let Some(consumer) = consumers.get_mut(&uuid) {
+        let messages = if let Some(consumer) = consumers.get_mut(&uuid) {
             if !consumer.is_confirmed() {
                 disconnect(uuid, consumer, control).await?;
                 emitters::error::emit::<E, C>(
@@ -417,11 +417,7 @@ pub mod producer {
                 .await?;
                 return Ok(());
             } else {
-                (
-                    consumer.get_messages(),
-                    consumer.get_identification().assigned(),
-                    consumer.get_identification().has_key(),
-                )
+                consumer.get_messages()
             }
         } else {
             responsing_err(
@@ -444,6 +440,12 @@ pub mod producer {
             } else {
                 return Ok(());
             };
+            if consumer.get_identification().is_discredited() {
+                // Consumer was discredited by previous message of the same chunk
+                return Ok(());
+            }
+            let assigned = consumer.get_identification().assigned();
+            let has_key = consumer.get_identification().has_key();
             match message {
                 [[indentification_self_enum_ref]] if !consumer.is_hash_accepted() => {
                     trace!(
-- 
2.43.0


From 9e662492cb3689edf675775a2700fde2f08190d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:58 +0000
Subject: [PATCH 28/34] fix: Rust producer serves readable messages around an
 unreadable one

---
 .../render/producer/rust/render_consumer.rs   | 26 ++++++++++++++++
 .../render/producer/rust/render_mod.rs        | 30 +++++++++++--------
 2 files changed, 43 insertions(+), 13 deletions(-)

diff --git a/cli/src/workflow/render/producer/rust/render_consumer.rs b/cli/src/workflow/render/producer/rust/render_consumer.rs
index 8a487c3..650252c 100644
--- a/cli/src/workflow/render/producer/rust/render_consumer.rs
+++ b/cli/src/workflow/render/producer/rust/render_consumer.rs
@@ -21,6 +21,8 @@ pub enum ConsumerError {
 }
 
 pub type ConsumerMessages = Vec<(protocol::AvailableMessages, protocol::PackageHeader)>;
+pub type ConsumerData =
+    Vec<Result<(protocol::AvailableMessages, protocol::PackageHeader), ConsumerError>>;
 
 pub struct Consumer {
     uuid: Uuid,
@@ -90,6 +92,30 @@ impl Consumer {
             .map_err(ConsumerError::Reading)
     }
 
+    // Returns messages and errors in an order in which they are placed in a stream
+    #[allow(clippy::ptr_arg)]
+    pub fn read(&mut self, buffer: &Vec<u8>) -> ConsumerData {
+        let mut data: ConsumerData = vec![];
+        let mut result = self.chunk(buffer);
+        loop {
+            data.extend(self.get_messages().into_iter().map(Ok));
+            match result {
+                Ok(()) => break,
+                Err(err) => data.push(Err(err)),
+            }
+            let len = self.buffer.len();
+            if len == 0 {
+                break;
+            }
+            result = self.chunk(&vec![]);
+            if result.is_err() && self.buffer.len() == len {
+                // Nothing more can be read from a buffer
+                break;
+            }
+        }
+        data
+    }
+
     pub fn get_messages(&mut self) -> ConsumerMessages {
         let mut msgs: ConsumerMessages = vec![];
         while let Some(msg) = self.buffer.next() {
diff --git a/cli/src/workflow/render/producer/rust/render_mod.rs b/cli/src/workflow/render/producer/rust/render_mod.rs
index a228523..d1b7c71 100644
--- a/cli/src/workflow/render/producer/rust/render_mod.rs
+++ b/cli/src/workflow/render/producer/rust/render_mod.rs
@@ -405,19 +405,8 @@ pub mod producer {
             if consumer.get_identification().is_discredited() {
                 // Consumer is discredited do nothing with it
                 return Ok(());
-            } else if let Err(err) = consumer.chunk(&buffer) {
-                responsing_err(
-                    format!("fail to read chunk of data; error: {}", err),
-                    uuid,
-                    context,
-                    control,
-                    options,
-                    &mut Some(consumer),
-                )
-                .await?;
-                return Ok(());
             } else {
-                consumer.get_messages()
+                consumer.read(&buffer)
             }
         } else {
             responsing_err(
@@ -434,7 +423,7 @@ pub mod producer {
         if messages.is_empty() {
             return Ok(());
         }
-        for (message, header) in messages.iter() {
+        for message in messages.iter() {
             let consumer = if let Some(consumer) = consumers.get_mut(&uuid) {
                 consumer
             } else {
@@ -444,6 +433,21 @@ pub mod producer {
                 // Consumer was discredited by previous message of the same chunk
                 return Ok(());
             }
+            let (message, header) = match message {
+                Ok(message) => message,
+                Err(err) => {
+                    responsing_err(
+                        format!("fail to read chunk of data; error: {}", err),
+                        uuid,
+                        context,
+                        control,
+                        options,
+                        &mut Some(consumer),
+                    )
+                    .await?;
+                    continue;
+                }
+            };
             let assigned = consumer.get_identification().assigned();
             let has_key = consumer.get_identification().has_key();
             match message {
-- 
2.43.0


From 49aac2639cdcb067094382b1c131b9d53eff0b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:58 +0000
Subject: [PATCH 29/34] fix: failing transport for one client doesn't stop Rust
 producer

---
 .../render/producer/rust/render_mod.rs        | 23 ++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/cli/src/workflow/render/producer/rust/render_mod.rs b/cli/src/workflow/render/producer/rust/render_mod.rs
index d1b7c71..dd2c95a 100644
--- a/cli/src/workflow/render/producer/rust/render_mod.rs
+++ b/cli/src/workflow/render/producer/rust/render_mod.rs
@@ -324,7 +324,13 @@ pub mod producer {
             return Ok(());
         }
         consumer.get_mut_identification().discredited();
-        control.disconnect(uuid).await?;
+        if let Err(err) = control.disconnect(uuid).await {
+            // Server failed for one consumer; others should be served
+            error!(
+                target: logs::targets::PRODUCER,
+                "{}:: fail to disconnect consumer: {}", uuid, err
+            );
+        }
         Ok(())
     }
 
@@ -812,14 +818,25 @@ pub mod producer {
                     MergedChannel::Confirmation(uuid) => {
                         if let Some(consumer) = consumers.get_mut(&uuid) {
                             consumer.confirm();
-                            control
+                            if let Err(err) = control
                                 .send(
                                     (protocol::InternalServiceGroup::ConnectConfirmationBeacon {})
                                         .pack(0, Some(uuid.to_string()))
                                         .map_err(|e| ProducerError::Protocol(uuid, e))?,
                                     Some(uuid),
                                 )
-                                .await?;
+                                .await
+                            {
+                                responsing_err(
+                                    format!("fail to send connection confirmation: {}", err),
+                                    uuid,
+                                    &mut context,
+                                    &control,
+                                    options,
+                                    &mut Some(consumer),
+                                )
+                                .await?
+                            }
                         } else {
                             emitters::error::emit::<E, C>(
                                 ProducerError::ConsumerError(format!(
-- 
2.43.0


From df30efac621cdf350fdef03d027342e439f9f0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:58 +0000
Subject: [PATCH 30/34] fix: Rust producer applies confirmations and
 identification changes before further data

---
 .../render/producer/rust/render_mod.rs        | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/cli/src/workflow/render/producer/rust/render_mod.rs b/cli/src/workflow/render/producer/rust/render_mod.rs
index dd2c95a..0bd7566 100644
--- a/cli/src/workflow/render/producer/rust/render_mod.rs
+++ b/cli/src/workflow/render/producer/rust/render_mod.rs
@@ -679,19 +679,25 @@ pub mod producer {
         let cancel = control.shutdown.child_token();
         let result = async {
             while let Some(event) = select! {
-                mut msg = rx_server_events.recv() => {
-                    msg.take().map(MergedChannel::ServerEvents)
-                },
-                mut msg = rx_events.recv() => {
-                    msg.take().map(MergedChannel::Event)
-                },
+                // Changes of consumers should be applied before the next message of consumer
+                biased;
                 mut msg = rx_ident_change.recv() => {
                     msg.take().map(MergedChannel::Identification)
                 },
                 mut msg = rx_confirm.recv() => {
                     msg.take().map(MergedChannel::Confirmation)
                 },
-                _ = cancel.cancelled() => None
+                event = async {
+                    select! {
+                        mut msg = rx_server_events.recv() => {
+                            msg.take().map(MergedChannel::ServerEvents)
+                        },
+                        mut msg = rx_events.recv() => {
+                            msg.take().map(MergedChannel::Event)
+                        },
+                        _ = cancel.cancelled() => None
+                    }
+                } => event
             } {
                 match event {
                     MergedChannel::ServerEvents(event) => match event {
-- 
2.43.0


From ec531590bbba0bd185e2798ac2fdbd592f34fa0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:43 +0000
Subject: [PATCH 31/34] fix: Rust buffer doesn't recurse for each message of a
 chunk

---
 .../render/rust/static/protocol.buffer.rs     | 47 ++++++++-----------
 1 file changed, 20 insertions(+), 27 deletions(-)

diff --git a/cli/src/protocol/render/rust/static/protocol.buffer.rs b/cli/src/protocol/render/rust/static/protocol.buffer.rs
index 8e81a28..5143a7e 100644
--- a/cli/src/protocol/render/rust/static/protocol.buffer.rs
+++ b/cli/src/protocol/render/rust/static/protocol.buffer.rs
@@ -61,37 +61,30 @@ where
     pub fn chunk(&mut self, buf: &Vec<u8>, uuid: Option<String>) -> Result<(), ReadError> {
         // Add data into buffer
         self.buffer.append(&mut buf.clone());
-        if !has_buffer_header(&self.buffer) {
-            return Ok(());
-        }
-        // Get header
-        let header: PackageHeader = match get_header_from_buffer(&self.buffer) {
-            Ok(v) => v,
-            Err(e) => {
-                return Err(ReadError::Header(e));
-            }
-        };
-        if !has_buffer_body(&self.buffer, &header) {
-            return Ok(());
-        }
-        let (body, rest) = match get_body_from_buffer(&self.buffer, &header, uuid.clone()) {
-            Ok(v) => v,
-            Err(e) => {
-                return Err(ReadError::Parsing(e));
+        while has_buffer_header(&self.buffer) {
+            // Get header
+            let header: PackageHeader = match get_header_from_buffer(&self.buffer) {
+                Ok(v) => v,
+                Err(e) => {
+                    return Err(ReadError::Header(e));
+                }
+            };
+            if !has_buffer_body(&self.buffer, &header) {
+                return Ok(());
             }
-        };
-        self.buffer = rest;
-        match Self::get_message(self, &header, &body) {
-            Ok(msg) => {
-                self.queue.push(IncomeMessage { header, msg });
-                if !self.buffer.is_empty() {
-                    self.chunk(&vec![], uuid)
-                } else {
-                    Ok(())
+            let (body, rest) = match get_body_from_buffer(&self.buffer, &header, uuid.clone()) {
+                Ok(v) => v,
+                Err(e) => {
+                    return Err(ReadError::Parsing(e));
                 }
+            };
+            self.buffer = rest;
+            match Self::get_message(self, &header, &body) {
+                Ok(msg) => self.queue.push(IncomeMessage { header, msg }),
+                Err(e) => return Err(e),
             }
-            Err(e) => Err(e),
         }
+        Ok(())
     }
 
     #[allow(clippy::should_implement_trait)]
-- 
2.43.0


From a3975ac08db783fa78bee32cc1337c519ea5d723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:15 +0000
Subject: [PATCH 32/34] fix: Rust consumer reads messages after an unreadable
 one

---
 .../render/consumer/rust/render_consumer.rs   | 104 ++++++++++--------
 1 file changed, 56 insertions(+), 48 deletions(-)

diff --git a/cli/src/workflow/render/consumer/rust/render_consumer.rs b/cli/src/workflow/render/consumer/rust/render_consumer.rs
index 715f3bf..0d1f001 100644
--- a/cli/src/workflow/render/consumer/rust/render_consumer.rs
+++ b/cli/src/workflow/render/consumer/rust/render_consumer.rs
@@ -520,61 +520,69 @@ where
                                 "has been received {} bytes",
                                 income.len()
                             );
-                            match buffer.chunk(&income, None) {
-                                Ok(()) => {
-                                    while let Some(msg) = buffer.next() {
-                                        if let protocol::AvailableMessages::InternalServiceGroup(
-                                            protocol::InternalServiceGroup::AvailableMessages::ConnectConfirmationBeacon(msg)
-                                        ) = msg.msg {
-                                            debug!(
-                                                target: logs::targets::CONSUMER,
-                                                "producer has been confirmed connection"
-                                            );
-                                            let api_auth = api.clone();
-                                            let options_auth = options.clone();
-                                            let tx_auth_auth = tx_auth.clone();
-                                            spawn(async move {
-                                                if let Err(err) = tx_auth_auth
-                                                    .send(Auth::SetUuid(auth(api_auth, options_auth).await))
-                                                {
-                                                    error!(
-                                                        target: logs::targets::CONSUMER,
-                                                        "fail to send response for consumer auth: {}", err
-                                                    );
-                                                }
-                                            });
-                                            continue;
-                                        }
-                                        match api.accept(msg.header.sequence, msg.msg.clone()).await
-                                        {
-                                            Ok(accepted) => {
-                                                if accepted {
-                                                    continue;
-                                                }
+                            let mut result = buffer.chunk(&income, None);
+                            loop {
+                                while let Some(msg) = buffer.next() {
+                                    if let protocol::AvailableMessages::InternalServiceGroup(
+                                        protocol::InternalServiceGroup::AvailableMessages::ConnectConfirmationBeacon(msg)
+                                    ) = msg.msg {
+                                        debug!(
+                                            target: logs::targets::CONSUMER,
+                                            "producer has been confirmed connection"
+                                        );
+                                        let api_auth = api.clone();
+                                        let options_auth = options.clone();
+                                        let tx_auth_auth = tx_auth.clone();
+                                        spawn(async move {
+                                            if let Err(err) = tx_auth_auth
+                                                .send(Auth::SetUuid(auth(api_auth, options_auth).await))
+                                            {
+                                                error!(
+                                                    target: logs::targets::CONSUMER,
+                                                    "fail to send response for consumer auth: {}", err
+                                                );
                                             }
-                                            Err(err) => {
-                                                shortcuts::emit_error::<E>(
-                                                        ConsumerError::Pending(format!("Fail to handle broadcast Events::Connect; error: {}", err)),
-                                                        &tx_consumer_event
-                                                    ).await;
+                                        });
+                                        continue;
+                                    }
+                                    match api.accept(msg.header.sequence, msg.msg.clone()).await
+                                    {
+                                        Ok(accepted) => {
+                                            if accepted {
+                                                continue;
                                             }
-                                        };
-                                        match msg.msg {[[broadcast_handlers]]
-                                            _ => {
-                                                shortcuts::emit_error::<E>(
-                                                    ConsumerError::UnknownMessage(format!("header: {:?}", msg.header)),
+                                        }
+                                        Err(err) => {
+                                            shortcuts::emit_error::<E>(
+                                                    ConsumerError::Pending(format!("Fail to handle broadcast Events::Connect; error: {}", err)),
                                                     &tx_consumer_event
                                                 ).await;
-                                            }
                                         }
+                                    };
+                                    match msg.msg {[[broadcast_handlers]]
+                                        _ => {
+                                            shortcuts::emit_error::<E>(
+                                                ConsumerError::UnknownMessage(format!("header: {:?}", msg.header)),
+                                                &tx_consumer_event
+                                            ).await;
+                                        }
+                                    }
+                                }
+                                match result {
+                                    Ok(()) => break,
+                                    Err(err) => {
+                                        shortcuts::emit_error::<E>(
+                                            ConsumerError::BufferError(format!("{:?}", err)),
+                                            &tx_consumer_event,
+                                        )
+                                        .await;
                                     }
                                 }
-                                Err(err) => {
-                                    shortcuts::emit_error::<E>(
-                                        ConsumerError::BufferError(format!("{:?}", err)),
-                                        &tx_consumer_event,
-                                    )
-                                    .await;
+                                // Read messages after unreadable one
+                                let len = buffer.len();
+                                result = buffer.chunk(&vec![], None);
+                                if result.is_err() && buffer.len() == len {
+                                    break;
                                 }
                             }
                         }
-- 
2.43.0


From f7a87567bbd0f90ccdc2dcca3cd35b4fba7a6942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:15 +0000
Subject: [PATCH 33/34] fix: dropped request doesn't stop Rust consumer

---
 .../render/consumer/rust/render_consumer.rs   | 33 +++++++++++--------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/cli/src/workflow/render/consumer/rust/render_consumer.rs b/cli/src/workflow/render/consumer/rust/render_consumer.rs
index 0d1f001..95b3ed8 100644
--- a/cli/src/workflow/render/consumer/rust/render_consumer.rs
+++ b/cli/src/workflow/render/consumer/rust/render_consumer.rs
@@ -444,12 +444,13 @@ where
             }
             Channel::AcceptIncome((sequence, msg, tx_response)) => {
                 let accepted = if let Some(response) = pending.remove(&sequence) {
-                    response.send(msg).map_err(|_| {
-                        ConsumerError::APIChannel(format!(
-                            "Fail to use pending channel; sequence: {}",
-                            sequence
-                        ))
-                    })?;
+                    if response.send(msg).is_err() {
+                        // Request was dropped (for example because of timeout)
+                        warn!(
+                            target: logs::targets::CONSUMER,
+                            "response is ignored; nobody waits for it; sequence: {}", sequence
+                        );
+                    }
                     true
                 } else {
                     false
@@ -472,11 +473,12 @@ where
                 if sequence >= u32::MAX - 1 {
                     sequence = 10;
                 }
-                tx_response.send(sequence).map_err(|_| {
-                    ConsumerError::APIChannel(String::from(
-                        "Fail to send response for for Channel::Sequence",
-                    ))
-                })?;
+                if tx_response.send(sequence).is_err() {
+                    warn!(
+                        target: logs::targets::CONSUMER,
+                        "nobody waits for sequence; request was dropped"
+                    );
+                }
             }
             Channel::Shutdown(tx_response) => {
                 tx_shutdown.send(tx_response).await.map_err(|_| {
@@ -624,9 +626,12 @@ where
                     }
                 },
                 Auth::GetUuid(tx_response) => {
-                    tx_response.send(uuid).map_err(|_| {
-                        ConsumerError::APIChannel(String::from("Fail to response on uuid request"))
-                    })?;
+                    if tx_response.send(uuid).is_err() {
+                        warn!(
+                            target: logs::targets::CONSUMER,
+                            "nobody waits for uuid; request was dropped"
+                        );
+                    }
                 }
             },
         }
-- 
2.43.0


From de1e9232536ac01a94fa87c2d413ffc87c6863c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:15 +0000
Subject: [PATCH 34/34] fix: broadcast cannot be taken as a response in
 handshake of Rust consumer

---
 cli/src/workflow/render/consumer/rust/render_consumer.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cli/src/workflow/render/consumer/rust/render_consumer.rs b/cli/src/workflow/render/consumer/rust/render_consumer.rs
index 95b3ed8..797287e 100644
--- a/cli/src/workflow/render/consumer/rust/render_consumer.rs
+++ b/cli/src/workflow/render/consumer/rust/render_consumer.rs
@@ -649,9 +649,10 @@ where
     );
     let mut key = options.key.clone();
     let response = api
+        // Sequence 0 is used by broadcast messages
         .request(
-            0,
-            &key.pack(0, None)
+            1,
+            &key.pack(1, None)
                 .map_err(|e| ConsumerError::Protocol(format!("fail to pack key: {}", e)))?,
         )
         .await
@@ -688,9 +689,9 @@ where
     };
     let response = api
         .request(
-            1,
+            2,
             &hash
-                .pack(1, None)
+                .pack(2, None)
                 .map_err(|e| ConsumerError::Protocol(format!("fail to pack key: {}", e)))?,
         )
         .await
-- 
2.43.0

