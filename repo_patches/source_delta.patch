From 59d1134a746baeee9a46a2f0deda8f51b732a24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:24 +0000
Subject: [PATCH 01/19] fix: a tag directly followed by ',' in a flow
 collection panicked

---
 src/scanner.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index ab97696..e1dc172 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -1109,7 +1109,6 @@ impl<R: BufRead> Scanner<R> {
                     "did not find expected whitespace or line break",
                 );
             }
-            panic!("TODO: What is expected here?");
         }
 
         let end_mark: Mark = self.mark;
-- 
2.43.0


From c3b63e272e7a71085380aee2d3716b7a4857b36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 02/19] fix: a double-quoted scalar ending in a backslash at
 the end of the input panicked

---
 src/scanner.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index e1dc172..8918165 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -1537,7 +1537,9 @@ impl<R: BufRead> Scanner<R> {
                         break;
                     } else if !single && CHECK!(self.buffer, '\\') {
                         let mut code_length = 0usize;
-                        match self.buffer.get(1).copied().unwrap() {
+                        // At the end of the input there is no escape character, which is
+                        // reported like any other unknown one.
+                        match self.buffer.get(1).copied().unwrap_or('\0') {
                             '0' => {
                                 string.push('\0');
                             }
-- 
2.43.0


From e4583274c10afbd9610ee13e839d1de8c98aebbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 03/19] fix: a block scalar whose last line has no line break
 panicked

---
 src/scanner.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index 8918165..eb5ab30 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -163,7 +163,8 @@ impl<R: BufRead> Scanner<R> {
     fn read_line_break(&mut self, string: &mut String) {
         let front = match self.buffer.front().copied() {
             Some(front) => front,
-            None => panic!("unexpected end of input"),
+            // The last line of a block scalar may end without a line break.
+            None => return,
         };
 
         if let ('\r', Some('\n')) = (front, self.buffer.get(1).copied()) {
-- 
2.43.0


From 005aa339c87e00d6f12c226c28d2f1b7bbadc7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 04/19] fix: UTF-16 input was consumed in code units instead of
 bytes, and unpaired surrogates panicked

---
 src/reader.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index f70cd50..29a8bc1 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -175,7 +175,7 @@ fn read_utf16_buffered<const BIG_ENDIAN: bool>(
         match ch {
             Ok(ch) => {
                 push_char(out, ch, *offset)?;
-                let n = ch.len_utf16();
+                let n = ch.len_utf16() * 2;
                 *offset += n;
                 used += n;
             }
@@ -193,10 +193,8 @@ fn read_utf16_buffered<const BIG_ENDIAN: bool>(
 
     if used != 0 {
         reader.consume(used);
-        *offset += used;
         Ok(true)
     } else {
-        debug_assert!(!available.is_empty() && available.len() < 2);
         read_utf16_char_unbuffered::<BIG_ENDIAN>(reader, out, offset)?;
         Ok(true)
     }
-- 
2.43.0


From a917b305a41a275c8e37a8efde4735a78e3b5b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 05/19] fix: input starting with a character in U+F000..U+FFFF
 was rejected as an invalid byte order mark

---
 src/reader.rs | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 29a8bc1..766665d 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -8,7 +8,11 @@ const BOM_UTF8: [u8; 3] = [0xef, 0xbb, 0xbf];
 const BOM_UTF16LE: [u8; 2] = [0xff, 0xfe];
 const BOM_UTF16BE: [u8; 2] = [0xfe, 0xff];
 
-fn yaml_parser_determine_encoding(reader: &mut dyn BufRead) -> Result<Option<Encoding>> {
+fn yaml_parser_determine_encoding(
+    reader: &mut dyn BufRead,
+    out: &mut VecDeque<char>,
+    offset: &mut usize,
+) -> Result<Option<Encoding>> {
     let initial_bytes = reader.fill_buf()?;
     if initial_bytes.is_empty() {
         return Ok(None);
@@ -18,15 +22,20 @@ fn yaml_parser_determine_encoding(reader: &mut dyn BufRead) -> Result<Option<Enc
         0xef => {
             let mut bom = [0; 3];
             reader.read_exact(&mut bom)?;
-            if bom == BOM_UTF8 {
-                Ok(Some(Encoding::Utf8))
-            } else {
-                Err(Error::reader(
-                    "invalid byte order marker",
-                    0,
-                    i32::from_be_bytes([bom[0], bom[1], bom[2], 0]),
-                ))
+            if bom != BOM_UTF8 {
+                // Not a byte order mark, but some other character of the same
+                // width (U+F000 and up), which is part of the content.
+                if let Some(ch) = core::str::from_utf8(&bom)
+                    .ok()
+                    .and_then(|valid| valid.chars().next())
+                {
+                    push_char(out, ch, *offset)?;
+                    *offset += bom.len();
+                } else {
+                    return Err(Error::reader("invalid UTF-8", *offset, bom[0] as _));
+                }
             }
+            Ok(Some(Encoding::Utf8))
         }
         0xff | 0xfe => {
             let mut bom = [0; 2];
@@ -293,7 +302,9 @@ pub(crate) fn yaml_parser_update_buffer<R: BufRead>(
         return Ok(());
     }
     if parser.encoding == Encoding::Any {
-        if let Some(encoding) = yaml_parser_determine_encoding(reader)? {
+        if let Some(encoding) =
+            yaml_parser_determine_encoding(reader, &mut parser.buffer, &mut parser.offset)?
+        {
             parser.encoding = encoding;
         } else {
             parser.eof = true;
-- 
2.43.0


From 79abdc84a131e885e4808971e6e3e2e4b4bfd8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 06/19] fix: an interrupted first read was reported as an error
 instead of being retried

---
 src/reader.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 766665d..e6f4881 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -13,12 +13,16 @@ fn yaml_parser_determine_encoding(
     out: &mut VecDeque<char>,
     offset: &mut usize,
 ) -> Result<Option<Encoding>> {
-    let initial_bytes = reader.fill_buf()?;
-    if initial_bytes.is_empty() {
-        return Ok(None);
-    }
+    let initial = loop {
+        match reader.fill_buf() {
+            Ok([]) => return Ok(None),
+            Ok([initial, ..]) => break *initial,
+            Err(err) if err.kind() == std::io::ErrorKind::Interrupted => (),
+            Err(err) => return Err(err.into()),
+        }
+    };
 
-    match initial_bytes[0] {
+    match initial {
         0xef => {
             let mut bom = [0; 3];
             reader.read_exact(&mut bom)?;
-- 
2.43.0


From 29f868a13c1453a98d1a132f3b96e0ef6f984f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:17 +0000
Subject: [PATCH 07/19] fix: percent-encoded UTF-8 octets in tags were decoded
 one character per octet

---
 src/scanner.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index eb5ab30..795c749 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -1226,6 +1226,7 @@ impl<R: BufRead> Scanner<R> {
         string: &mut String,
     ) -> Result<()> {
         let mut width: i32 = 0;
+        let mut octets: Vec<u8> = Vec::with_capacity(4);
         loop {
             self.cache(3)?;
             if !(CHECK!(self.buffer, '%')
@@ -1255,7 +1256,6 @@ impl<R: BufRead> Scanner<R> {
                 } else {
                     0
                 };
-                // TODO: Something is fishy here, why isn't `width` being used?
                 if width == 0 {
                     return self.set_scanner_error(
                         if directive {
@@ -1278,7 +1278,7 @@ impl<R: BufRead> Scanner<R> {
                     "found an incorrect trailing UTF-8 octet",
                 );
             }
-            string.push(char::from_u32(octet as _).expect("invalid Unicode"));
+            octets.push(octet);
             self.skip_char();
             self.skip_char();
             self.skip_char();
@@ -1287,7 +1287,21 @@ impl<R: BufRead> Scanner<R> {
                 break;
             }
         }
-        Ok(())
+        match core::str::from_utf8(&octets) {
+            Ok(decoded) => {
+                string.push_str(decoded);
+                Ok(())
+            }
+            Err(_) => self.set_scanner_error(
+                if directive {
+                    "while parsing a %TAG directive"
+                } else {
+                    "while parsing a tag"
+                },
+                start_mark,
+                "found an invalid UTF-8 octet sequence",
+            ),
+        }
     }
 
     fn scan_block_scalar(&mut self, literal: bool) -> Result<Token> {
-- 
2.43.0


From 12ccb2e355c0c997996b81fcf445a9116d046c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:18 +0000
Subject: [PATCH 08/19] fix: looking up document node 0 panicked instead of
 returning None

---
 src/document.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 69d21ba..06384ba 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -108,14 +108,16 @@ impl Document {
     ///
     /// Returns the node object or `None` if `index` is out of range.
     pub fn get_node_mut(&mut self, index: i32) -> Option<&mut Node> {
-        self.nodes.get_mut(index as usize - 1)
+        let index = usize::try_from(index).ok()?.checked_sub(1)?;
+        self.nodes.get_mut(index)
     }
 
     /// Get a node of a YAML document.
     ///
     /// Returns the node object or `None` if `index` is out of range.
     pub fn get_node(&self, index: i32) -> Option<&Node> {
-        self.nodes.get(index as usize - 1)
+        let index = usize::try_from(index).ok()?.checked_sub(1)?;
+        self.nodes.get(index)
     }
 
     /// Get the root of a YAML document node.
-- 
2.43.0


From 9ae813328b5a43e19e94f00ed811db6bdc068963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 09/19] fix: matching a tag against a longer multi-byte prefix
 sliced inside a character and panicked

---
 src/emitter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emitter.rs b/src/emitter.rs
index 7647c65..4a6f083 100644
--- a/src/emitter.rs
+++ b/src/emitter.rs
@@ -1130,7 +1130,7 @@ impl<'w> Emitter<'w> {
 
         for tag_directive in tag_directives {
             let prefix_len = tag_directive.prefix.len();
-            if prefix_len < tag.len() && tag_directive.prefix == tag[0..prefix_len] {
+            if prefix_len < tag.len() && tag.starts_with(&tag_directive.prefix) {
                 handle = &tag_directive.handle;
                 suffix = &tag[prefix_len..];
                 break;
-- 
2.43.0


From 1d1f7e3a4a4087a17d0614621b9afe47fd7acdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 10/19] fix: folded scalars lost or gained line breaks because
 the wrong character was looked at

---
 src/emitter.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/emitter.rs b/src/emitter.rs
index 4a6f083..481cd98 100644
--- a/src/emitter.rs
+++ b/src/emitter.rs
@@ -1734,9 +1734,7 @@ impl<'w> Emitter<'w> {
         while let Some(ch) = chars.next() {
             if is_break(ch) {
                 if !breaks && !leading_spaces && ch == '\n' {
-                    let mut skip_breaks = chars.clone();
-                    while is_break(skip_breaks.next()) {}
-                    if !is_blankz(skip_breaks.next()) {
+                    if !is_blankz(chars.clone().find(|ch| !is_break(*ch))) {
                         self.put_break()?;
                     }
                 }
-- 
2.43.0


From 2c3145e550ced7ff6e69f57f509436e2235651f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:41 +0000
Subject: [PATCH 11/19] fix: dumping a document with a shared node below the
 first level panicked

---
 src/document.rs | 6 +++---
 src/emitter.rs  | 8 --------
 2 files changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 06384ba..eef827a 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -608,13 +608,13 @@ impl Document {
             match &node.data {
                 NodeData::Sequence { items, .. } => {
                     for item in items {
-                        emitter.anchor_node_sub(*item);
+                        self.anchor_node(emitter, *item);
                     }
                 }
                 NodeData::Mapping { pairs, .. } => {
                     for pair in pairs {
-                        emitter.anchor_node_sub(pair.key);
-                        emitter.anchor_node_sub(pair.value);
+                        self.anchor_node(emitter, pair.key);
+                        self.anchor_node(emitter, pair.value);
                     }
                 }
                 _ => {}
diff --git a/src/emitter.rs b/src/emitter.rs
index 481cd98..a956238 100644
--- a/src/emitter.rs
+++ b/src/emitter.rs
@@ -1814,14 +1814,6 @@ impl<'w> Emitter<'w> {
         self.last_anchor_id = 0;
     }
 
-    pub(crate) fn anchor_node_sub(&mut self, index: i32) {
-        self.anchors[index as usize - 1].references += 1;
-        if self.anchors[index as usize - 1].references == 2 {
-            self.last_anchor_id += 1;
-            self.anchors[index as usize - 1].anchor = self.last_anchor_id;
-        }
-    }
-
     pub(crate) fn generate_anchor(anchor_id: i32) -> String {
         alloc::format!("id{anchor_id:03}")
     }
-- 
2.43.0


From 9434ee91fb74519cac1f99e154cd9b5f0edf5aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:42 +0000
Subject: [PATCH 12/19] fix: U+7EFF was mistaken for a byte order mark when
 choosing a scalar style

---
 src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macros.rs b/src/macros.rs
index f91e4f6..ddd01ec 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -109,7 +109,7 @@ macro_rules! IS_BOM {
 }
 
 pub(crate) fn is_bom(ch: char) -> bool {
-    ch == '\u{7eff}'
+    ch == '\u{feff}'
 }
 
 macro_rules! IS_SPACE_AT {
-- 
2.43.0


From a7ec7729da6592120830dee60114fe229f24d783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:15 +0000
Subject: [PATCH 13/19] fix: a failed dump left its anchors behind in the
 emitter

---
 src/document.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index eef827a..9e5aa0c 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -571,11 +571,14 @@ impl Document {
     /// The document object may be generated using the [`Document::load()`]
     /// function or the [`Document::new()`] function.
     pub fn dump(mut self, emitter: &mut Emitter) -> Result<()> {
+        let result = self.dump_document(emitter);
+        emitter.reset_anchors();
+        result
+    }
+
+    fn dump_document(&mut self, emitter: &mut Emitter) -> Result<()> {
         if !emitter.opened {
-            if let Err(err) = emitter.open() {
-                emitter.reset_anchors();
-                return Err(err);
-            }
+            emitter.open()?;
         }
         if self.nodes.is_empty() {
             // TODO: Do we really want to close the emitter just because the
@@ -597,7 +600,6 @@ impl Document {
             emitter.emit(event)?;
         }
 
-        emitter.reset_anchors();
         Ok(())
     }
 
-- 
2.43.0


From 043dab1f36868a4aaee00635fcee65c1b131205c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:15 +0000
Subject: [PATCH 14/19] fix: the length limit of simple keys counted bytes
 instead of characters

---
 src/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index 795c749..055b3f0 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -417,7 +417,7 @@ impl<R: BufRead> Scanner<R> {
         for simple_key in &mut self.simple_keys {
             let mark = simple_key.mark;
             if simple_key.possible
-                && (mark.line < self.mark.line || mark.index + 1024 < self.mark.index)
+                && (mark.line < self.mark.line || mark.column + 1024 < self.mark.column)
             {
                 if simple_key.required {
                     return self.set_scanner_error(
-- 
2.43.0


From 03fcb2d7a751794d5f03009c76a5751bb096cd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:12 +0000
Subject: [PATCH 15/19] fix: parsing on after an error could panic

---
 src/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 0e6f522..b4db264 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -189,7 +189,12 @@ impl<R: BufRead> Parser<R> {
         if self.scanner.stream_end_produced || self.inner.state == ParserState::End {
             return Ok(Event::stream_end());
         }
-        self.state_machine()
+        let result = self.state_machine();
+        if result.is_err() {
+            // Like in libyaml, no events are produced after an error.
+            self.inner.state = ParserState::End;
+        }
+        result
     }
 
     fn state_machine(&mut self) -> Result<Event> {
-- 
2.43.0


From e7be14ef9d930e462d01c267c3f7167e84b44849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 16/19] fix: implied events covered the following token instead
 of being empty

---
 src/parser.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index b4db264..2e1b81f 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -284,7 +284,7 @@ impl<R: BufRead> Parser<R> {
                     implicit: true,
                 },
                 start_mark: token.start_mark,
-                end_mark: token.end_mark,
+                end_mark: token.start_mark,
             };
             self.process_directives(None, None)?;
             self.inner.states.push(ParserState::DocumentEnd);
@@ -637,7 +637,7 @@ impl<R: BufRead> Parser<R> {
             let event = Event {
                 data: EventData::SequenceEnd,
                 start_mark: token.start_mark,
-                end_mark: token.end_mark,
+                end_mark: token.start_mark,
             };
             self.inner.state = self.inner.states.pop().unwrap();
             Ok(event)
@@ -808,7 +808,7 @@ impl<R: BufRead> Parser<R> {
     fn parse_flow_sequence_entry_mapping_end(&mut self) -> Result<Event> {
         let token = self.scanner.peek()?;
         let start_mark = token.start_mark;
-        let end_mark = token.end_mark;
+        let end_mark = token.start_mark;
         self.inner.state = ParserState::FlowSequenceEntry;
         Ok(Event {
             data: EventData::MappingEnd,
-- 
2.43.0


From 441ce404d64a90683b96fa8b4853306e1e7465c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 17/19] fix: loading on after a failed document panicked

---
 src/document.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 9e5aa0c..1327bd7 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -2,8 +2,8 @@ use std::io::BufRead;
 
 use crate::{
     AliasData, Anchors, DEFAULT_MAPPING_TAG, DEFAULT_SCALAR_TAG, DEFAULT_SEQUENCE_TAG, Emitter,
-    Error, Event, EventData, MappingStyle, Mark, Parser, ParserInner, Result, ScalarStyle,
-    SequenceStyle, TagDirective, VersionDirective,
+    Error, Event, EventData, MappingStyle, Mark, Parser, ParserInner, ParserState, Result,
+    ScalarStyle, SequenceStyle, TagDirective, VersionDirective,
 };
 
 /// The document structure.
@@ -287,6 +287,8 @@ impl Document {
             }
             Err(e) => err = e,
         }
+        // The rest of a document that failed to load is not a document.
+        parser.inner.state = ParserState::End;
         parser.inner.delete_aliases();
         Err(err)
     }
-- 
2.43.0


From 0e9dbcdba8aff9d1b8d446af830beab40d0fc535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:37 +0000
Subject: [PATCH 18/19] fix: an empty key in a single-pair flow mapping
 swallowed the token after it

---
 src/parser.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 2e1b81f..8eaad0a 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -773,8 +773,7 @@ impl<R: BufRead> Parser<R> {
             token.data,
             TokenData::Value | TokenData::FlowEntry | TokenData::FlowSequenceEnd
         ) {
-            let mark: Mark = token.end_mark;
-            self.scanner.skip_token();
+            let mark: Mark = token.start_mark;
             self.inner.state = ParserState::FlowSequenceEntryMappingValue;
             Self::process_empty_scalar(mark)
         } else {
-- 
2.43.0


From 2c728972c3512d8dc5f36f66cda7f8a2c9e16f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:12 +0000
Subject: [PATCH 19/19] fix: folding inside an indented line of a folded scalar
 changed its value

A line that begins with a space is not folded by readers: a line break
written there is read back as a line break, not as the space it replaced.
---
 src/emitter.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/emitter.rs b/src/emitter.rs
index a956238..dec1dbd 100644
--- a/src/emitter.rs
+++ b/src/emitter.rs
@@ -1747,6 +1747,7 @@ impl<'w> Emitter<'w> {
                     leading_spaces = is_blank(ch);
                 }
                 if !breaks
+                    && !leading_spaces
                     && is_space(ch)
                     && !is_space(chars.clone().next())
                     && self.column > self.best_width
-- 
2.43.0

