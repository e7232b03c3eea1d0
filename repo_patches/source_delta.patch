From fef93871b19aa8543ae0d0b29754f0019419762a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:19 +0000
Subject: [PATCH 01/23] fix: step from the back in nth_back of both iterators

---
 src/yaml/mapping/iter.rs  | 2 +-
 src/yaml/sequence/iter.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yaml/mapping/iter.rs b/src/yaml/mapping/iter.rs
index 36119a7..66d0eb6 100644
--- a/src/yaml/mapping/iter.rs
+++ b/src/yaml/mapping/iter.rs
@@ -59,7 +59,7 @@ impl DoubleEndedIterator for Iter<'_> {
 
     #[inline]
     fn nth_back(&mut self, n: usize) -> Option<Self::Item> {
-        let item = self.data.mapping_item(*self.iter.nth(n)?);
+        let item = self.data.mapping_item(*self.iter.nth_back(n)?);
         let key = self.data.str(item.key.id);
         let value = Value::new(self.data, item.value);
         Some((key, value))
diff --git a/src/yaml/sequence/iter.rs b/src/yaml/sequence/iter.rs
index 5dc2de7..538141a 100644
--- a/src/yaml/sequence/iter.rs
+++ b/src/yaml/sequence/iter.rs
@@ -51,7 +51,7 @@ impl DoubleEndedIterator for Iter<'_> {
 
     #[inline]
     fn nth_back(&mut self, n: usize) -> Option<Self::Item> {
-        let item = self.data.sequence_item(*self.iter.nth(n)?);
+        let item = self.data.sequence_item(*self.iter.nth_back(n)?);
         Some(Value::new(self.data, item.value))
     }
 }
-- 
2.43.0


From 37668cac30a5c2fd717131b713271c19d5a52b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:38 +0000
Subject: [PATCH 02/23] fix: indent containers made in sequence items by the
 sequence's own column

---
 src/yaml/raw.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index 25ebc81..98abe04 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -89,10 +89,8 @@ pub(crate) fn make_indent(data: &mut Data, id: Id, extra: usize) -> (usize, Stri
         // - two: 2
         //   three: 3
         // ```
-        if let Some((Raw::SequenceItem(..), layout)) = parent.map(|id| data.pair(id)) {
-            let indent = self::count_indent(data.str(layout.prefix))
-                .saturating_add(2)
-                .saturating_add(extra);
+        if let Some((Raw::SequenceItem(..), _)) = parent.map(|id| data.pair(id)) {
+            let indent = indent.saturating_add(2).saturating_add(extra);
             return (indent, data.insert_str(" "));
         }
     }
-- 
2.43.0


From c1e144df0f8fb7ac4c365df3d09f7868c164f81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:04 +0000
Subject: [PATCH 03/23] fix: do not repeat the last value's comment in front of
 a pushed value

---
 src/yaml/sequence/sequence_mut.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/yaml/sequence/sequence_mut.rs b/src/yaml/sequence/sequence_mut.rs
index c4397c6..e2d1ca1 100644
--- a/src/yaml/sequence/sequence_mut.rs
+++ b/src/yaml/sequence/sequence_mut.rs
@@ -114,14 +114,21 @@ impl<'a> SequenceMut<'a> {
             .insert(Raw::Null(raw::Null::Empty), item_prefix, Some(self.id));
 
         let value_prefix = match separator {
-            Separator::Auto => match self.data.sequence(self.id).items.last() {
-                Some(last) => {
+            Separator::Auto => {
+                // Reuse the layout of the last value, unless there's more to it than spacing.
+                let last = self.data.sequence(self.id).items.last().map(|last| {
                     self.data
                         .layout(self.data.sequence_item(*last).value)
                         .prefix
+                });
+
+                match last {
+                    Some(prefix) if self.data.str(prefix).iter().all(u8::is_ascii_whitespace) => {
+                        prefix
+                    }
+                    _ => self.data.insert_str(" "),
                 }
-                None => self.data.insert_str(" "),
-            },
+            }
             Separator::Custom(separator) => self.data.insert_str(separator),
         };
 
-- 
2.43.0


From 5165bb4ddb8b3cba684a60f73b10ed5e8e0662c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:21 +0000
Subject: [PATCH 04/23] fix: put pushed values behind a space when the last
 item has none

---
 src/yaml/data.rs                  | 6 ++++++
 src/yaml/sequence/sequence_mut.rs | 6 ++----
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/yaml/data.rs b/src/yaml/data.rs
index 9207f74..6cee513 100644
--- a/src/yaml/data.rs
+++ b/src/yaml/data.rs
@@ -109,6 +109,12 @@ impl Data {
         BStr::new(string.as_ref())
     }
 
+    /// Test if the given string is spacing between two things on the same line.
+    pub(crate) fn is_spacing(&self, id: StringId) -> bool {
+        let string = self.str(id);
+        !string.is_empty() && string.iter().all(|b| matches!(b, b' ' | b'\t'))
+    }
+
     /// Insert a string into the string cache.
     pub(crate) fn insert_str<B>(&mut self, string: B) -> StringId
     where
diff --git a/src/yaml/sequence/sequence_mut.rs b/src/yaml/sequence/sequence_mut.rs
index e2d1ca1..db301a6 100644
--- a/src/yaml/sequence/sequence_mut.rs
+++ b/src/yaml/sequence/sequence_mut.rs
@@ -115,7 +115,7 @@ impl<'a> SequenceMut<'a> {
 
         let value_prefix = match separator {
             Separator::Auto => {
-                // Reuse the layout of the last value, unless there's more to it than spacing.
+                // Reuse the spacing of the last value, if it is on the same line as its item.
                 let last = self.data.sequence(self.id).items.last().map(|last| {
                     self.data
                         .layout(self.data.sequence_item(*last).value)
@@ -123,9 +123,7 @@ impl<'a> SequenceMut<'a> {
                 });
 
                 match last {
-                    Some(prefix) if self.data.str(prefix).iter().all(u8::is_ascii_whitespace) => {
-                        prefix
-                    }
+                    Some(prefix) if self.data.is_spacing(prefix) => prefix,
                     _ => self.data.insert_str(" "),
                 }
             }
-- 
2.43.0


From e9de87fd1fa12544d96b11af303b143808e531ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:25 +0000
Subject: [PATCH 05/23] fix: write the text in front of sequence items byte for
 byte

---
 src/yaml/raw.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index 98abe04..ae4f2eb 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -799,7 +799,7 @@ impl Sequence {
         let mut it = self.items.iter().peekable();
 
         while let Some(item) = it.next() {
-            write!(o, "{}", data.prefix(*item))?;
+            o.write_all(data.prefix(*item))?;
 
             if let SequenceKind::Mapping = self.kind {
                 write!(o, "-")?;
-- 
2.43.0


From ea39e8a3a44f1e3567aeec2efda7af1e7cebf2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:35 +0000
Subject: [PATCH 06/23] fix: write nothing in front of values without text,
 like Display

---
 src/yaml/raw.rs | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index ae4f2eb..5a9dc56 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -306,6 +306,21 @@ impl Raw {
         Ok(())
     }
 
+    /// Test if the value has any text of its own. If it doesn't, then the text
+    /// just preceeding it is not written either.
+    fn has_text(&self) -> bool {
+        match self {
+            Raw::Null(Null::Empty) => false,
+            Raw::Mapping(raw) => {
+                matches!(raw.kind, MappingKind::Inline { .. }) || !raw.items.is_empty()
+            }
+            Raw::Sequence(raw) => {
+                matches!(raw.kind, SequenceKind::Inline { .. }) || !raw.items.is_empty()
+            }
+            _ => true,
+        }
+    }
+
     pub(crate) fn is_tabular(&self) -> bool {
         matches!(
             self,
@@ -844,8 +859,13 @@ impl SequenceItem {
     where
         O: ?Sized + io::Write,
     {
-        o.write_all(data.prefix(self.value))?;
-        data.raw(self.value).write_to(data, o)?;
+        let raw = data.raw(self.value);
+
+        if raw.has_text() {
+            o.write_all(data.prefix(self.value))?;
+        }
+
+        raw.write_to(data, o)?;
         Ok(())
     }
 }
@@ -987,8 +1007,13 @@ impl MappingItem {
     {
         self.key.write_to(data, o)?;
         write!(o, ":")?;
-        o.write_all(data.prefix(self.value))?;
-        data.raw(self.value).write_to(data, o)?;
+        let raw = data.raw(self.value);
+
+        if raw.has_text() {
+            o.write_all(data.prefix(self.value))?;
+        }
+
+        raw.write_to(data, o)?;
         Ok(())
     }
 }
-- 
2.43.0


From 470cbf3bb1a5940bc1580b6c6e71dfcd01c23dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:28 +0000
Subject: [PATCH 07/23] fix: keep directives and the document start marker in
 the prefix

---
 src/yaml/parsing.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index 836afb1..537e964 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -127,19 +127,20 @@ impl<'a> Parser<'a> {
     ///
     /// This is a `---` that is allowed to exist at the beginning of the document.
     fn start_of_document(&mut self) -> StringId {
-        let mut prefix = self.ws();
+        let start = self.n;
+        self.ws();
 
         loop {
             match self.peek() {
                 // Process headers.
                 [b'%', _, _] => {
                     self.find(raw::NEWLINE);
-                    prefix = self.ws();
+                    self.ws();
                 }
                 // Process start-of-document.
                 [b'-', b'-', b'-'] => {
                     self.bump(3);
-                    prefix = self.ws();
+                    self.ws();
                     break;
                 }
                 _ => {
@@ -148,7 +149,7 @@ impl<'a> Parser<'a> {
             }
         }
 
-        prefix
+        self.data.insert_str(self.string(start))
     }
 
     /// Test if eof.
-- 
2.43.0


From c93bb8afbdbb8f7848fed21ebcfaf585da2ac93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:38 +0000
Subject: [PATCH 08/23] fix: stop at the end of input inside an unterminated
 single-quoted string

---
 src/yaml/parsing.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index 537e964..b082932 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -328,6 +328,9 @@ impl<'a> Parser<'a> {
                 [b'\'', _] => {
                     break;
                 }
+                _ if self.is_eof() => {
+                    break;
+                }
                 _ => {
                     self.bump(1);
                 }
@@ -354,6 +357,9 @@ impl<'a> Parser<'a> {
                 [b'\'', _] => {
                     break;
                 }
+                _ if self.is_eof() => {
+                    break;
+                }
                 [b, _] => {
                     self.bump(1);
                     self.scratch.push(b);
-- 
2.43.0


From 2f756d70098df455bb9ce7b0f5db4ef85a8b09d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:48 +0000
Subject: [PATCH 09/23] fix: do not take a NUL byte in an inline key for its
 colon

---
 src/yaml/parsing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index b082932..48301a6 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -778,7 +778,7 @@ impl<'a> Parser<'a> {
             self.bump(1);
         }
 
-        if self.is_eof() {
+        if !matches!(self.peek1(), b':') {
             return None;
         }
 
-- 
2.43.0


From 4be3385c19e3ab989f2d75d2f46d27ae7bc4f3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:59 +0000
Subject: [PATCH 10/23] fix: do not repeat the whitespace after an empty or one
 line block

---
 src/yaml/parsing.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index 48301a6..4103018 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -800,6 +800,7 @@ impl<'a> Parser<'a> {
         let prefix = self.data.insert_str(self.string(start));
 
         let start = self.n;
+        let mut end = start;
         let (mut ws, mut nl) = self.ws_nl();
 
         if nl == 0 {
@@ -807,6 +808,7 @@ impl<'a> Parser<'a> {
             let out = self.input.get(start..self.n).unwrap_or_default().trim();
             self.scratch.extend_from_slice(out);
 
+            end = self.n;
             (ws, nl) = self.ws_nl();
 
             if !self.is_eof() {
@@ -814,7 +816,6 @@ impl<'a> Parser<'a> {
             }
         }
 
-        let mut end = self.n;
         let indent = self.indent();
 
         while !self.is_eof() {
-- 
2.43.0


From 5ee0372080bc08e8785f7d9f0aea6d7088e7fb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:26 +0000
Subject: [PATCH 11/23] fix: end inline sequences and mappings at a missing
 comma instead of adding one

---
 src/yaml/parsing.rs | 31 ++++++++++++-------------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index 4103018..55d4d14 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -504,7 +504,6 @@ impl<'a> Parser<'a> {
         self.bump(1);
 
         let mut items = Vec::new();
-        let mut last = false;
         let mut trailing = false;
         let mut item_prefix = self.ws();
 
@@ -520,19 +519,16 @@ impl<'a> Parser<'a> {
 
             items.push(item_id);
 
-            if last {
+            // Items are separated by commas, so without one there is nothing
+            // left but the end of the sequence.
+            if next_prefix.is_some() || !matches!(self.peek1(), b',') {
                 item_prefix = next_prefix.unwrap_or_else(|| self.ws());
                 break;
             }
 
-            if matches!(self.peek1(), b',') {
-                self.bump(1);
-                trailing = true;
-            } else {
-                last = true;
-            }
-
-            item_prefix = next_prefix.unwrap_or_else(|| self.ws());
+            self.bump(1);
+            trailing = true;
+            item_prefix = self.ws();
         }
 
         if !matches!(self.peek1(), b']') {
@@ -565,7 +561,6 @@ impl<'a> Parser<'a> {
         self.bump(1);
 
         let mut items = Vec::new();
-        let mut last = false;
         let mut trailing = false;
         let mut start = self.n;
         let mut item_prefix = self.ws();
@@ -587,18 +582,16 @@ impl<'a> Parser<'a> {
             items.push(item_id);
 
             item_prefix = next_prefix.unwrap_or_else(|| self.ws());
+            start = self.n;
 
-            if last {
+            // Items are separated by commas, so without one there is nothing
+            // left but the end of the mapping.
+            if !matches!(self.peek1(), b',') {
                 break;
             }
 
-            if matches!(self.peek1(), b',') {
-                self.bump(1);
-                trailing = true;
-            } else {
-                last = true;
-            }
-
+            self.bump(1);
+            trailing = true;
             start = self.n;
             item_prefix = self.ws();
         }
-- 
2.43.0


From 8106684bfe14651af74db916bd9e0cdffcb53d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:48 +0000
Subject: [PATCH 12/23] fix: read inline values that only start like a number
 as strings

---
 src/yaml/parsing.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index 55d4d14..87d18ca 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -259,6 +259,17 @@ impl<'a> Parser<'a> {
         true
     }
 
+    /// Test if current position contains nothing but whitespace until we reach
+    /// the end of an inline value.
+    fn is_inline_end(&self) -> bool {
+        let input = self.input.get(self.n..).unwrap_or_default();
+
+        match input.iter().find(|&&b| !matches!(b, ws!())) {
+            Some(b) => matches!(*b, ctl!() | b'#'),
+            None => true,
+        }
+    }
+
     /// Consume a single number.
     fn number(&mut self, s: &State, start: usize) -> Option<Raw> {
         let mut hint = serde_hint::U64;
@@ -304,6 +315,10 @@ impl<'a> Parser<'a> {
             return None;
         }
 
+        if s.inline && !self.is_inline_end() {
+            return None;
+        }
+
         let string = self.data.insert_str(self.string(start));
         Some(Raw::Number(raw::Number::new(string, hint)))
     }
-- 
2.43.0


From 8968fbe1fb26a38e8a606b6dba2b27757a304133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:20 +0000
Subject: [PATCH 13/23] fix: unquote every quoted mapping key, not just the
 first of a block

---
 src/yaml/parsing.rs | 46 +++++++++++++++++++++++++++++++++++++--------
 1 file changed, 38 insertions(+), 8 deletions(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index 87d18ca..b397e9e 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -583,7 +583,7 @@ impl<'a> Parser<'a> {
         while !matches!(self.peek1(), b'}' | EOF) {
             trailing = false;
 
-            let Some(key) = self.until_colon(self.n) else {
+            let Some(key) = self.until_colon(self.n)? else {
                 return Err(Error::new(start..self.n, ErrorKind::BadMappingSeparator));
             };
 
@@ -731,7 +731,7 @@ impl<'a> Parser<'a> {
             }
 
             start = self.n;
-            current_key = self.next_mapping_key();
+            current_key = self.next_mapping_key()?;
         }
 
         self.data.replace(
@@ -780,18 +780,40 @@ impl<'a> Parser<'a> {
         }
     }
 
+    /// Process a quoted key, provided that it is followed by a `:`.
+    fn quoted_key(&mut self) -> Result<Option<raw::String>> {
+        let start = self.n;
+
+        let key = match self.peek1() {
+            b'"' => self.double_quoted()?,
+            b'\'' => self.single_quoted(),
+            _ => return Ok(None),
+        };
+
+        if !matches!(self.peek1(), b':') {
+            self.n = start;
+            return Ok(None);
+        }
+
+        Ok(Some(key))
+    }
+
     /// Process a key up until `:`.
-    fn until_colon(&mut self, start: usize) -> Option<raw::String> {
+    fn until_colon(&mut self, start: usize) -> Result<Option<raw::String>> {
+        if let Some(key) = self.quoted_key()? {
+            return Ok(Some(key));
+        }
+
         while !matches!(self.peek1(), b':' | EOF) {
             self.bump(1);
         }
 
         if !matches!(self.peek1(), b':') {
-            return None;
+            return Ok(None);
         }
 
         let key = self.data.insert_str(self.string(start));
-        Some(raw::String::new(raw::RawStringKind::Bare, key, key))
+        Ok(Some(raw::String::new(raw::RawStringKind::Bare, key, key)))
     }
 
     /// Process a block as a string.
@@ -946,7 +968,11 @@ impl<'a> Parser<'a> {
     }
 
     /// Parse next mapping key.
-    fn next_mapping_key(&mut self) -> Option<raw::String> {
+    fn next_mapping_key(&mut self) -> Result<Option<raw::String>> {
+        if let Some(key) = self.quoted_key()? {
+            return Ok(Some(key));
+        }
+
         let start = self.n;
 
         let string = loop {
@@ -955,7 +981,7 @@ impl<'a> Parser<'a> {
                     let string = self.string(start);
 
                     if string.is_empty() {
-                        return None;
+                        return Ok(None);
                     }
 
                     break string;
@@ -967,6 +993,10 @@ impl<'a> Parser<'a> {
         };
 
         let string = self.data.insert_str(string);
-        Some(raw::String::new(raw::RawStringKind::Bare, string, string))
+        Ok(Some(raw::String::new(
+            raw::RawStringKind::Bare,
+            string,
+            string,
+        )))
     }
 }
-- 
2.43.0


From 0be2777395e71626e51037d26594b97655b94035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:18 +0000
Subject: [PATCH 14/23] fix: read the escaped double quotes that are written

---
 src/yaml/parsing.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index b397e9e..168e643 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -464,6 +464,7 @@ impl<'a> Parser<'a> {
             b'f' => b'\x0c',
             b'r' => b'\r',
             b'e' => b'\x1b',
+            b'"' => b'"',
             b'\\' => b'\"',
             b'x' => {
                 self.bump(1);
-- 
2.43.0


From db086a7aabed8a9e265bd3e502b11d84616cf57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:28 +0000
Subject: [PATCH 15/23] fix: escape backslashes in double-quoted strings

---
 src/yaml/raw.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index 5a9dc56..b514187 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -579,7 +579,7 @@ impl String {
                     '\r' => "\\r",
                     '\u{1b}' => "\\e",
                     '\"' => "\\\"",
-                    c if c.is_ascii_control() => {
+                    c if c == '\\' || c.is_ascii_control() => {
                         write!(f, "{}\\x{:02x}", &string[start..index], c as u8)?;
                         start = end;
                         continue;
@@ -672,7 +672,7 @@ impl String {
                     b'\r' => b"\\r",
                     0x1b => b"\\e",
                     b'\"' => b"\\\"",
-                    c if c.is_ascii_control() => {
+                    c if c == b'\\' || c.is_ascii_control() => {
                         o.write_all(&string[s..index])?;
                         write!(o, "\\x{c:02x}")?;
                         s = index.saturating_add(1);
-- 
2.43.0


From 54136841008909b55d60cbd943d6b89e4415c4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:18 +0000
Subject: [PATCH 16/23] fix: quote every string that would not be read back as
 itself

---
 src/yaml/raw.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index b514187..9e40239 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -490,7 +490,10 @@ pub(crate) enum RawStringKind {
 impl RawStringKind {
     /// Detect the appropriate kind to use for the given string.
     pub(crate) fn detect(string: &str) -> RawStringKind {
-        if matches!(string, "true" | "false" | "null") {
+        /// Texts which are read back as something else than a string.
+        const RESERVED: [&str; 5] = ["", "~", "true", "false", "null"];
+
+        if RESERVED.iter().any(|r| string.eq_ignore_ascii_case(r)) {
             return RawStringKind::Single;
         }
 
@@ -501,13 +504,13 @@ impl RawStringKind {
             let first = mem::take(&mut first);
 
             match c {
-                '0'..='9' if first => {
+                '0'..='9' | '-' | '.' | '"' | '[' | '{' | '>' | '|' | '#' | '%' | ' ' if first => {
                     kind = RawStringKind::Single;
                 }
                 '\'' => {
                     return RawStringKind::Double;
                 }
-                ':' => {
+                ':' | ',' | ']' | '}' => {
                     kind = RawStringKind::Single;
                 }
                 b if b.is_control() => {
-- 
2.43.0


From 166c7c72429a98addc68ee94e08b7211f30e0185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:50 +0000
Subject: [PATCH 17/23] fix: quote inserted keys that would not be read back as
 themselves

---
 src/yaml/mapping/mapping_mut.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/yaml/mapping/mapping_mut.rs b/src/yaml/mapping/mapping_mut.rs
index c1d4654..e17c4d6 100644
--- a/src/yaml/mapping/mapping_mut.rs
+++ b/src/yaml/mapping/mapping_mut.rs
@@ -1,5 +1,7 @@
 use core::mem;
 
+use bstr::ByteSlice;
+
 use crate::yaml::data::{Data, Id, StringId};
 use crate::yaml::raw::{self, new_bool, new_string, Raw};
 use crate::yaml::{Block, Mapping, Separator, ValueMut};
@@ -149,6 +151,7 @@ impl<'a> MappingMut<'a> {
 
     /// Insert a value into the mapping.
     fn inner_insert(&mut self, key: &[u8], separator: Separator<'_>, value: Raw) -> Id {
+        let kind = raw::RawStringKind::detect(&key.to_str_lossy());
         let key = self.data.insert_str(key);
 
         if let Some(id) = self
@@ -164,7 +167,7 @@ impl<'a> MappingMut<'a> {
             return id;
         }
 
-        let key = raw::String::new(raw::RawStringKind::Bare, key, key);
+        let key = raw::String::new(kind, key, key);
 
         let item_prefix = if self.data.mapping(self.id).items.last().is_some() {
             self.make_prefix()
-- 
2.43.0


From f327725f1273dc34d213d8ed5d01b6fe0a64f36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:12 +0000
Subject: [PATCH 18/23] fix: write the strings of serialized edits in a fixed
 order

---
 src/yaml/data.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/yaml/data.rs b/src/yaml/data.rs
index 6cee513..4457572 100644
--- a/src/yaml/data.rs
+++ b/src/yaml/data.rs
@@ -1,4 +1,4 @@
-use std::collections::hash_map::{self, HashMap};
+use std::collections::btree_map::{self, BTreeMap};
 use std::fmt;
 use std::hash::Hash;
 use std::mem;
@@ -93,7 +93,7 @@ pub(crate) struct Entry {
 #[derive(Clone, Default)]
 #[cfg_attr(feature = "serde-edits", derive(Serialize, Deserialize))]
 pub(crate) struct Data {
-    strings: HashMap<StringId, Box<[u8]>>,
+    strings: BTreeMap<StringId, Box<[u8]>>,
     slab: slab::Slab<Entry>,
 }
 
@@ -126,7 +126,7 @@ impl Data {
         let hash = hash.to_le_bytes();
         let id = StringId(hash);
 
-        if let hash_map::Entry::Vacant(e) = self.strings.entry(id) {
+        if let btree_map::Entry::Vacant(e) = self.strings.entry(id) {
             e.insert(string.as_ref().into());
         }
 
-- 
2.43.0


From 93c5044d000af9160b3f7f5efbc4b26069e3550b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:40 +0000
Subject: [PATCH 19/23] fix: do not recurse endlessly on numbers that do not
 fit their recorded type

---
 src/yaml/serde/de.rs | 79 +++++++++++++++++++++++++++++++++++++-------
 1 file changed, 67 insertions(+), 12 deletions(-)

diff --git a/src/yaml/serde/de.rs b/src/yaml/serde/de.rs
index 5a146c4..580d331 100644
--- a/src/yaml/serde/de.rs
+++ b/src/yaml/serde/de.rs
@@ -25,6 +25,25 @@ impl<'de, 'a: 'de> IntoDeserializer<'de, Error> for Value<'a> {
     }
 }
 
+/// Visit a number which does not fit the type it has been recorded with.
+fn visit_number<'de, V>(value: Value<'de>, visitor: V) -> Result<V::Value, Error>
+where
+    V: Visitor<'de>,
+{
+    if let Some(value) = value.as_u128() {
+        return visitor.visit_u128(value);
+    }
+
+    if let Some(value) = value.as_i128() {
+        return visitor.visit_i128(value);
+    }
+
+    match value.as_f64() {
+        Some(value) => visitor.visit_f64(value),
+        None => Err(Error::custom("cannot deserialize number")),
+    }
+}
+
 /// [`Deserializer`] implementation for [`Document`].
 ///
 /// This allows a [`Document`] to be deserialized from any compatible type.
@@ -40,18 +59,54 @@ impl<'de> Deserializer<'de> for Value<'de> {
             raw::Raw::Null(..) => visitor.visit_none(),
             raw::Raw::Boolean(bool) => visitor.visit_bool(bool.value),
             raw::Raw::Number(raw) => match raw.hint {
-                RawNumberHint::Float32 => self.deserialize_f32(visitor),
-                RawNumberHint::Float64 => self.deserialize_f64(visitor),
-                RawNumberHint::Unsigned8 => self.deserialize_u8(visitor),
-                RawNumberHint::Unsigned16 => self.deserialize_u16(visitor),
-                RawNumberHint::Unsigned32 => self.deserialize_u32(visitor),
-                RawNumberHint::Unsigned64 => self.deserialize_u64(visitor),
-                RawNumberHint::Unsigned128 => self.deserialize_u128(visitor),
-                RawNumberHint::Signed8 => self.deserialize_i8(visitor),
-                RawNumberHint::Signed16 => self.deserialize_i16(visitor),
-                RawNumberHint::Signed32 => self.deserialize_i32(visitor),
-                RawNumberHint::Signed64 => self.deserialize_i64(visitor),
-                RawNumberHint::Signed128 => self.deserialize_i128(visitor),
+                RawNumberHint::Float32 => match self.as_f32() {
+                    Some(value) => visitor.visit_f32(value),
+                    None => visit_number(self, visitor),
+                },
+                RawNumberHint::Float64 => match self.as_f64() {
+                    Some(value) => visitor.visit_f64(value),
+                    None => visit_number(self, visitor),
+                },
+                RawNumberHint::Unsigned8 => match self.as_u8() {
+                    Some(value) => visitor.visit_u8(value),
+                    None => visit_number(self, visitor),
+                },
+                RawNumberHint::Unsigned16 => match self.as_u16() {
+                    Some(value) => visitor.visit_u16(value),
+                    None => visit_number(self, visitor),
+                },
+                RawNumberHint::Unsigned32 => match self.as_u32() {
+                    Some(value) => visitor.visit_u32(value),
+                    None => visit_number(self, visitor),
+                },
+                RawNumberHint::Unsigned64 => match self.as_u64() {
+                    Some(value) => visitor.visit_u64(value),
+                    None => visit_number(self, visitor),
+                },
+                RawNumberHint::Unsigned128 => match self.as_u128() {
+                    Some(value) => visitor.visit_u128(value),
+                    None => visit_number(self, visitor),
+                },
+                RawNumberHint::Signed8 => match self.as_i8() {
+                    Some(value) => visitor.visit_i8(value),
+                    None => visit_number(self, visitor),
+                },
+                RawNumberHint::Signed16 => match self.as_i16() {
+                    Some(value) => visitor.visit_i16(value),
+                    None => visit_number(self, visitor),
+                },
+                RawNumberHint::Signed32 => match self.as_i32() {
+                    Some(value) => visitor.visit_i32(value),
+                    None => visit_number(self, visitor),
+                },
+                RawNumberHint::Signed64 => match self.as_i64() {
+                    Some(value) => visitor.visit_i64(value),
+                    None => visit_number(self, visitor),
+                },
+                RawNumberHint::Signed128 => match self.as_i128() {
+                    Some(value) => visitor.visit_i128(value),
+                    None => visit_number(self, visitor),
+                },
             },
             raw::Raw::String(raw) => {
                 let string = self.data.str(raw.id);
-- 
2.43.0


From bdb32b56a79f6b5b1ea8d607cda273b93dcc36b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:48 +0000
Subject: [PATCH 20/23] fix: deserialize 128-bit integers

---
 src/yaml/serde/de.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/yaml/serde/de.rs b/src/yaml/serde/de.rs
index 580d331..40f0406 100644
--- a/src/yaml/serde/de.rs
+++ b/src/yaml/serde/de.rs
@@ -182,6 +182,17 @@ impl<'de> Deserializer<'de> for Value<'de> {
         }
     }
 
+    #[inline]
+    fn deserialize_i128<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'de>,
+    {
+        match self.as_i128() {
+            Some(value) => visitor.visit_i128(value),
+            None => self.deserialize_any(visitor),
+        }
+    }
+
     #[inline]
     fn deserialize_u8<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
@@ -226,6 +237,17 @@ impl<'de> Deserializer<'de> for Value<'de> {
         }
     }
 
+    #[inline]
+    fn deserialize_u128<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'de>,
+    {
+        match self.as_u128() {
+            Some(value) => visitor.visit_u128(value),
+            None => self.deserialize_any(visitor),
+        }
+    }
+
     #[inline]
     fn deserialize_f32<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
-- 
2.43.0


From a5ebf86e2b3830a599c483e3523b1eb838782d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:56 +0000
Subject: [PATCH 21/23] fix: do not serialize numbers that do not fit their
 recorded type as nothing

---
 src/yaml/serde/ser.rs | 43 +++++++++++++++++++++++++++++++------------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/src/yaml/serde/ser.rs b/src/yaml/serde/ser.rs
index 6cc8218..b9361f2 100644
--- a/src/yaml/serde/ser.rs
+++ b/src/yaml/serde/ser.rs
@@ -7,6 +7,25 @@ use crate::yaml::raw;
 use crate::yaml::serde_hint::RawNumberHint;
 use crate::yaml::{Mapping, Sequence, Value};
 
+/// Serialize a number which does not fit the type it has been recorded with.
+fn serialize_number<S>(value: &Value<'_>, serializer: S) -> Result<S::Ok, S::Error>
+where
+    S: Serializer,
+{
+    if let Some(value) = value.as_u128() {
+        return serializer.serialize_u128(value);
+    }
+
+    if let Some(value) = value.as_i128() {
+        return serializer.serialize_i128(value);
+    }
+
+    match value.as_f64() {
+        Some(value) => serializer.serialize_f64(value),
+        None => Err(S::Error::custom("cannot serialize number")),
+    }
+}
+
 impl Serialize for Value<'_> {
     fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
     where
@@ -18,51 +37,51 @@ impl Serialize for Value<'_> {
             raw::Raw::Number(raw) => match raw.hint {
                 RawNumberHint::Float32 => match self.as_f32() {
                     Some(value) => serializer.serialize_f32(value),
-                    None => serializer.serialize_none(),
+                    None => serialize_number(self, serializer),
                 },
                 RawNumberHint::Float64 => match self.as_f64() {
                     Some(value) => serializer.serialize_f64(value),
-                    None => serializer.serialize_none(),
+                    None => serialize_number(self, serializer),
                 },
                 RawNumberHint::Unsigned8 => match self.as_u8() {
                     Some(value) => serializer.serialize_u8(value),
-                    None => serializer.serialize_none(),
+                    None => serialize_number(self, serializer),
                 },
                 RawNumberHint::Unsigned16 => match self.as_u16() {
                     Some(value) => serializer.serialize_u16(value),
-                    None => serializer.serialize_none(),
+                    None => serialize_number(self, serializer),
                 },
                 RawNumberHint::Unsigned32 => match self.as_u32() {
                     Some(value) => serializer.serialize_u32(value),
-                    None => serializer.serialize_none(),
+                    None => serialize_number(self, serializer),
                 },
                 RawNumberHint::Unsigned64 => match self.as_u64() {
                     Some(value) => serializer.serialize_u64(value),
-                    None => serializer.serialize_none(),
+                    None => serialize_number(self, serializer),
                 },
                 RawNumberHint::Unsigned128 => match self.as_u128() {
                     Some(value) => serializer.serialize_u128(value),
-                    None => serializer.serialize_none(),
+                    None => serialize_number(self, serializer),
                 },
                 RawNumberHint::Signed8 => match self.as_i8() {
                     Some(value) => serializer.serialize_i8(value),
-                    None => serializer.serialize_none(),
+                    None => serialize_number(self, serializer),
                 },
                 RawNumberHint::Signed16 => match self.as_i16() {
                     Some(value) => serializer.serialize_i16(value),
-                    None => serializer.serialize_none(),
+                    None => serialize_number(self, serializer),
                 },
                 RawNumberHint::Signed32 => match self.as_i32() {
                     Some(value) => serializer.serialize_i32(value),
-                    None => serializer.serialize_none(),
+                    None => serialize_number(self, serializer),
                 },
                 RawNumberHint::Signed64 => match self.as_i64() {
                     Some(value) => serializer.serialize_i64(value),
-                    None => serializer.serialize_none(),
+                    None => serialize_number(self, serializer),
                 },
                 RawNumberHint::Signed128 => match self.as_i128() {
                     Some(value) => serializer.serialize_i128(value),
-                    None => serializer.serialize_none(),
+                    None => serialize_number(self, serializer),
                 },
             },
             raw::Raw::String(raw) => {
-- 
2.43.0


From bbc7173f1ded261fffcd6c85af5402012eda2fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:03 +0000
Subject: [PATCH 22/23] fix: deserialize units from nulls and newtypes from the
 value they wrap

---
 src/yaml/serde/de.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/yaml/serde/de.rs b/src/yaml/serde/de.rs
index 40f0406..40b6e93 100644
--- a/src/yaml/serde/de.rs
+++ b/src/yaml/serde/de.rs
@@ -341,7 +341,10 @@ impl<'de> Deserializer<'de> for Value<'de> {
     where
         V: Visitor<'de>,
     {
-        self.deserialize_any(visitor)
+        match self.data.raw(self.id) {
+            raw::Raw::Null(..) => visitor.visit_unit(),
+            _ => self.deserialize_any(visitor),
+        }
     }
 
     #[inline]
@@ -353,7 +356,7 @@ impl<'de> Deserializer<'de> for Value<'de> {
     where
         V: Visitor<'de>,
     {
-        self.deserialize_any(visitor)
+        self.deserialize_unit(visitor)
     }
 
     #[inline]
@@ -365,7 +368,7 @@ impl<'de> Deserializer<'de> for Value<'de> {
     where
         V: Visitor<'de>,
     {
-        self.deserialize_any(visitor)
+        visitor.visit_newtype_struct(self)
     }
 
     #[inline]
-- 
2.43.0


From e7c953c91ce2d66ef4042e19b0257a0dd97c9f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:11 +0000
Subject: [PATCH 23/23] fix: hand mapping keys over as strings

---
 src/yaml/serde/de.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/yaml/serde/de.rs b/src/yaml/serde/de.rs
index 40b6e93..57a4c35 100644
--- a/src/yaml/serde/de.rs
+++ b/src/yaml/serde/de.rs
@@ -479,7 +479,11 @@ impl<'de> Deserializer<'de> for BStrDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        visitor.visit_bytes(self.string)
+        if let Ok(string) = self.string.to_str() {
+            visitor.visit_borrowed_str(string)
+        } else {
+            visitor.visit_borrowed_bytes(self.string)
+        }
     }
 
     #[inline]
-- 
2.43.0

