From 6a16c568fb921448752e088286ec10297485ce8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:16 +0000
Subject: [PATCH 01/13] fix: do not overflow when registering i32::MIN in
 limits

---
 src/buf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buf.rs b/src/buf.rs
index f6f69f0..b389ba3 100644
--- a/src/buf.rs
+++ b/src/buf.rs
@@ -192,7 +192,7 @@ impl Limits {
     }
 
     pub(crate) fn register_int(&mut self, val: i32) {
-        self.int = self.int.max(val.abs());
+        self.int = self.int.max(val.saturating_abs());
     }
 
     pub(crate) fn register_real(&mut self, val: f32) {
-- 
2.43.0


From ebbeed63ca5302e5690557e2527da8086d088297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:16 +0000
Subject: [PATCH 02/13] fix: make xref stream fields wide enough for free
 object numbers

---
 src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index ffa495e..ba07c99 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -379,7 +379,11 @@ impl Pdf {
         // Include the reference of the xref stream in the offsets as well!
         let xref_offset = buf.len();
         offsets.push((xref_id, xref_offset));
-        let field_width = determine_field_width(xref_offset);
+
+        // Free entries store object numbers in this field, so it must be wide
+        // enough for these, too.
+        let max_id = offsets.iter().map(|(id, _)| id.get() as usize).max().unwrap_or(0);
+        let field_width = determine_field_width(xref_offset.max(max_id));
 
         let mut writer = XRefStreamWriter::new(field_width);
         let xref_len = write_offsets(offsets, &mut writer);
-- 
2.43.0


From 85640bef6c3c1ecae258f40110fe615459ccc30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:16 +0000
Subject: [PATCH 03/13] fix: force the decimal point for large reals in
 push_decimal

---
 src/buf.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/buf.rs b/src/buf.rs
index b389ba3..fe08236 100644
--- a/src/buf.rs
+++ b/src/buf.rs
@@ -54,13 +54,22 @@ impl Buf {
         if value as i32 as f32 == value {
             self.push_int(value as i32);
         } else {
-            self.push_decimal(value);
+            self.push_real(value);
         }
     }
 
     /// Like `push_float`, but forces the decimal point.
     #[inline]
     pub(crate) fn push_decimal(&mut self, value: f32) {
+        let start = self.inner.len();
+        self.push_real(value);
+        if !self.inner[start..].contains(&b'.') {
+            self.extend(b".0");
+        }
+    }
+
+    #[inline]
+    fn push_real(&mut self, value: f32) {
         self.limits.register_real(value);
 
         if value == 0.0 || (value.abs() > 1e-6 && value.abs() < 1e12) {
-- 
2.43.0


From eb8c203d088727553272b3ae5505744941c92005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:16 +0000
Subject: [PATCH 04/13] fix: map the RP structure role to RP in PDF 2.0

---
 src/structure.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/structure.rs b/src/structure.rs
index 535eb44..85992fc 100644
--- a/src/structure.rs
+++ b/src/structure.rs
@@ -973,7 +973,7 @@ impl StructRole {
             Self::Warichu => Some(StructRole2::Warichu),
             Self::RB => Some(StructRole2::RB),
             Self::RT => Some(StructRole2::RT),
-            Self::RP => Some(StructRole2::WP),
+            Self::RP => Some(StructRole2::RP),
             Self::WT => Some(StructRole2::WT),
             Self::WP => Some(StructRole2::WP),
             Self::Figure => Some(StructRole2::Figure),
-- 
2.43.0


From e2f07aa8e276bfa76bd795c99d6808504648511d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:16 +0000
Subject: [PATCH 05/13] fix: write /PC for the page close action of annotations

---
 src/actions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actions.rs b/src/actions.rs
index 470e26e..769be02 100644
--- a/src/actions.rs
+++ b/src/actions.rs
@@ -339,7 +339,7 @@ impl AdditionalActions<'_> {
     /// shall be performed when the page containing the annotation is closed.
     /// Only permissible for annotations. PDF 1.5+.
     pub fn annot_page_close(&mut self) -> Action<'_> {
-        self.insert(Name(b"PV")).start()
+        self.insert(Name(b"PC")).start()
     }
 
     /// Start writing the `/PV` dictionary. This sets the action action that
-- 
2.43.0


From 44ec5154b4e995e027e0ff27597e7c57c5497e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:16 +0000
Subject: [PATCH 06/13] fix: write /AppearanceFilter for signature seed values

---
 src/forms.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/forms.rs b/src/forms.rs
index 6726fc7..e3357a4 100644
--- a/src/forms.rs
+++ b/src/forms.rs
@@ -726,7 +726,7 @@ impl SignatureSeedValue<'_> {
     /// the appearance must be available and used to sign the document.
     /// PDF 2.0+.
     pub fn appearance_filter(&mut self, signature_appearance: TextStr<'_>) -> &mut Self {
-        self.pair(Name(b"LockDocument"), signature_appearance);
+        self.pair(Name(b"AppearanceFilter"), signature_appearance);
         self
     }
 }
-- 
2.43.0


From 13ed39fbf9d5c73aed02a15f837ae10b48ee218d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:16 +0000
Subject: [PATCH 07/13] fix: write /SignaturePolicyCommitmentType for
 certificate seed values

---
 src/forms.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/forms.rs b/src/forms.rs
index e3357a4..64b876a 100644
--- a/src/forms.rs
+++ b/src/forms.rs
@@ -998,7 +998,7 @@ impl CertificateSeedValue<'_> {
         &mut self,
         commitment_types: impl IntoIterator<Item = Str<'b>>,
     ) -> &mut Self {
-        self.insert(Name(b"SignaturePolicyHashAlgorithm"))
+        self.insert(Name(b"SignaturePolicyCommitmentType"))
             .array()
             .items(commitment_types);
         self
-- 
2.43.0


From e6a63cad7ebfe56190d2c0976d49fd36fdfdfda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:16 +0000
Subject: [PATCH 08/13] fix: write /B for the opacity of page transitions

---
 src/transitions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transitions.rs b/src/transitions.rs
index 83d3b65..885eb08 100644
--- a/src/transitions.rs
+++ b/src/transitions.rs
@@ -57,7 +57,7 @@ impl Transition<'_> {
 
     /// Write the `/B` attribute for the `Fly` transition. PDF 1.5+.
     pub fn opaque(&mut self, opaque: f32) -> &mut Self {
-        self.pair(Name(b"F"), opaque);
+        self.pair(Name(b"B"), opaque);
         self
     }
 }
-- 
2.43.0


From 5f514bfa87828d91fe36cbe19abed61da76dd92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:16 +0000
Subject: [PATCH 09/13] fix: use the standard URIs for structure namespaces

---
 src/structure.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/structure.rs b/src/structure.rs
index 85992fc..00d2394 100644
--- a/src/structure.rs
+++ b/src/structure.rs
@@ -764,7 +764,7 @@ deref!('a, ClassMap<'a> => Dict<'a>, dict);
 /// Role the structure element fulfills in the document for PDF 1.7 and below.
 ///
 /// These are the predefined standard roles in PDF 1.7 and below, matching the
-/// `https://www.iso.org/pdf/ssn` namespace. The writer may write their own
+/// `http://iso.org/pdf/ssn` namespace. The writer may write their own
 /// roles and then provide a mapping with [`StructTreeRoot::role_map`], or, if
 /// writing PDF 2.0, with [`Namespace::role_map_ns`]. PDF 1.4+.
 #[derive(Debug, Copy, Clone, Eq, PartialEq, Hash)]
@@ -1089,7 +1089,7 @@ impl TryFrom<StructRole> for StructRole2 {
 /// PDF 2.0 roles the structure element fulfills in the document.
 ///
 /// These are the predefined standard roles in PDF 2.0, matching the
-/// `https://www.iso.org/pdf2/ssn` namespace. The writer may write their own
+/// `http://iso.org/pdf2/ssn` namespace. The writer may write their own
 /// types and then provide a mapping using [`Namespace::role_map_ns`]. PDF 2.0+.
 #[derive(Debug, Copy, Clone, Eq, PartialEq, Hash)]
 pub enum StructRole2 {
@@ -1546,18 +1546,18 @@ impl Namespace<'_> {
     /// Write the namespace dictionary for the _standard structure namespace for
     /// PDF 2.0_.
     pub fn pdf_2_ns(mut self) {
-        self.ns(TextStr("https://www.iso.org/pdf2/ssn"));
+        self.ns(TextStr("http://iso.org/pdf2/ssn"));
     }
 
     /// Write the namespace dictionary for the _standard structure namespace for
     /// PDF 1.7_.
     pub fn pdf_1_7_ns(mut self) {
-        self.ns(TextStr("https://www.iso.org/pdf/ssn"));
+        self.ns(TextStr("http://iso.org/pdf/ssn"));
     }
 
     /// Write the namespace dictionary for MathML 3.0.
     pub fn mathml_3_0_ns(mut self) {
-        self.ns(TextStr("https://www.w3.org/1998/Math/MathML"));
+        self.ns(TextStr("http://www.w3.org/1998/Math/MathML"));
     }
 }
 
-- 
2.43.0


From 6f15eaae30003445259f60a16ffb8ad56bbfbd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:16 +0000
Subject: [PATCH 10/13] fix: write name tree limits as strings

---
 src/object.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/object.rs b/src/object.rs
index a16146f..bfa0adf 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -1467,7 +1467,11 @@ impl<T> NameTree<'_, T> {
     /// Write the `/Limits` array to set the range of names in this node. This
     /// is required for every node except the root node.
     pub fn limits(&mut self, min: Name, max: Name) -> &mut Self {
-        self.dict.insert(Name(b"Limits")).array().typed().items([min, max]);
+        self.dict
+            .insert(Name(b"Limits"))
+            .array()
+            .typed()
+            .items([Str(min.0), Str(max.0)]);
         self
     }
 }
-- 
2.43.0


From 9c122e3d3f48ccd0036baaea176e33da1ddbee8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:48 +0000
Subject: [PATCH 11/13] fix: separate an empty name from a following token in
 compact mode

---
 src/content.rs |  4 ++--
 src/object.rs  | 10 +++++++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/content.rs b/src/content.rs
index 36224fc..ab7d6c5 100644
--- a/src/content.rs
+++ b/src/content.rs
@@ -1,6 +1,6 @@
 use super::*;
 use crate::chunk::Settings;
-use crate::object::{is_delimiter_character, TextStrLike};
+use crate::object::{is_self_terminating, TextStrLike};
 
 /// A builder for a content stream.
 pub struct Content {
@@ -150,7 +150,7 @@ impl Drop for Operation<'_> {
         // For example, in case we previously wrote a BT operator and then a
         // `[]` operand in the next operation, we don't need to pad them.
         if (self.settings.pretty
-            || self.buf.last().is_some_and(|b| !is_delimiter_character(*b)))
+            || self.buf.last().is_some_and(|b| !is_self_terminating(*b)))
             && !self.buf.is_empty()
         {
             self.buf.push(pad_byte);
diff --git a/src/object.rs b/src/object.rs
index bfa0adf..20b0ebe 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -384,6 +384,14 @@ pub(crate) fn is_delimiter_character(byte: u8) -> bool {
     matches!(byte, b'(' | b')' | b'<' | b'>' | b'[' | b']' | b'/' | b'%')
 }
 
+/// Whether no padding is needed between the given byte and a following regular
+/// character. A trailing `/` is an empty name, which would otherwise absorb the
+/// regular characters after it.
+#[inline]
+pub(crate) fn is_self_terminating(byte: u8) -> bool {
+    byte != b'/' && is_delimiter_character(byte)
+}
+
 /// The null object.
 #[derive(Debug, Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Hash)]
 pub struct Null;
@@ -692,7 +700,7 @@ impl<'a> Obj<'a> {
         // for padding.
 
         let ends_with_delimiter =
-            self.buf.last().copied().is_some_and(is_delimiter_character);
+            self.buf.last().copied().is_some_and(is_self_terminating);
 
         if self.needs_padding && !T::STARTS_WITH_DELIMITER && !ends_with_delimiter {
             self.buf.extend(b" ");
-- 
2.43.0


From ec324098070dacda5a6a73a5173b7ec94bb84dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:48 +0000
Subject: [PATCH 12/13] fix: register the byte length of dates and text strings
 in limits

---
 src/object.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/object.rs b/src/object.rs
index 20b0ebe..6534fa8 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -167,18 +167,19 @@ impl Sealed for TextStr<'_> {
     const STARTS_WITH_DELIMITER: bool = true;
 
     fn write(self, buf: &mut Buf) {
-        buf.limits.register_str_len(self.0.len());
-
         // ASCII and PDFDocEncoding match for 32 up to 126.
         if self.0.bytes().all(|b| matches!(b, 32..=126)) {
             Str(self.0.as_bytes()).write(buf);
         } else {
             buf.reserve(6 + 4 * self.0.len());
             write_utf16be_text_str_header(buf);
+            let mut len = 2;
             for value in self.0.encode_utf16() {
                 buf.push_hex_u16(value);
+                len += 2;
             }
             write_utf16be_text_str_footer(buf);
+            buf.limits.register_str_len(len);
         }
     }
 }
@@ -256,21 +257,20 @@ impl<'a, 'b> Sealed for TextStrWithLang<'a, 'b> {
     const STARTS_WITH_DELIMITER: bool = true;
 
     fn write(self, buf: &mut Buf) {
-        let mut len = 0;
+        // The byte order mark.
+        let mut len = 2;
         let mut buf_len = 6;
 
         for (lang, text) in self.0 {
             // Each language tag is enclosed in two escape characters, plus the
             // two-letter language code and optional two-letter region code.
-            len += text.len() + lang.len() + 2;
+            len += 2 * (lang.len() + 2);
             // Each hexadecimal character is four bytes long, plus four bytes
             // for the escape sequence. The language tag is encoded in
             // hexadecimal, so each byte becomes two hexadecimal characters.
             buf_len += 4 * text.len() + lang.len() * 2 + 4;
         }
 
-        buf.limits.register_str_len(len);
-
         // Escape sequences for languages may only appear in Unicode-encoded
         // text strings, see clause 7.9.2.2 of ISO 32000-1:2008.
         buf.reserve(buf_len);
@@ -280,10 +280,12 @@ impl<'a, 'b> Sealed for TextStrWithLang<'a, 'b> {
             write_utf16be_lang_code(*lang, buf);
             for value in text.encode_utf16() {
                 buf.push_hex_u16(value);
+                len += 2;
             }
         }
 
         write_utf16be_text_str_footer(buf);
+        buf.limits.register_str_len(len);
     }
 }
 
@@ -613,6 +615,7 @@ impl Sealed for Date {
 
     fn write(self, buf: &mut Buf) {
         buf.extend(b"(D:");
+        let start = buf.len() - 2;
 
         (|| {
             write!(buf.inner, "{:04}", self.year).unwrap();
@@ -635,6 +638,7 @@ impl Sealed for Date {
             Some(())
         })();
 
+        buf.limits.register_str_len(buf.len() - start);
         buf.push(b')');
     }
 }
-- 
2.43.0


From b0f23d8d673bf760da43a212c51756d4cc3e30c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:27 +0000
Subject: [PATCH 13/13] fix: write CMYK colors of widgets in the component
 order of DeviceCMYK

---
 src/annotations.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/annotations.rs b/src/annotations.rs
index cfc1d0a..d50f1b1 100644
--- a/src/annotations.rs
+++ b/src/annotations.rs
@@ -431,7 +431,7 @@ impl AppearanceCharacteristics<'_> {
     /// Write the `/BC` attribute using an RGB color. This sets the widget
     /// annotation's border color.
     pub fn border_color_cymk(&mut self, c: f32, y: f32, m: f32, k: f32) -> &mut Self {
-        self.insert(Name(b"BC")).array().items([c, y, m, k]);
+        self.insert(Name(b"BC")).array().items([c, m, y, k]);
         self
     }
 
@@ -459,7 +459,7 @@ impl AppearanceCharacteristics<'_> {
     /// Write the `/BG` attribute using an RGB color. This sets the widget
     /// annotation's backround color.
     pub fn background_color_cymk(&mut self, c: f32, y: f32, m: f32, k: f32) -> &mut Self {
-        self.insert(Name(b"BG")).array().items([c, y, m, k]);
+        self.insert(Name(b"BG")).array().items([c, m, y, k]);
         self
     }
 
-- 
2.43.0

