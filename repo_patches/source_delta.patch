From 24a7093822afd4900dc61b2b778f14e706d05f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:13 +0000
Subject: [PATCH 1/4] fix: rigid body whose velocities are cut off is an error,
 not a body without velocities

---
 src/network/attributes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/network/attributes.rs b/src/network/attributes.rs
index 8230eae..f5cd96f 100644
--- a/src/network/attributes.rs
+++ b/src/network/attributes.rs
@@ -1267,8 +1267,8 @@ impl AttributeDecoder {
         let mut angular_velocity = None;
 
         if !sleeping {
-            linear_velocity = Some(Vector3f::decode(bits, self.version.net_version()))?;
-            angular_velocity = Some(Vector3f::decode(bits, self.version.net_version()))?;
+            linear_velocity = Some(Vector3f::decode(bits, self.version.net_version())?);
+            angular_velocity = Some(Vector3f::decode(bits, self.version.net_version())?);
         }
 
         Some(RigidBody {
-- 
2.43.0


From ab5d242340dfadd427fc59302fb83faed8d626a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:23 +0000
Subject: [PATCH 2/4] fix: bound the nesting of header properties so a corrupt
 header cannot exhaust the stack

---
 src/header.rs | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/header.rs b/src/header.rs
index c92479f..b971b89 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -78,9 +78,22 @@ enum ParserMode {
     Quirks,
 }
 
+/// How deep array and struct properties can be nested. Real replays nest no
+/// more than a few levels, but a corrupt header can claim enough levels to
+/// exhaust the stack.
+const MAX_PROPERTY_DEPTH: usize = 32;
+
 fn parse_rdict(
     rlp: &mut CoreParser,
     mode: ParserMode,
+) -> Result<Vec<(String, HeaderProp)>, ParseError> {
+    parse_nested_rdict(rlp, mode, 0)
+}
+
+fn parse_nested_rdict(
+    rlp: &mut CoreParser,
+    mode: ParserMode,
+    depth: usize,
 ) -> Result<Vec<(String, HeaderProp)>, ParseError> {
     // The return type of this function is a key value vector because since there is no format
     // specification, we can't rule out duplicate keys.
@@ -121,7 +134,10 @@ fn parse_rdict(
                     .parse_text()
                     .map(|kind| HeaderProp::Byte { kind, value: None }),
             },
-            "ArrayProperty" => array_property(rlp, mode),
+            "ArrayProperty" | "StructProperty" if depth >= MAX_PROPERTY_DEPTH => {
+                Err(ParseError::UnexpectedProperty(String::from(kind)))
+            }
+            "ArrayProperty" => array_property(rlp, mode, depth),
             "FloatProperty" => rlp
                 .take_bytes::<4>()
                 .map(f32::from_le_bytes)
@@ -138,7 +154,7 @@ fn parse_rdict(
             "StrProperty" => rlp.parse_text().map(HeaderProp::Str),
             "StructProperty" => {
                 let name = rlp.parse_str()?;
-                let fields = parse_rdict(rlp, mode)?;
+                let fields = parse_nested_rdict(rlp, mode, depth + 1)?;
                 Ok(HeaderProp::Struct {
                     name: String::from(name),
                     fields,
@@ -157,9 +173,13 @@ fn bool_prop(data: &[u8]) -> HeaderProp {
     HeaderProp::Bool(data[0] == 1)
 }
 
-fn array_property(rlp: &mut CoreParser, mode: ParserMode) -> Result<HeaderProp, ParseError> {
+fn array_property(
+    rlp: &mut CoreParser,
+    mode: ParserMode,
+    depth: usize,
+) -> Result<HeaderProp, ParseError> {
     let size = rlp.take_i32("array property size")?;
-    let arr = CoreParser::repeat(size as usize, || parse_rdict(rlp, mode))?;
+    let arr = CoreParser::repeat(size as usize, || parse_nested_rdict(rlp, mode, depth + 1))?;
     Ok(HeaderProp::Array(arr))
 }
 
-- 
2.43.0


From 1b2b262d5271655114b10bb74dd7f1f1dd6f8a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:20 +0000
Subject: [PATCH 3/4] fix: an update of a deleted actor is an unknown actor for
 every actor id

---
 src/network/frame_decoder.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/network/frame_decoder.rs b/src/network/frame_decoder.rs
index 6f2ff15..e8b4c4e 100644
--- a/src/network/frame_decoder.rs
+++ b/src/network/frame_decoder.rs
@@ -45,8 +45,10 @@ impl<T> RawSegmentedArray<T> {
     }
 
     pub(crate) fn delete(&mut self, key: usize) {
-        match self.array.get(key) {
-            Some(_) => {} // skip removing
+        match self.array.get_mut(key) {
+            Some(entry) => {
+                *entry = None;
+            }
             None => {
                 self.map.remove(&key);
             }
-- 
2.43.0


From 5036a7fd3a118a1abe476e169aa3dec1c64a43e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:22 +0000
Subject: [PATCH 4/4] fix: a product is only decoded as a class that the replay
 lists

The object id of a product class missing from the replay defaulted to 0, so
that a product of object 0 was decoded as a colour and bits that belong to
what follows were consumed.
---
 src/network/attributes.rs | 41 +++++++++++++++------------------------
 1 file changed, 16 insertions(+), 25 deletions(-)

diff --git a/src/network/attributes.rs b/src/network/attributes.rs
index f5cd96f..98d3188 100644
--- a/src/network/attributes.rs
+++ b/src/network/attributes.rs
@@ -447,30 +447,21 @@ pub struct LogoData {
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 pub(crate) struct ProductValueDecoder {
     version: VersionTriplet,
-    color_ind: ObjectId,
-    painted_ind: ObjectId,
-    special_edition_ind: ObjectId,
-    team_edition_ind: ObjectId,
-    title_ind: ObjectId,
+    color_ind: Option<ObjectId>,
+    painted_ind: Option<ObjectId>,
+    special_edition_ind: Option<ObjectId>,
+    team_edition_ind: Option<ObjectId>,
+    title_ind: Option<ObjectId>,
 }
 
 impl ProductValueDecoder {
     pub fn create(version: VersionTriplet, object_index: &ObjectIndex) -> Self {
-        let color_ind = object_index
-            .by_name("TAGame.ProductAttribute_UserColor_TA")
-            .unwrap_or_default();
-        let painted_ind = object_index
-            .by_name("TAGame.ProductAttribute_Painted_TA")
-            .unwrap_or_default();
-        let title_ind = object_index
-            .by_name("TAGame.ProductAttribute_TitleID_TA")
-            .unwrap_or_default();
-        let special_edition_ind = object_index
-            .by_name("TAGame.ProductAttribute_SpecialEdition_TA")
-            .unwrap_or_default();
-        let team_edition_ind = object_index
-            .by_name("TAGame.ProductAttribute_TeamEdition_TA")
-            .unwrap_or_default();
+        // A class that the replay does not list is no product's class
+        let color_ind = object_index.by_name("TAGame.ProductAttribute_UserColor_TA");
+        let painted_ind = object_index.by_name("TAGame.ProductAttribute_Painted_TA");
+        let title_ind = object_index.by_name("TAGame.ProductAttribute_TitleID_TA");
+        let special_edition_ind = object_index.by_name("TAGame.ProductAttribute_SpecialEdition_TA");
+        let team_edition_ind = object_index.by_name("TAGame.ProductAttribute_TeamEdition_TA");
 
         ProductValueDecoder {
             version,
@@ -488,7 +479,7 @@ impl ProductValueDecoder {
         obj_ind: ObjectId,
         buf: &mut [u8],
     ) -> Option<ProductValue> {
-        if obj_ind == self.color_ind {
+        if Some(obj_ind) == self.color_ind {
             if self.version >= VersionTriplet(868, 23, 8) {
                 bits.read_u32().map(ProductValue::NewColor)
             } else {
@@ -499,7 +490,7 @@ impl ProductValueDecoder {
                 })
                 .map(|x| x.unwrap_or(ProductValue::NoColor))
             }
-        } else if obj_ind == self.painted_ind {
+        } else if Some(obj_ind) == self.painted_ind {
             if self.version >= VersionTriplet(868, 18, 0) {
                 bits.read_bits(31)
                     .map(|x| x as u32)
@@ -509,13 +500,13 @@ impl ProductValueDecoder {
                     .map(|x| x as u32)
                     .map(ProductValue::OldPaint)
             }
-        } else if obj_ind == self.title_ind {
+        } else if Some(obj_ind) == self.title_ind {
             decode_text(bits, buf).ok().map(ProductValue::Title)
-        } else if obj_ind == self.special_edition_ind {
+        } else if Some(obj_ind) == self.special_edition_ind {
             bits.read_bits(31)
                 .map(|x| x as u32)
                 .map(ProductValue::SpecialEdition)
-        } else if obj_ind == self.team_edition_ind {
+        } else if Some(obj_ind) == self.team_edition_ind {
             if self.version >= VersionTriplet(868, 18, 0) {
                 bits.read_bits(31)
                     .map(|x| x as u32)
-- 
2.43.0

