From 85fa97b1084a8f473b8f8d82e1cd71eef2baf1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:20 +0000
Subject: [PATCH 01/15] fix: do not overflow computing the end of a peek before
 checking the available length

---
 src/context.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/context.rs b/src/context.rs
index 83bdfa8..deb0493 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -56,8 +56,6 @@ impl<'a> CborDataReader<'a> {
             });
         }
         let offseted_rem = rem - offset;
-        let start = self.index + offset;
-        let end = start + n;
         if n > offseted_rem {
             Err(CborDataMissing {
                 expecting_bytes: n,
@@ -65,7 +63,9 @@ impl<'a> CborDataReader<'a> {
                 context,
             })
         } else {
-            Ok(&self.data[start..end])
+            // cannot overflow: there is at least offset + n bytes remaining
+            let start = self.index + offset;
+            Ok(&self.data[start..start + n])
         }
     }
 
-- 
2.43.0


From 88c9415902b857632a617f8d060105cee87a8360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:22 +0000
Subject: [PATCH 02/15] fix: report missing data instead of panicking when
 reading or validating empty input

---
 src/reader.rs   | 1 -
 src/validate.rs | 1 -
 2 files changed, 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index d0b43e7..fcc1de6 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -153,7 +153,6 @@ impl<'a> Reader<'a> {
     }
 
     pub fn new(data: &'a [u8]) -> Self {
-        assert!(data.len() > 0);
         let reader = CborDataReader::new(data);
         Self { reader }
     }
diff --git a/src/validate.rs b/src/validate.rs
index 0ea6726..a637bed 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -63,7 +63,6 @@ impl<'a> Validator<'a> {
     }
 
     pub fn new(data: &'a [u8]) -> Self {
-        assert!(data.len() > 0);
         let reader = CborDataReader::new(data);
         Self {
             reader,
-- 
2.43.0


From b4dcf34dc87128fd98d1e135232e52e36fba24de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:24 +0000
Subject: [PATCH 03/15] fix: null and undefined readers accept only their own
 constant

---
 src/reader.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index fcc1de6..291430d 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -288,14 +288,26 @@ impl<'a> Reader<'a> {
 
     pub fn null(&mut self) -> Result<(), ReaderError> {
         let (hdr, advance) = self.header()?;
-        let _content = matches_type!(hdr, Type::Null, Header::Constant)?;
+        match hdr {
+            Header::Constant(Constant::Null) => Ok(()),
+            _ => Err(ReaderError::WrongExpectedType {
+                expected: Type::Null,
+                got: hdr.to_type(),
+            }),
+        }?;
         self.reader.advance(advance);
         Ok(())
     }
 
     pub fn undefined(&mut self) -> Result<(), ReaderError> {
         let (hdr, advance) = self.header()?;
-        let _content = matches_type!(hdr, Type::Undefined, Header::Constant)?;
+        match hdr {
+            Header::Constant(Constant::Undefined) => Ok(()),
+            _ => Err(ReaderError::WrongExpectedType {
+                expected: Type::Undefined,
+                got: hdr.to_type(),
+            }),
+        }?;
         self.reader.advance(advance);
         Ok(())
     }
-- 
2.43.0


From e598060a6b3d402b99c2cf5c4f33bdaf4fd2ee8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:26 +0000
Subject: [PATCH 04/15] fix: canonical bytes 0x14 to 0x17 need the one byte
 extension

---
 src/lowlevel/header.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lowlevel/header.rs b/src/lowlevel/header.rs
index dc2cf8d..519cd03 100644
--- a/src/lowlevel/header.rs
+++ b/src/lowlevel/header.rs
@@ -184,16 +184,17 @@ impl HeaderValue8 {
 
     pub fn canonical(v: u8) -> Self {
         match v {
-            _ if v < 24 => Self::Imm(v as u8),
+            // immediate values 0x14 to 0x17 are the constants
+            _ if v < 0x14 => Self::Imm(v),
             _ => Self::U8(v),
         }
     }
 
     pub fn is_canonical(&self) -> bool {
         match self {
-            // don't check if imm is < 24, as it shouldn't be allowed
+            // don't check if imm is < 0x14, as it shouldn't be allowed
             HeaderValue8::Imm(_) => true,
-            HeaderValue8::U8(v) => *v >= 24,
+            HeaderValue8::U8(v) => *v >= 0x14,
         }
     }
 }
-- 
2.43.0


From cd9fbf36c12aec6ad76c1da86a3f9c44c3d329f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:50 +0000
Subject: [PATCH 05/15] fix: reject items other than chunks of the same type in
 indefinite bytes and text

---
 src/state.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/state.rs b/src/state.rs
index 24c5886..22c2625 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -220,6 +220,15 @@ impl State {
             }
             // A regular text or bytes, we can just call item_simple
             Some(_b) => {
+                // in a bytes stream we can only add bytes, and in a text stream only text
+                match (self.ctx.last(), new_stream) {
+                    (Some(StructTy::Stream(StreamType::Bytes)), StreamType::Text)
+                    | (Some(StructTy::Stream(StreamType::Text)), StreamType::Bytes) => {
+                        return Err(StateError::InvalidTypeInChunk);
+                    }
+                    _ => (),
+                };
+
                 self.advance()?;
                 self.check_reduce()
             }
@@ -261,6 +270,14 @@ impl State {
     ///
     /// All values except text, bytes, array, map, tag
     pub fn simple(&mut self) -> Result<(), StateError> {
+        // in a bytes/texts stream we can't add a simple value, only bytes/text
+        match self.ctx.last() {
+            Some(StructTy::Stream(s)) if s.composite_scalar() => {
+                return Err(StateError::InvalidTypeInChunk);
+            }
+            _ => (),
+        };
+
         self.advance()?;
         self.check_reduce()
     }
-- 
2.43.0


From bae93eb30350d4784acf4e63ecd4266425eac9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:52 +0000
Subject: [PATCH 06/15] fix: reject a break between a key and its value in an
 indefinite map

---
 src/state.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/state.rs b/src/state.rs
index 22c2625..4373b4d 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -20,7 +20,7 @@ use std::fmt;
 #[derive(Debug, Clone, Copy)]
 enum StreamType {
     Array,
-    Map,
+    Map { exp_val: bool },
     Bytes,
     Text,
 }
@@ -28,7 +28,7 @@ enum StreamType {
 impl StreamType {
     pub fn composite_scalar(self) -> bool {
         match self {
-            StreamType::Array | StreamType::Map => false,
+            StreamType::Array | StreamType::Map { exp_val: _ } => false,
             StreamType::Bytes | StreamType::Text => true,
         }
     }
@@ -155,6 +155,11 @@ impl State {
                     *finished = true;
                     Ok(())
                 }
+                StructTy::Stream(StreamType::Map { exp_val }) => {
+                    // a value is expected after a key, and another key (or a break) after a value
+                    *exp_val = !*exp_val;
+                    Ok(())
+                }
                 StructTy::Stream(_sty) => Ok(()),
             },
         }
@@ -305,7 +310,7 @@ impl State {
 
     /// Add a new Map into the context
     pub fn map(&mut self, v: HeaderValueStream) -> Result<(), StateError> {
-        self.struct_start(v, StreamType::Map, |nz| StructTy::Map {
+        self.struct_start(v, StreamType::Map { exp_val: false }, |nz| StructTy::Map {
             exp_val: false,
             elements: nz,
         })
@@ -314,6 +319,10 @@ impl State {
     /// Process a CBOR break, which terminate either an indefinite array, map, bytes, text
     pub fn brk(&mut self) -> Result<(), StateError> {
         match self.ctx.pop() {
+            // a key without its value
+            Some(StructTy::Stream(StreamType::Map { exp_val: true })) => {
+                return Err(StateError::StructureNotFinished);
+            }
             Some(StructTy::Stream(_sty)) => (),
             Some(_sty) => {
                 return Err(StateError::BreakInNonStreamable);
-- 
2.43.0


From a98814561d1d7331640bf71cb32ccf6f26682363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:17 +0000
Subject: [PATCH 07/15] fix: read rational numbers with a negative bignum
 numerator

---
 src/tagged.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/tagged.rs b/src/tagged.rs
index 224ce16..73d07c6 100644
--- a/src/tagged.rs
+++ b/src/tagged.rs
@@ -164,12 +164,16 @@ impl RationalNumber {
                 let res = match inner_reader.peek_type()? {
                     Type::Positive => inner_reader.positive().map(RationalNumerator::Positive),
                     Type::Negative => inner_reader.negative().map(RationalNumerator::Negative),
-                    Type::Tag => PositiveBignum::read(&mut inner_reader)
-                        .map(RationalNumerator::PositiveBignum)
-                        .or_else(|_| {
-                            NegativeBignum::read(&mut inner_reader)
-                                .map(RationalNumerator::NegativeBignum)
+                    Type::Tag => match array[0].reader().tag()?.value() {
+                        2 => PositiveBignum::read(&mut inner_reader)
+                            .map(RationalNumerator::PositiveBignum),
+                        3 => NegativeBignum::read(&mut inner_reader)
+                            .map(RationalNumerator::NegativeBignum),
+                        got => Err(ReaderError::WrongExpectedTags {
+                            expected: &[2, 3],
+                            got,
                         }),
+                    },
                     ty => Err(ReaderError::WrongExpectedTypes {
                         expected: &[Type::Positive, Type::Negative, Type::Tag],
                         got: ty,
-- 
2.43.0


From e751b6e90ce69ee54ce4afa0e577d354c2236996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:19 +0000
Subject: [PATCH 08/15] fix: reject trailing data when validating owned data as
 a type

---
 src/prim.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/prim.rs b/src/prim.rs
index 838f168..1437e51 100644
--- a/src/prim.rs
+++ b/src/prim.rs
@@ -71,6 +71,12 @@ impl CborData {
             Ok(_) => (),
             Err(e) => return Err(e),
         };
+        if !r.is_finished() {
+            return Err(DecodeErrorKind::ReaderNotTerminated {
+                remaining_bytes: r.remaining_bytes(),
+            }
+            .context::<Self>());
+        }
         Ok(CborDataOf(PhantomData, self.0.clone()))
     }
 
-- 
2.43.0


From 909202528f4f73060bad9be2d308fd8d49e51d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:07 +0000
Subject: [PATCH 09/15] fix: derived mapint decoders honour map_starts_at

---
 cbored-derive/src/product.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbored-derive/src/product.rs b/cbored-derive/src/product.rs
index 527986c..2159ed8 100644
--- a/cbored-derive/src/product.rs
+++ b/cbored-derive/src/product.rs
@@ -509,7 +509,7 @@ pub(crate) fn derive_struct_de(
                     let mut keyfields = Vec::new();
                     let mut mandatory_keys = Vec::new();
 
-                    let mut rel_index = 0;
+                    let mut rel_index = attrs.starts_at as u64;
 
                     for field in fields.iter() {
                         let Field {
-- 
2.43.0


From af99cbdd164c887656d3b1ebbce44590bb19ca80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:11 +0000
Subject: [PATCH 10/15] fix: derived mapint decoders do not shift by an
 untrusted key to detect duplicates

---
 cbored-derive/src/product.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/cbored-derive/src/product.rs b/cbored-derive/src/product.rs
index 2159ed8..e6ad991 100644
--- a/cbored-derive/src/product.rs
+++ b/cbored-derive/src/product.rs
@@ -535,6 +535,9 @@ pub(crate) fn derive_struct_de(
                         };
                         let keyfield = quote! {
                             #abs_index => {
+                                if #field_name.is_some() {
+                                    return Err(::cbored::DecodeErrorKind::Custom(format!("duplicated key {}", key)).context::<Self>());
+                                }
                                 #field_name = Some(v.decode().map_err(|e| e.push_str(#field_name_str).push::<Self>())?);
                             }
                         };
@@ -563,16 +566,9 @@ pub(crate) fn derive_struct_de(
 
                         #( #keydefs )*
 
-                        let mut found_keys = 0;
                         for (mut k, mut v) in map.iter() {
                             let key: u64 = k.decode().map_err(|e| e.push::<Self>())?;
 
-                            if (found_keys & (1 << key)) != 0 {
-                                return Err(cbored::DecodeErrorKind::Custom(format!("duplicated key {}", key)).context::<Self>());
-                            } else {
-                                found_keys |= 1 << key;
-                            }
-
                             match key {
                                 #( #keyfields )*
                                 // handle unknown keys
-- 
2.43.0


From 8bad8c031db74e2450d9a296bc43095796175440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:54 +0000
Subject: [PATCH 11/15] fix: derived decoders of tagged flat structures read
 the tag

---
 cbored-derive/src/product.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/cbored-derive/src/product.rs b/cbored-derive/src/product.rs
index e6ad991..4876e3b 100644
--- a/cbored-derive/src/product.rs
+++ b/cbored-derive/src/product.rs
@@ -387,7 +387,18 @@ pub(crate) fn derive_struct_de(
     // * output:
     //   * 'array' which is CBOR Array if StructureType::Array
     let (prelude_sty_de, structure) = match attrs.structure_type {
-        StructureType::Flat => (quote! {}, DeStructure::Flat),
+        StructureType::Flat => {
+            let r = if tag_structure {
+                quote! {
+                    #tag_wrapper
+                    let mut tag_reader = tag.reader();
+                    let reader = &mut tag_reader;
+                }
+            } else {
+                quote! {}
+            };
+            (r, DeStructure::Flat)
+        }
         StructureType::Array | StructureType::ArrayLastOpt => {
             let r = if tag_structure {
                 quote! {
@@ -443,6 +454,16 @@ pub(crate) fn derive_struct_de(
 
     let prelude_deser = quote! { #prelude_sty_de };
 
+    // a tag contains exactly one element, so the reader of the inside of the tag need to be finished
+    // after reading the elements of a flat structure
+    let epilogue_deser = if tag_structure && attrs.structure_type == StructureType::Flat {
+        quote! {
+            reader.expect_finished().map_err(::cbored::DecodeErrorKind::ReaderError).map_err(|e| e.context::<Self>())?;
+        }
+    } else {
+        quote! {}
+    };
+
     let mut de_bodies = Vec::new();
 
     // create the quote that deserialize all the elements one by one
@@ -605,6 +626,7 @@ pub(crate) fn derive_struct_de(
                     quote! {
                         #prelude_deser
                         #( #de_bodies )*
+                        #epilogue_deser
                         Ok(#name { #(#field_names),* })
                     }
                 }
@@ -641,6 +663,7 @@ pub(crate) fn derive_struct_de(
             quote! {
                 #prelude_deser
                 #( #de_bodies )*
+                #epilogue_deser
                 Ok(#name ( #(#indexes),* ))
             }
         }
-- 
2.43.0


From 8c16281f374e710e8692c0e49708bf884a159c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:58 +0000
Subject: [PATCH 12/15] fix: derive enumtype variants represented as null

---
 cbored-derive/src/sum.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cbored-derive/src/sum.rs b/cbored-derive/src/sum.rs
index 2ec151a..5ffccd5 100644
--- a/cbored-derive/src/sum.rs
+++ b/cbored-derive/src/sum.rs
@@ -158,7 +158,7 @@ pub(crate) fn derive_enum_se(
                     }
                     None => match variant_def.cbor_type {
                         None => panic!("cannot have no cbor_type"),
-                        Some(FieldCborType::Null) => (quote! {}, quote! { writer.null(); }),
+                        Some(FieldCborType::Null) => (quote! {}, quote! { writer.constant(::cbored::Constant::Null); }),
                         Some(_) => {
                             panic!("cannot have a cbor-type that is not null without argument")
                         }
@@ -339,7 +339,7 @@ pub(crate) fn derive_enum_de(
                         (
                             quote! {},
                             quote! {
-                                reader.null().map_err(DecodeErrorKind::ReaderError).map_err(|e| e.context_str(#variant_name).push::<Self>());
+                                reader.null().map_err(::cbored::DecodeErrorKind::ReaderError).map_err(|e| e.context_str(#variant_name).push::<Self>())?;
                             },
                         )
                     }
-- 
2.43.0


From a6d7bbe62304de6774658c4333c5244f7e40b7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:01 +0000
Subject: [PATCH 13/15] fix: derived enums count variant_starts_at once

---
 cbored-derive/src/sum.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cbored-derive/src/sum.rs b/cbored-derive/src/sum.rs
index 5ffccd5..84d03d1 100644
--- a/cbored-derive/src/sum.rs
+++ b/cbored-derive/src/sum.rs
@@ -183,7 +183,7 @@ pub(crate) fn derive_enum_se(
             let variant_def = variant_field(&attrs, &variant);
             let variant_type = &variant_def.ty;
 
-            let variant_number = attrs.variant_starts_at + variant_index;
+            let variant_number = *variant_index;
 
             let (parameters, se_fields) = {
                 match &variant_type {
@@ -286,7 +286,7 @@ pub(crate) fn derive_enum_de(
                 enumerate_variant_indices(&attrs, &mut st.variants.iter()).iter()
             {
                 let ident = &variant.ident;
-                let variant_number = attrs.variant_starts_at + variant_index;
+                let variant_number = *variant_index;
 
                 let de_branch = quote! {
                     #variant_number => {
@@ -388,7 +388,7 @@ pub(crate) fn derive_enum_de(
             {
                 let ident = &variant.ident;
                 let variant_name = format!("{}", ident);
-                let variant_number = attrs.variant_starts_at + variant_index;
+                let variant_number = *variant_index;
 
                 let nb_items = variant.fields.len();
 
-- 
2.43.0


From c9febdbbd8ed432c244848384656933498985ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:05 +0000
Subject: [PATCH 14/15] fix: validator starts every item from an empty state,
 also after an error

---
 src/validate.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/validate.rs b/src/validate.rs
index a637bed..b0697ba 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -161,6 +161,9 @@ impl<'a> Validator<'a> {
     pub fn next(&mut self) -> Result<(&'a CborSlice, usize), ValidateError> {
         let start = self.reader.index;
 
+        // an error in a previous call can leave unfinished structures behind
+        self.state = State::new();
+
         loop {
             let (ld, advance, ival) = self.header_parts()?;
             let header = Header::from_parts(ld, ival);
-- 
2.43.0


From 0d1ce6822a320d40df36033a485e5f44519c9c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:47 +0000
Subject: [PATCH 15/15] fix: an indefinite string inside a chunked string is
 refused as ChunksInChunks

The state machine refused it as StructureInChunks, which documents a structure
start; StateError::ChunksInChunks, documented for exactly this case, was never
returned.
---
 src/state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/state.rs b/src/state.rs
index 4373b4d..7672dd8 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -120,7 +120,7 @@ impl State {
         // if there was a context already, then we check
         match self.ctx.last() {
             Some(StructTy::Stream(s)) if s.composite_scalar() => {
-                return Err(StateError::StructureInChunks);
+                return Err(StateError::ChunksInChunks);
             }
             _ => (),
         };
-- 
2.43.0

