From 35a20c67f768230324b43dc885abe15daf7566b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:35 +0000
Subject: [PATCH 01/10] fix: encode hash sets and hash maps independently of
 iteration order

---
 src/encode.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/encode.rs b/src/encode.rs
index 4714c54..6f8a3e4 100644
--- a/src/encode.rs
+++ b/src/encode.rs
@@ -273,11 +273,14 @@ impl<K: Encode, V: Encode> Encode for HashMap<K, V> {
     }
 
     fn into_cbor_value(self) -> Value {
-        Value::Map(
-            self.into_iter()
-                .map(|(k, v)| (k.into_cbor_value(), v.into_cbor_value()))
-                .collect(),
-        )
+        // The iteration order is random so sort the items to make the encoding canonical even when
+        // the map is nested inside a set.
+        let mut items: Vec<_> = self
+            .into_iter()
+            .map(|(k, v)| (k.into_cbor_value(), v.into_cbor_value()))
+            .collect();
+        items.sort();
+        Value::Map(items)
     }
 }
 
@@ -289,7 +292,10 @@ impl<V: Encode> Encode for HashSet<V> {
     }
 
     fn into_cbor_value(self) -> Value {
-        Value::Array(self.into_iter().map(Encode::into_cbor_value).collect())
+        // The iteration order is random so sort the items to make the encoding canonical.
+        let mut items: Vec<_> = self.into_iter().map(Encode::into_cbor_value).collect();
+        items.sort();
+        Value::Array(items)
     }
 }
 
-- 
2.43.0


From ea5cdb30c72948cb15bcad6dc773517a2b2c8cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:06 +0000
Subject: [PATCH 02/10] fix: reject arrays of the wrong length when decoding
 tuples

---
 src/decode.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/decode.rs b/src/decode.rs
index 4d95335..6d23d15 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -47,8 +47,13 @@ impl Decode for Tuple {
 
     fn try_from_cbor_value(value: Value) -> Result<Self, DecodeError> {
         match value {
-            Value::Array(mut values) => {
-                Ok((for_tuples!( #( Tuple::try_from_cbor_value(values.remove(0))? ),* )))
+            Value::Array(values) => {
+                let mut values = values.into_iter();
+                let result = (for_tuples!( #( Tuple::try_from_cbor_value(values.next().ok_or(DecodeError::UnexpectedType)?)? ),* ));
+                if values.next().is_some() {
+                    return Err(DecodeError::UnexpectedType);
+                }
+                Ok(result)
             }
             _ => Err(DecodeError::UnexpectedType),
         }
-- 
2.43.0


From 24e4bb40d6eaec4a4bdee8b0812947b1bb3cc478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:10 +0000
Subject: [PATCH 03/10] fix: do not wrap negative integers below i64::MIN in
 the serde layer

---
 src/serde/de.rs    | 7 +++++--
 src/serde/error.rs | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/serde/de.rs b/src/serde/de.rs
index eb3759a..d8f2d58 100644
--- a/src/serde/de.rs
+++ b/src/serde/de.rs
@@ -1,4 +1,4 @@
-use std::iter::Peekable;
+use std::{convert::TryFrom, iter::Peekable};
 
 use serde::{
     de::{self, Error as _, Visitor},
@@ -25,7 +25,10 @@ impl<'de> de::Deserializer<'de> for Deserializer {
     {
         let value = match self.0 {
             Value::Unsigned(n) => visitor.visit_u64(n),
-            Value::Negative(n) => visitor.visit_i64(n as i64),
+            Value::Negative(n) => match i64::try_from(n) {
+                Ok(n) => visitor.visit_i64(n),
+                Err(_) => visitor.visit_i128(n),
+            },
             Value::ByteString(bytes) => visitor.visit_byte_buf(bytes),
             Value::TextString(s) => visitor.visit_string(s),
             Value::Array(_) => self.deserialize_seq(visitor),
diff --git a/src/serde/error.rs b/src/serde/error.rs
index 8d24a01..a76ac7f 100644
--- a/src/serde/error.rs
+++ b/src/serde/error.rs
@@ -1,4 +1,4 @@
-use std::fmt::Display;
+use std::{convert::TryFrom, fmt::Display};
 
 use serde::{de, ser};
 
@@ -48,7 +48,10 @@ impl de::Error for Error {
 pub(crate) fn unexpected(v: &Value) -> de::Unexpected {
     match v {
         Value::Unsigned(n) => de::Unexpected::Unsigned(*n),
-        Value::Negative(n) => de::Unexpected::Signed(*n as i64),
+        Value::Negative(n) => match i64::try_from(*n) {
+            Ok(n) => de::Unexpected::Signed(n),
+            Err(_) => de::Unexpected::Other("negative integer below i64::MIN"),
+        },
         Value::ByteString(s) => de::Unexpected::Bytes(s),
         Value::TextString(s) => de::Unexpected::Str(s),
         Value::Array(_) => de::Unexpected::Seq,
-- 
2.43.0


From 150b713ebac81380a781cf5caeb53223dc57e81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:10 +0000
Subject: [PATCH 04/10] fix: reject surplus array elements in the serde layer

---
 src/serde/de.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/serde/de.rs b/src/serde/de.rs
index d8f2d58..2983b67 100644
--- a/src/serde/de.rs
+++ b/src/serde/de.rs
@@ -119,7 +119,13 @@ impl<'de> de::Deserializer<'de> for Deserializer {
             Value::Array(a) => a,
             _ => return Err(Error::invalid_type(unexpected(&self.0), &"array")),
         };
-        visitor.visit_seq(SeqAccessImpl(items.into_iter()))
+        let len = items.len();
+        let mut seq = SeqAccessImpl(items.into_iter());
+        let value = visitor.visit_seq(&mut seq)?;
+        if seq.0.next().is_some() {
+            return Err(Error::invalid_length(len, &"fewer elements in array"));
+        }
+        Ok(value)
     }
 
     fn deserialize_map<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
-- 
2.43.0


From e02037c19ac93b0f19dd3c7428e4bd56eb87ad6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:12 +0000
Subject: [PATCH 05/10] fix: order and deduplicate map keys by their canonical
 form when encoding

---
 value/src/writer.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/value/src/writer.rs b/value/src/writer.rs
index e73d5eb..abcbee2 100644
--- a/value/src/writer.rs
+++ b/value/src/writer.rs
@@ -80,6 +80,10 @@ impl<'a> Writer<'a> {
                 }
             }
             Value::Map(mut map) => {
+                // Maps nested inside keys need to be in canonical order for keys to be comparable.
+                for (k, _) in map.iter_mut() {
+                    sort_nested_maps(k);
+                }
                 map.sort_by(|a, b| a.0.cmp(&b.0));
                 let map_len = map.len();
                 map.dedup_by(|a, b| a.0.eq(&b.0));
@@ -118,6 +122,22 @@ impl<'a> Writer<'a> {
     }
 }
 
+/// Put all maps nested inside the given value into canonical order.
+fn sort_nested_maps(value: &mut Value) {
+    match value {
+        Value::Array(array) => array.iter_mut().for_each(sort_nested_maps),
+        Value::Map(map) => {
+            for (k, v) in map.iter_mut() {
+                sort_nested_maps(k);
+                sort_nested_maps(v);
+            }
+            map.sort_by(|a, b| a.0.cmp(&b.0));
+        }
+        Value::Tag(_, inner_value) => sort_nested_maps(inner_value),
+        _ => {}
+    }
+}
+
 #[cfg(test)]
 mod test {
     use alloc::vec;
-- 
2.43.0


From 54e75a2c91669ca43c69af3eea2b49588c8e56b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:55 +0000
Subject: [PATCH 06/10] fix: ignore unknown fields regardless of their sort
 order with allow_unknown

---
 derive/src/decode.rs | 12 +++++++++---
 src/macros.rs        |  2 ++
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/derive/src/decode.rs b/derive/src/decode.rs
index ede87e1..362d479 100644
--- a/derive/src/decode.rs
+++ b/derive/src/decode.rs
@@ -148,10 +148,16 @@ fn derive_struct(
                         quote_spanned!(field_ty.span()=> ::std::default::Default::default())
                     } else {
                         let decode_fn = field_decode_fn(&field);
-                        let destruct_fn = quote_spanned!(field_ty.span()=>
-                            __cbor::macros::destructure_cbor_map_peek_value_strict);
+                        let destruct_expr = if allow_unknown {
+                            // Skip over any unknown fields.
+                            quote_spanned!(field_ty.span()=>
+                                __cbor::macros::destructure_cbor_map_peek_value(&mut it, #key))
+                        } else {
+                            quote_spanned!(field_ty.span()=>
+                                __cbor::macros::destructure_cbor_map_peek_value_strict(&mut it, #key)?)
+                        };
                         let field_value = quote!({
-                            let v: Option<__cbor::Value> = #destruct_fn(&mut it, #key)?;
+                            let v: Option<__cbor::Value> = #destruct_expr;
                             #decode_fn(v.unwrap_or(__cbor::Value::Simple(__cbor::SimpleValue::NullValue)))?
                         });
 
diff --git a/src/macros.rs b/src/macros.rs
index bbc6490..fdc2267 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -1,5 +1,7 @@
 use std::{cmp::Ordering, iter::Peekable};
 
+pub use oasis_cbor_value::macros::destructure_cbor_map_peek_value;
+
 use crate::{values::Value, DecodeError};
 
 /// This function is an internal detail of the Decode derive macro, but has public visibility so
-- 
2.43.0


From aa524b2f167b242250e8b9b9f72c9bdac06711e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:57 +0000
Subject: [PATCH 07/10] fix: do not decode floating point values as booleans or
 null in non-strict mode

---
 value/src/reader.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/value/src/reader.rs b/value/src/reader.rs
index 86d8eea..1c3fd2f 100644
--- a/value/src/reader.rs
+++ b/value/src/reader.rs
@@ -231,8 +231,11 @@ impl<'a> Reader<'a> {
     ) -> Result<Value, DecoderError> {
         if additional_info > Constants::ADDITIONAL_INFORMATION_MAX_INT
             && additional_info != Constants::ADDITIONAL_INFORMATION_1_BYTE
-            && !self.non_strict
         {
+            if self.non_strict {
+                // The bits of a floating point value must not be taken for a simple value.
+                return Ok(Value::Simple(SimpleValue::Undefined));
+            }
             // TODO(kaczmarczyck) the chromium C++ reference allows equality to 24 here, why?
             // Also, why not just disallow ANY additional_info != size_value?
             return Err(DecoderError::UnsupportedFloatingPointValue);
-- 
2.43.0


From a7e298d672c7638acd0845251e301e95b8c4f9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:58 +0000
Subject: [PATCH 08/10] fix: respect serialize_with on optional fields

---
 derive/src/encode.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/derive/src/encode.rs b/derive/src/encode.rs
index 64c3452..a076970 100644
--- a/derive/src/encode.rs
+++ b/derive/src/encode.rs
@@ -172,8 +172,13 @@ fn derive_struct(
                         // null value.
                         match &field.skip_serializing_if {
                             None => {
+                                let field_source = match &field.serialize_with {
+                                    Some(custom_encode_fn) => quote!(#custom_encode_fn(&#field_binding)),
+                                    None => quote!(#field_binding),
+                                };
+
                                 quote! {
-                                    if let Some(value) = __cbor::Encode::into_optional_cbor_value(#field_binding) {
+                                    if let Some(value) = __cbor::Encode::into_optional_cbor_value(#field_source) {
                                         fields.push((#key, value));
                                     }
                                 }
-- 
2.43.0


From 18e3bc60151eae4f8e4499407a2efd1be8c341e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:59 +0000
Subject: [PATCH 09/10] fix: do not panic when encoding unit variants of
 internally tagged enums

---
 derive/src/encode.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/derive/src/encode.rs b/derive/src/encode.rs
index a076970..0c07394 100644
--- a/derive/src/encode.rs
+++ b/derive/src/encode.rs
@@ -344,7 +344,8 @@ fn derive_enum(enc: &Codable, variants: Vec<&Variant>) -> DeriveResult {
                         &variant.ident,
                         false,
                         variant.as_array.is_present(),
-                        variant.as_struct.is_present(),
+                        // Internally tagged unit variants need to be a map to include the tag.
+                        variant.as_struct.is_present() || enc.tag.is_some(),
                         variant.fields.as_ref(),
                         Some(idents),
                     );
-- 
2.43.0


From 7f89a0b38817c0975cb130d35d7e5cdde35a18fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:01 +0000
Subject: [PATCH 10/10] fix: do not cut announced string lengths to the machine
 word

On 32-bit targets a byte or text string announcing 2^32 + n bytes was read as one of n
bytes, so malformed input was accepted that 64-bit targets reject.
---
 value/src/reader.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/value/src/reader.rs b/value/src/reader.rs
index 1c3fd2f..8211608 100644
--- a/value/src/reader.rs
+++ b/value/src/reader.rs
@@ -15,6 +15,7 @@
 //! Functionality for deserializing CBOR data into values.
 
 use alloc::{str, vec::Vec};
+use core::convert::TryFrom;
 
 use super::values::{Constants, SimpleValue, Value};
 use crate::{
@@ -127,6 +128,12 @@ impl<'a> Reader<'a> {
         }
     }
 
+    /// Read as many bytes as a header announces, which may be more than the platform can address.
+    fn read_announced_bytes(&mut self, size_value: u64) -> Option<&[u8]> {
+        let num_bytes = usize::try_from(size_value).ok()?;
+        self.read_bytes(num_bytes)
+    }
+
     fn read_variadic_length_integer(&mut self, additional_info: u8) -> Result<u64, DecoderError> {
         let additional_bytes_num = match additional_info {
             0..=Constants::ADDITIONAL_INFORMATION_MAX_INT => return Ok(additional_info as u64),
@@ -165,14 +172,14 @@ impl<'a> Reader<'a> {
     }
 
     fn read_byte_string_content(&mut self, size_value: u64) -> Result<Value, DecoderError> {
-        match self.read_bytes(size_value as usize) {
+        match self.read_announced_bytes(size_value) {
             Some(bytes) => Ok(cbor_bytes_lit!(bytes)),
             None => Err(DecoderError::IncompleteCborData),
         }
     }
 
     fn read_text_string_content(&mut self, size_value: u64) -> Result<Value, DecoderError> {
-        match self.read_bytes(size_value as usize) {
+        match self.read_announced_bytes(size_value) {
             Some(bytes) => match str::from_utf8(bytes) {
                 Ok(s) => Ok(cbor_text!(s)),
                 Err(_) => Err(DecoderError::InvalidUtf8),
-- 
2.43.0

