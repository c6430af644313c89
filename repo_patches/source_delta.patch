From dc3519e4e23dc12731261325e44afdc9adab698e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:58 +0000
Subject: [PATCH 01/22] fix: read the variant name of an internally tagged enum
 as a string key

The variant name is written as a map key string. Reading it back through
deserialize_identifier fails in Bincode, Postcard and RON, so enums could not
round-trip as internally tagged trait objects in those formats.
---
 src/internally.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/internally.rs b/src/internally.rs
index 84f865b..d92848f 100644
--- a/src/internally.rs
+++ b/src/internally.rs
@@ -510,7 +510,7 @@ where
     where
         V: DeserializeSeed<'de>,
     {
-        match self.map.next_key_seed(seed)? {
+        match self.map.next_key_seed(StringKeySeed { seed })? {
             Some(variant) => Ok((variant, self)),
             None => Err(de::Error::custom(format_args!(
                 "expected enum {}",
-- 
2.43.0


From 6aab47af59410a237b05040e5ce74da8a88a23a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:43 +0000
Subject: [PATCH 02/22] fix: buffer internally tagged sequence and variant data
 with the format's own human-readability

---
 src/ser.rs | 102 +++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 76 insertions(+), 26 deletions(-)

diff --git a/src/ser.rs b/src/ser.rs
index 9adfbcc..4638fe8 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -186,17 +186,19 @@ where
     }
 
     fn serialize_seq(self, len: Option<usize>) -> Result<Self::SerializeSeq, Self::Error> {
+        let human_readable = self.delegate.is_human_readable();
         let mut map = self.delegate.serialize_map(Some(2))?;
         map.serialize_entry(self.tag, self.variant)?;
         map.serialize_key(DEFAULT_KEY)?;
-        Ok(SerializeSeqAsMapValue::new(map, len))
+        Ok(SerializeSeqAsMapValue::new(map, len, human_readable))
     }
 
     fn serialize_tuple(self, len: usize) -> Result<Self::SerializeTuple, Self::Error> {
+        let human_readable = self.delegate.is_human_readable();
         let mut map = self.delegate.serialize_map(Some(2))?;
         map.serialize_entry(self.tag, self.variant)?;
         map.serialize_key(DEFAULT_KEY)?;
-        Ok(SerializeTupleAsMapValue::new(map, len))
+        Ok(SerializeTupleAsMapValue::new(map, len, human_readable))
     }
 
     fn serialize_tuple_struct(
@@ -204,10 +206,16 @@ where
         name: &'static str,
         len: usize,
     ) -> Result<Self::SerializeTupleStruct, Self::Error> {
+        let human_readable = self.delegate.is_human_readable();
         let mut map = self.delegate.serialize_map(Some(2))?;
         map.serialize_entry(self.tag, self.variant)?;
         map.serialize_key(DEFAULT_KEY)?;
-        Ok(SerializeTupleStructAsMapValue::new(map, name, len))
+        Ok(SerializeTupleStructAsMapValue::new(
+            map,
+            name,
+            len,
+            human_readable,
+        ))
     }
 
     fn serialize_tuple_variant(
@@ -217,10 +225,16 @@ where
         name: &'static str,
         len: usize,
     ) -> Result<Self::SerializeTupleVariant, Self::Error> {
+        let human_readable = self.delegate.is_human_readable();
         let mut map = self.delegate.serialize_map(Some(2))?;
         map.serialize_entry(self.tag, self.variant)?;
         map.serialize_key(name)?;
-        Ok(SerializeTupleStructAsMapValue::new(map, name, len))
+        Ok(SerializeTupleStructAsMapValue::new(
+            map,
+            name,
+            len,
+            human_readable,
+        ))
     }
 
     fn serialize_map(self, len: Option<usize>) -> Result<Self::SerializeMap, Self::Error> {
@@ -246,22 +260,30 @@ where
         name: &'static str,
         len: usize,
     ) -> Result<Self::SerializeStructVariant, Self::Error> {
+        let human_readable = self.delegate.is_human_readable();
         let mut map = self.delegate.serialize_map(Some(2))?;
         map.serialize_entry(self.tag, self.variant)?;
         map.serialize_key(name)?;
-        Ok(SerializeStructVariantAsMapValue::new(map, name, len))
+        Ok(SerializeStructVariantAsMapValue::new(
+            map,
+            name,
+            len,
+            human_readable,
+        ))
     }
 }
 
 pub struct SerializeSeqAsMapValue<M> {
     map: M,
+    human_readable: bool,
     fields: Vec<Content>,
 }
 
 impl<M> SerializeSeqAsMapValue<M> {
-    pub fn new(map: M, len: Option<usize>) -> Self {
+    pub fn new(map: M, len: Option<usize>, human_readable: bool) -> Self {
         SerializeSeqAsMapValue {
             map,
+            human_readable,
             fields: Vec::with_capacity(len.unwrap_or(0)),
         }
     }
@@ -278,7 +300,7 @@ where
     where
         T: ?Sized + Serialize,
     {
-        let value = value.serialize(ContentSerializer::<M::Error>::new())?;
+        let value = value.serialize(ContentSerializer::<M::Error>::new(self.human_readable))?;
         self.fields.push(value);
         Ok(())
     }
@@ -291,13 +313,15 @@ where
 
 pub struct SerializeTupleAsMapValue<M> {
     map: M,
+    human_readable: bool,
     fields: Vec<Content>,
 }
 
 impl<M> SerializeTupleAsMapValue<M> {
-    pub fn new(map: M, len: usize) -> Self {
+    pub fn new(map: M, len: usize, human_readable: bool) -> Self {
         SerializeTupleAsMapValue {
             map,
+            human_readable,
             fields: Vec::with_capacity(len),
         }
     }
@@ -314,7 +338,7 @@ where
     where
         T: ?Sized + Serialize,
     {
-        let value = value.serialize(ContentSerializer::<M::Error>::new())?;
+        let value = value.serialize(ContentSerializer::<M::Error>::new(self.human_readable))?;
         self.fields.push(value);
         Ok(())
     }
@@ -327,14 +351,16 @@ where
 
 pub struct SerializeTupleStructAsMapValue<M> {
     map: M,
+    human_readable: bool,
     name: &'static str,
     fields: Vec<Content>,
 }
 
 impl<M> SerializeTupleStructAsMapValue<M> {
-    pub fn new(map: M, name: &'static str, len: usize) -> Self {
+    pub fn new(map: M, name: &'static str, len: usize, human_readable: bool) -> Self {
         SerializeTupleStructAsMapValue {
             map,
+            human_readable,
             name,
             fields: Vec::with_capacity(len),
         }
@@ -352,7 +378,7 @@ where
     where
         T: ?Sized + Serialize,
     {
-        let value = value.serialize(ContentSerializer::<M::Error>::new())?;
+        let value = value.serialize(ContentSerializer::<M::Error>::new(self.human_readable))?;
         self.fields.push(value);
         Ok(())
     }
@@ -375,7 +401,7 @@ where
     where
         T: ?Sized + Serialize,
     {
-        let value = value.serialize(ContentSerializer::<M::Error>::new())?;
+        let value = value.serialize(ContentSerializer::<M::Error>::new(self.human_readable))?;
         self.fields.push(value);
         Ok(())
     }
@@ -430,14 +456,16 @@ where
 
 pub struct SerializeStructVariantAsMapValue<M> {
     map: M,
+    human_readable: bool,
     name: &'static str,
     fields: Vec<(&'static str, Content)>,
 }
 
 impl<M> SerializeStructVariantAsMapValue<M> {
-    pub fn new(map: M, name: &'static str, len: usize) -> Self {
+    pub fn new(map: M, name: &'static str, len: usize, human_readable: bool) -> Self {
         SerializeStructVariantAsMapValue {
             map,
+            human_readable,
             name,
             fields: Vec::with_capacity(len),
         }
@@ -455,7 +483,7 @@ where
     where
         T: ?Sized + Serialize,
     {
-        let value = value.serialize(ContentSerializer::<M::Error>::new())?;
+        let value = value.serialize(ContentSerializer::<M::Error>::new(self.human_readable))?;
         self.fields.push((key, value));
         Ok(())
     }
@@ -592,12 +620,16 @@ impl Serialize for Content {
 }
 
 pub struct ContentSerializer<E> {
+    human_readable: bool,
     error: PhantomData<E>,
 }
 
 impl<E> ContentSerializer<E> {
-    pub fn new() -> Self {
-        ContentSerializer { error: PhantomData }
+    pub fn new(human_readable: bool) -> Self {
+        ContentSerializer {
+            human_readable,
+            error: PhantomData,
+        }
     }
 }
 
@@ -616,6 +648,10 @@ where
     type SerializeStruct = ContentSerializeStruct<E>;
     type SerializeStructVariant = ContentSerializeStructVariant<E>;
 
+    fn is_human_readable(&self) -> bool {
+        self.human_readable
+    }
+
     fn serialize_bool(self, v: bool) -> Result<Content, E> {
         Ok(Content::Bool(v))
     }
@@ -739,6 +775,7 @@ where
     fn serialize_seq(self, len: Option<usize>) -> Result<Self::SerializeSeq, E> {
         Ok(ContentSerializeSeq {
             elements: Vec::with_capacity(len.unwrap_or(0)),
+            human_readable: self.human_readable,
             error: PhantomData,
         })
     }
@@ -746,6 +783,7 @@ where
     fn serialize_tuple(self, len: usize) -> Result<Self::SerializeTuple, E> {
         Ok(ContentSerializeTuple {
             elements: Vec::with_capacity(len),
+            human_readable: self.human_readable,
             error: PhantomData,
         })
     }
@@ -758,6 +796,7 @@ where
         Ok(ContentSerializeTupleStruct {
             name,
             fields: Vec::with_capacity(len),
+            human_readable: self.human_readable,
             error: PhantomData,
         })
     }
@@ -774,6 +813,7 @@ where
             variant_index,
             variant,
             fields: Vec::with_capacity(len),
+            human_readable: self.human_readable,
             error: PhantomData,
         })
     }
@@ -782,6 +822,7 @@ where
         Ok(ContentSerializeMap {
             entries: Vec::with_capacity(len.unwrap_or(0)),
             key: None,
+            human_readable: self.human_readable,
             error: PhantomData,
         })
     }
@@ -790,6 +831,7 @@ where
         Ok(ContentSerializeStruct {
             name,
             fields: Vec::with_capacity(len),
+            human_readable: self.human_readable,
             error: PhantomData,
         })
     }
@@ -806,6 +848,7 @@ where
             variant_index,
             variant,
             fields: Vec::with_capacity(len),
+            human_readable: self.human_readable,
             error: PhantomData,
         })
     }
@@ -813,6 +856,7 @@ where
 
 pub struct ContentSerializeSeq<E> {
     elements: Vec<Content>,
+    human_readable: bool,
     error: PhantomData<E>,
 }
 
@@ -827,7 +871,7 @@ where
     where
         T: ?Sized + Serialize,
     {
-        let value = value.serialize(ContentSerializer::<E>::new())?;
+        let value = value.serialize(ContentSerializer::<E>::new(self.human_readable))?;
         self.elements.push(value);
         Ok(())
     }
@@ -839,6 +883,7 @@ where
 
 pub struct ContentSerializeTuple<E> {
     elements: Vec<Content>,
+    human_readable: bool,
     error: PhantomData<E>,
 }
 
@@ -853,7 +898,7 @@ where
     where
         T: ?Sized + Serialize,
     {
-        let value = value.serialize(ContentSerializer::<E>::new())?;
+        let value = value.serialize(ContentSerializer::<E>::new(self.human_readable))?;
         self.elements.push(value);
         Ok(())
     }
@@ -866,6 +911,7 @@ where
 pub struct ContentSerializeTupleStruct<E> {
     name: &'static str,
     fields: Vec<Content>,
+    human_readable: bool,
     error: PhantomData<E>,
 }
 
@@ -880,7 +926,7 @@ where
     where
         T: ?Sized + Serialize,
     {
-        let value = value.serialize(ContentSerializer::<E>::new())?;
+        let value = value.serialize(ContentSerializer::<E>::new(self.human_readable))?;
         self.fields.push(value);
         Ok(())
     }
@@ -895,6 +941,7 @@ pub struct ContentSerializeTupleVariant<E> {
     variant_index: u32,
     variant: &'static str,
     fields: Vec<Content>,
+    human_readable: bool,
     error: PhantomData<E>,
 }
 
@@ -909,7 +956,7 @@ where
     where
         T: ?Sized + Serialize,
     {
-        let value = value.serialize(ContentSerializer::<E>::new())?;
+        let value = value.serialize(ContentSerializer::<E>::new(self.human_readable))?;
         self.fields.push(value);
         Ok(())
     }
@@ -927,6 +974,7 @@ where
 pub struct ContentSerializeMap<E> {
     entries: Vec<(Content, Content)>,
     key: Option<Content>,
+    human_readable: bool,
     error: PhantomData<E>,
 }
 
@@ -941,7 +989,7 @@ where
     where
         T: ?Sized + Serialize,
     {
-        let key = key.serialize(ContentSerializer::<E>::new())?;
+        let key = key.serialize(ContentSerializer::<E>::new(self.human_readable))?;
         self.key = Some(key);
         Ok(())
     }
@@ -954,7 +1002,7 @@ where
             .key
             .take()
             .expect("serialize_value called before serialize_key");
-        let value = value.serialize(ContentSerializer::<E>::new())?;
+        let value = value.serialize(ContentSerializer::<E>::new(self.human_readable))?;
         self.entries.push((key, value));
         Ok(())
     }
@@ -968,8 +1016,8 @@ where
         K: ?Sized + Serialize,
         V: ?Sized + Serialize,
     {
-        let key = key.serialize(ContentSerializer::<E>::new())?;
-        let value = value.serialize(ContentSerializer::<E>::new())?;
+        let key = key.serialize(ContentSerializer::<E>::new(self.human_readable))?;
+        let value = value.serialize(ContentSerializer::<E>::new(self.human_readable))?;
         self.entries.push((key, value));
         Ok(())
     }
@@ -978,6 +1026,7 @@ where
 pub struct ContentSerializeStruct<E> {
     name: &'static str,
     fields: Vec<(&'static str, Content)>,
+    human_readable: bool,
     error: PhantomData<E>,
 }
 
@@ -992,7 +1041,7 @@ where
     where
         T: ?Sized + Serialize,
     {
-        let value = value.serialize(ContentSerializer::<E>::new())?;
+        let value = value.serialize(ContentSerializer::<E>::new(self.human_readable))?;
         self.fields.push((key, value));
         Ok(())
     }
@@ -1007,6 +1056,7 @@ pub struct ContentSerializeStructVariant<E> {
     variant_index: u32,
     variant: &'static str,
     fields: Vec<(&'static str, Content)>,
+    human_readable: bool,
     error: PhantomData<E>,
 }
 
@@ -1021,7 +1071,7 @@ where
     where
         T: ?Sized + Serialize,
     {
-        let value = value.serialize(ContentSerializer::<E>::new())?;
+        let value = value.serialize(ContentSerializer::<E>::new(self.human_readable))?;
         self.fields.push((key, value));
         Ok(())
     }
-- 
2.43.0


From fccafad541c88093414597515ee5d67a19e39426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:42 +0000
Subject: [PATCH 03/22] fix: read every internally tagged form when the tag is
 not the first entry

---
 src/internally.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/internally.rs b/src/internally.rs
index d92848f..cd66df4 100644
--- a/src/internally.rs
+++ b/src/internally.rs
@@ -7,9 +7,9 @@ use alloc::boxed::Box;
 use alloc::string::String;
 use alloc::vec::Vec;
 use core::fmt;
+use serde::de::value::MapDeserializer;
 use serde::de::{
-    self, DeserializeSeed, Deserializer, EnumAccess, IgnoredAny, IntoDeserializer, MapAccess,
-    VariantAccess, Visitor,
+    self, DeserializeSeed, Deserializer, EnumAccess, IgnoredAny, MapAccess, VariantAccess, Visitor,
 };
 use serde::forward_to_deserialize_any;
 use serde::ser::{Serialize, Serializer};
@@ -121,8 +121,10 @@ impl<'de, T: ?Sized> Visitor<'de> for TaggedVisitor<T> {
         };
 
         let fn_apply = FnApply { deserialize_fn };
-        let content = Content::Map(entries).into_deserializer();
-        fn_apply.deserialize(content)
+        let mut rest = MapDeserializer::new(entries.into_iter());
+        let object = fn_apply.deserialize(MapWithStringKeys { map: &mut rest })?;
+        rest.end()?;
+        Ok(object)
     }
 }
 
-- 
2.43.0


From 6489900c43e9d389c28d04e4a69fba42665e5889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:25 +0000
Subject: [PATCH 04/22] fix: buffer and replay 128-bit integers

---
 src/content.rs | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/content.rs b/src/content.rs
index d128bc5..21781a4 100644
--- a/src/content.rs
+++ b/src/content.rs
@@ -20,11 +20,13 @@ pub enum Content<'de> {
     U16(u16),
     U32(u32),
     U64(u64),
+    U128(u128),
 
     I8(i8),
     I16(i16),
     I32(i32),
     I64(i64),
+    I128(i128),
 
     F32(f32),
     F64(f64),
@@ -52,10 +54,12 @@ impl<'de> Content<'de> {
             Content::U16(n) => Unexpected::Unsigned(u64::from(n)),
             Content::U32(n) => Unexpected::Unsigned(u64::from(n)),
             Content::U64(n) => Unexpected::Unsigned(n),
+            Content::U128(_) => Unexpected::Other("integer"),
             Content::I8(n) => Unexpected::Signed(i64::from(n)),
             Content::I16(n) => Unexpected::Signed(i64::from(n)),
             Content::I32(n) => Unexpected::Signed(i64::from(n)),
             Content::I64(n) => Unexpected::Signed(n),
+            Content::I128(_) => Unexpected::Other("integer"),
             Content::F32(f) => Unexpected::Float(f64::from(f)),
             Content::F64(f) => Unexpected::Float(f),
             Content::Char(c) => Unexpected::Char(c),
@@ -130,6 +134,13 @@ impl<'de> Visitor<'de> for ContentVisitor<'de> {
         Ok(Content::I64(value))
     }
 
+    fn visit_i128<F>(self, value: i128) -> Result<Self::Value, F>
+    where
+        F: de::Error,
+    {
+        Ok(Content::I128(value))
+    }
+
     fn visit_u8<F>(self, value: u8) -> Result<Self::Value, F>
     where
         F: de::Error,
@@ -158,6 +169,13 @@ impl<'de> Visitor<'de> for ContentVisitor<'de> {
         Ok(Content::U64(value))
     }
 
+    fn visit_u128<F>(self, value: u128) -> Result<Self::Value, F>
+    where
+        F: de::Error,
+    {
+        Ok(Content::U128(value))
+    }
+
     fn visit_f32<F>(self, value: f32) -> Result<Self::Value, F>
     where
         F: de::Error,
@@ -325,10 +343,12 @@ where
             Content::U16(v) => visitor.visit_u16(v),
             Content::U32(v) => visitor.visit_u32(v),
             Content::U64(v) => visitor.visit_u64(v),
+            Content::U128(v) => visitor.visit_u128(v),
             Content::I8(v) => visitor.visit_i8(v),
             Content::I16(v) => visitor.visit_i16(v),
             Content::I32(v) => visitor.visit_i32(v),
             Content::I64(v) => visitor.visit_i64(v),
+            Content::I128(v) => visitor.visit_i128(v),
             _ => Err(self.invalid_type(&visitor)),
         }
     }
@@ -379,10 +399,12 @@ where
             Content::U16(v) => visitor.visit_u16(v),
             Content::U32(v) => visitor.visit_u32(v),
             Content::U64(v) => visitor.visit_u64(v),
+            Content::U128(v) => visitor.visit_u128(v),
             Content::I8(v) => visitor.visit_i8(v),
             Content::I16(v) => visitor.visit_i16(v),
             Content::I32(v) => visitor.visit_i32(v),
             Content::I64(v) => visitor.visit_i64(v),
+            Content::I128(v) => visitor.visit_i128(v),
             Content::F32(v) => visitor.visit_f32(v),
             Content::F64(v) => visitor.visit_f64(v),
             Content::Char(v) => visitor.visit_char(v),
@@ -437,6 +459,13 @@ where
         self.deserialize_integer(visitor)
     }
 
+    fn deserialize_i128<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'de>,
+    {
+        self.deserialize_integer(visitor)
+    }
+
     fn deserialize_u8<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: Visitor<'de>,
@@ -465,6 +494,13 @@ where
         self.deserialize_integer(visitor)
     }
 
+    fn deserialize_u128<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'de>,
+    {
+        self.deserialize_integer(visitor)
+    }
+
     fn deserialize_f32<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: Visitor<'de>,
-- 
2.43.0


From e063f2b7c0bad1c157bbac4da5c5e4eb558f6ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:29 +0000
Subject: [PATCH 05/22] fix: read a buffered number of any width as a float

---
 src/content.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/content.rs b/src/content.rs
index 21781a4..0971fae 100644
--- a/src/content.rs
+++ b/src/content.rs
@@ -352,6 +352,17 @@ where
             _ => Err(self.invalid_type(&visitor)),
         }
     }
+
+    fn deserialize_float<V>(self, visitor: V) -> Result<V::Value, E>
+    where
+        V: Visitor<'de>,
+    {
+        match self.content {
+            Content::F32(v) => visitor.visit_f32(v),
+            Content::F64(v) => visitor.visit_f64(v),
+            _ => self.deserialize_integer(visitor),
+        }
+    }
 }
 
 fn visit_content_seq<'de, V, E>(content: Vec<Content<'de>>, visitor: V) -> Result<V::Value, E>
@@ -505,25 +516,14 @@ where
     where
         V: Visitor<'de>,
     {
-        match self.content {
-            Content::F32(v) => visitor.visit_f32(v),
-            Content::F64(v) => visitor.visit_f64(v),
-            Content::U64(v) => visitor.visit_u64(v),
-            Content::I64(v) => visitor.visit_i64(v),
-            _ => Err(self.invalid_type(&visitor)),
-        }
+        self.deserialize_float(visitor)
     }
 
     fn deserialize_f64<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: Visitor<'de>,
     {
-        match self.content {
-            Content::F64(v) => visitor.visit_f64(v),
-            Content::U64(v) => visitor.visit_u64(v),
-            Content::I64(v) => visitor.visit_i64(v),
-            _ => Err(self.invalid_type(&visitor)),
-        }
+        self.deserialize_float(visitor)
     }
 
     fn deserialize_char<V>(self, visitor: V) -> Result<V::Value, Self::Error>
-- 
2.43.0


From b3180818251673eb5243e4244637e160d087211e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:33 +0000
Subject: [PATCH 06/22] fix: read a buffered null as a unit

---
 src/content.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/content.rs b/src/content.rs
index 0971fae..1b28d53 100644
--- a/src/content.rs
+++ b/src/content.rs
@@ -596,7 +596,8 @@ where
         V: Visitor<'de>,
     {
         match self.content {
-            Content::Unit => visitor.visit_unit(),
+            // Some formats' any-value parsing does not tell null from None.
+            Content::Unit | Content::None => visitor.visit_unit(),
             _ => Err(self.invalid_type(&visitor)),
         }
     }
@@ -625,6 +626,7 @@ where
             // We want {"topic":"Info"} to deserialize even though
             // ordinarily unit structs do not deserialize from empty map.
             Content::Map(ref v) if v.is_empty() => visitor.visit_unit(),
+            Content::None => visitor.visit_unit(),
             _ => self.deserialize_any(visitor),
         }
     }
-- 
2.43.0


From 175db4813255e52fe0aa01e5c96136d17ac25d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:36 +0000
Subject: [PATCH 07/22] fix: write internally tagged byte arrays as bytes

---
 src/ser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ser.rs b/src/ser.rs
index 4638fe8..d204c4b 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -122,7 +122,7 @@ where
     }
 
     fn serialize_bytes(self, value: &[u8]) -> Result<Self::Ok, Self::Error> {
-        self.serialize_default(value)
+        self.serialize_default(&Content::Bytes(value.to_owned()))
     }
 
     fn serialize_none(self) -> Result<Self::Ok, Self::Error> {
-- 
2.43.0


From 601ea67fbd48a1432879415a205a18a1ea4cbd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:25 +0000
Subject: [PATCH 08/22] fix: read a buffered enum variant that has no fields

---
 src/content.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/content.rs b/src/content.rs
index 1b28d53..2255d59 100644
--- a/src/content.rs
+++ b/src/content.rs
@@ -921,16 +921,12 @@ where
         V: Visitor<'de>,
     {
         let len = self.iter.len();
-        if len == 0 {
-            visitor.visit_unit()
+        let ret = visitor.visit_seq(&mut self)?;
+        let remaining = self.iter.len();
+        if remaining == 0 {
+            Ok(ret)
         } else {
-            let ret = visitor.visit_seq(&mut self)?;
-            let remaining = self.iter.len();
-            if remaining == 0 {
-                Ok(ret)
-            } else {
-                Err(de::Error::invalid_length(len, &"fewer elements in array"))
-            }
+            Err(de::Error::invalid_length(len, &"fewer elements in array"))
         }
     }
 
-- 
2.43.0


From cb896f6f59aa0fd5bf48bbf1fdeb56a4e1648b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:33 +0000
Subject: [PATCH 09/22] fix: read internally tagged map keys that are not plain
 strings

---
 src/internally.rs | 51 ++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 48 insertions(+), 3 deletions(-)

diff --git a/src/internally.rs b/src/internally.rs
index cd66df4..cd9f339 100644
--- a/src/internally.rs
+++ b/src/internally.rs
@@ -625,6 +625,19 @@ struct StringKeyDeserializer<D> {
     delegate: D,
 }
 
+macro_rules! deserialize_native_key {
+    ($($method:ident($($k:ident : $ty:ty),*))*) => {
+        $(
+            fn $method<V>(self, $($k: $ty,)* visitor: V) -> Result<V::Value, Self::Error>
+            where
+                V: Visitor<'de>,
+            {
+                self.delegate.$method($($k,)* visitor)
+            }
+        )*
+    };
+}
+
 impl<'de, D> Deserializer<'de> for StringKeyDeserializer<D>
 where
     D: Deserializer<'de>,
@@ -639,9 +652,41 @@ where
     }
 
     forward_to_deserialize_any! {
-        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
-        bytes byte_buf option unit unit_struct newtype_struct seq tuple
-        tuple_struct map struct enum identifier ignored_any
+        str string identifier ignored_any
+    }
+
+    // A map can have keys that are written as something other than a string.
+    deserialize_native_key! {
+        deserialize_bool()
+        deserialize_i8()
+        deserialize_i16()
+        deserialize_i32()
+        deserialize_i64()
+        deserialize_i128()
+        deserialize_u8()
+        deserialize_u16()
+        deserialize_u32()
+        deserialize_u64()
+        deserialize_u128()
+        deserialize_f32()
+        deserialize_f64()
+        deserialize_char()
+        deserialize_bytes()
+        deserialize_byte_buf()
+        deserialize_option()
+        deserialize_unit()
+        deserialize_unit_struct(name: &'static str)
+        deserialize_newtype_struct(name: &'static str)
+        deserialize_seq()
+        deserialize_tuple(len: usize)
+        deserialize_tuple_struct(name: &'static str, len: usize)
+        deserialize_map()
+        deserialize_struct(name: &'static str, fields: &'static [&'static str])
+        deserialize_enum(name: &'static str, variants: &'static [&'static str])
+    }
+
+    fn is_human_readable(&self) -> bool {
+        self.delegate.is_human_readable()
     }
 }
 
-- 
2.43.0


From 7bc1ba7f2ac9cc1d1b2188eb84712420453c7460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:37 +0000
Subject: [PATCH 10/22] fix: count the entries of an internally tagged struct
 whose first field is the tag

---
 src/ser.rs | 61 +++++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 44 insertions(+), 17 deletions(-)

diff --git a/src/ser.rs b/src/ser.rs
index d204c4b..f506e91 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -58,7 +58,7 @@ where
     type SerializeTupleStruct = SerializeTupleStructAsMapValue<S::SerializeMap>;
     type SerializeTupleVariant = SerializeTupleStructAsMapValue<S::SerializeMap>;
     type SerializeMap = S::SerializeMap;
-    type SerializeStruct = SerializeStructAsMap<S::SerializeMap>;
+    type SerializeStruct = SerializeStructAsMap<S>;
     type SerializeStructVariant = SerializeStructVariantAsMapValue<S::SerializeMap>;
 
     fn serialize_bool(self, value: bool) -> Result<Self::Ok, Self::Error> {
@@ -248,9 +248,13 @@ where
         _: &'static str,
         len: usize,
     ) -> Result<Self::SerializeStruct, Self::Error> {
-        let mut state = self.delegate.serialize_map(Some(len + 1))?;
-        state.serialize_entry(self.tag, self.variant)?;
-        Ok(SerializeStructAsMap::new(state, self.tag, self.variant))
+        Ok(SerializeStructAsMap {
+            delegate: Some(self.delegate),
+            map: None,
+            len,
+            tag: self.tag,
+            variant: self.variant,
+        })
     }
 
     fn serialize_struct_variant(
@@ -413,24 +417,39 @@ where
     }
 }
 
-pub struct SerializeStructAsMap<M> {
-    map: M,
+pub struct SerializeStructAsMap<S>
+where
+    S: Serializer,
+{
+    // Taken when the map is started, which waits until it is known whether the
+    // first field is the tag: such a field does not add an entry to the map.
+    delegate: Option<S>,
+    map: Option<S::SerializeMap>,
+    len: usize,
     tag: &'static str,
     variant: &'static str,
 }
 
-impl<M> SerializeStructAsMap<M> {
-    fn new(map: M, tag: &'static str, variant: &'static str) -> Self {
-        SerializeStructAsMap { map, tag, variant }
+impl<S> SerializeStructAsMap<S>
+where
+    S: Serializer,
+{
+    fn start(&mut self, len: usize) -> Result<(), S::Error> {
+        if let Some(delegate) = self.delegate.take() {
+            let mut map = delegate.serialize_map(Some(len))?;
+            map.serialize_entry(self.tag, self.variant)?;
+            self.map = Some(map);
+        }
+        Ok(())
     }
 }
 
-impl<M> SerializeStruct for SerializeStructAsMap<M>
+impl<S> SerializeStruct for SerializeStructAsMap<S>
 where
-    M: SerializeMap,
+    S: Serializer,
 {
-    type Ok = M::Ok;
-    type Error = M::Error;
+    type Ok = S::Ok;
+    type Error = S::Error;
 
     fn serialize_field<T>(&mut self, key: &'static str, value: &T) -> Result<(), Self::Error>
     where
@@ -438,19 +457,27 @@ where
     {
         if key == self.tag {
             match expect_str(value, self.variant) {
-                Ok(()) => Ok(()),
+                Ok(()) => self.start(self.len),
                 Err(unexpected) => Err(ser::Error::custom(format!(
                     "mismatched value for tag {:?}: {:?} vs {:?}",
                     self.tag, self.variant, unexpected,
                 ))),
             }
         } else {
-            self.map.serialize_entry(key, value)
+            self.start(self.len + 1)?;
+            match &mut self.map {
+                Some(map) => map.serialize_entry(key, value),
+                None => Err(ser::Error::custom("struct serialization already failed")),
+            }
         }
     }
 
-    fn end(self) -> Result<Self::Ok, Self::Error> {
-        self.map.end()
+    fn end(mut self) -> Result<Self::Ok, Self::Error> {
+        self.start(self.len + 1)?;
+        match self.map {
+            Some(map) => map.end(),
+            None => Err(ser::Error::custom("struct serialization already failed")),
+        }
     }
 }
 
-- 
2.43.0


From 6818bbfb7a9bc33e048b7110dc7f7f07f5d4558c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:37 +0000
Subject: [PATCH 11/22] fix: read an internally tagged optional value with the
 format's own human-readability

---
 src/internally.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/internally.rs b/src/internally.rs
index cd9f339..f4e4862 100644
--- a/src/internally.rs
+++ b/src/internally.rs
@@ -48,6 +48,7 @@ where
         tag,
         default_variant,
         registry,
+        human_readable: deserializer.is_human_readable(),
     };
     deserializer.deserialize_map(visitor)
 }
@@ -59,6 +60,7 @@ struct TaggedVisitor<T: ?Sized + 'static> {
     tag: &'static str,
     default_variant: Option<&'static str>,
     registry: &'static Registry<T>,
+    human_readable: bool,
 }
 
 impl<'de, T: ?Sized> Visitor<'de> for TaggedVisitor<T> {
@@ -93,7 +95,10 @@ impl<'de, T: ?Sized> Visitor<'de> for TaggedVisitor<T> {
                         let fn_apply = FnApply {
                             deserialize_fn: value,
                         };
-                        let rest = MapWithStringKeys { map };
+                        let rest = MapWithStringKeys {
+                            map,
+                            human_readable: self.human_readable,
+                        };
                         return fn_apply.deserialize(rest);
                     }
                     deserialize_fn = Some(value);
@@ -122,7 +127,10 @@ impl<'de, T: ?Sized> Visitor<'de> for TaggedVisitor<T> {
 
         let fn_apply = FnApply { deserialize_fn };
         let mut rest = MapDeserializer::new(entries.into_iter());
-        let object = fn_apply.deserialize(MapWithStringKeys { map: &mut rest })?;
+        let object = fn_apply.deserialize(MapWithStringKeys {
+            map: &mut rest,
+            human_readable: self.human_readable,
+        })?;
         rest.end()?;
         Ok(object)
     }
@@ -171,6 +179,7 @@ impl<'de> DeserializeSeed<'de> for KeyVisitor {
 
 struct MapWithStringKeys<A> {
     map: A,
+    human_readable: bool,
 }
 
 impl<'de, A> MapWithStringKeys<A>
@@ -358,7 +367,10 @@ where
     {
         match self.map.next_key_seed(DefaultKey)? {
             None => visitor.visit_none(),
-            Some(()) => visitor.visit_some(MapValueAsDeserializer { map: self.map }),
+            Some(()) => visitor.visit_some(MapValueAsDeserializer {
+                map: self.map,
+                human_readable: self.human_readable,
+            }),
         }
     }
 
@@ -724,6 +736,7 @@ impl<'de> DeserializeSeed<'de> for DefaultKey {
 
 struct MapValueAsDeserializer<A> {
     map: A,
+    human_readable: bool,
 }
 
 macro_rules! deserialize_map_value {
@@ -1022,4 +1035,8 @@ where
     {
         deserialize_map_value!(self, deserialize_ignored_any, visitor)
     }
+
+    fn is_human_readable(&self) -> bool {
+        self.human_readable
+    }
 }
-- 
2.43.0


From 59cec054eb162b0c5d4f1654706957d5cd240990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:39 +0000
Subject: [PATCH 12/22] fix: keep the format's human-readability while
 replaying buffered content

---
 src/adjacently.rs |   4 +-
 src/content.rs    | 134 +++++++++++++++++++++++++++++++++++-----------
 src/internally.rs |  10 ++--
 3 files changed, 109 insertions(+), 39 deletions(-)

diff --git a/src/adjacently.rs b/src/adjacently.rs
index a8b317a..1a557e8 100644
--- a/src/adjacently.rs
+++ b/src/adjacently.rs
@@ -1,4 +1,4 @@
-use crate::content::Content;
+use crate::content::BufferedContent;
 use crate::de::{FnApply, MapLookupVisitor};
 use crate::private::Registry;
 use crate::ser::Wrap;
@@ -122,7 +122,7 @@ impl<'de, T: ?Sized> Visitor<'de> for TaggedVisitor<T> {
             // First key is the content.
             Some(TagOrContentField::Content) => {
                 // Buffer up the content.
-                let content = map.next_value::<Content>()?;
+                let content = map.next_value::<BufferedContent>()?;
                 // Visit the second key.
                 match next_relevant_key(&mut map)? {
                     // Second key is the tag.
diff --git a/src/content.rs b/src/content.rs
index 2255d59..9200adb 100644
--- a/src/content.rs
+++ b/src/content.rs
@@ -88,6 +88,35 @@ impl<'de> Deserialize<'de> for Content<'de> {
     }
 }
 
+// The contents along with whether they came from a human-readable format, which
+// whatever is deserialized from the contents can depend on.
+pub struct BufferedContent<'de> {
+    content: Content<'de>,
+    human_readable: bool,
+}
+
+impl<'de> BufferedContent<'de> {
+    pub fn string(value: String, human_readable: bool) -> Self {
+        BufferedContent {
+            content: Content::String(value),
+            human_readable,
+        }
+    }
+}
+
+impl<'de> Deserialize<'de> for BufferedContent<'de> {
+    fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+    where
+        D: Deserializer<'de>,
+    {
+        let human_readable = deserializer.is_human_readable();
+        Ok(BufferedContent {
+            content: Content::deserialize(deserializer)?,
+            human_readable,
+        })
+    }
+}
+
 struct ContentVisitor<'de> {
     value: PhantomData<Content<'de>>,
 }
@@ -301,17 +330,18 @@ impl<'de> Visitor<'de> for ContentVisitor<'de> {
 
 pub struct ContentDeserializer<'de, E> {
     content: Content<'de>,
+    human_readable: bool,
     err: PhantomData<E>,
 }
 
-impl<'de, E> IntoDeserializer<'de, E> for Content<'de>
+impl<'de, E> IntoDeserializer<'de, E> for BufferedContent<'de>
 where
     E: de::Error,
 {
     type Deserializer = ContentDeserializer<'de, E>;
 
     fn into_deserializer(self) -> Self::Deserializer {
-        ContentDeserializer::new(self)
+        ContentDeserializer::new(self.content, self.human_readable)
     }
 }
 
@@ -365,12 +395,18 @@ where
     }
 }
 
-fn visit_content_seq<'de, V, E>(content: Vec<Content<'de>>, visitor: V) -> Result<V::Value, E>
+fn visit_content_seq<'de, V, E>(
+    content: Vec<Content<'de>>,
+    human_readable: bool,
+    visitor: V,
+) -> Result<V::Value, E>
 where
     V: Visitor<'de>,
     E: de::Error,
 {
-    let seq = content.into_iter().map(ContentDeserializer::new);
+    let seq = content
+        .into_iter()
+        .map(|e| ContentDeserializer::new(e, human_readable));
     let mut seq_visitor = value::SeqDeserializer::new(seq);
     let value = visitor.visit_seq(&mut seq_visitor)?;
     seq_visitor.end()?;
@@ -379,15 +415,19 @@ where
 
 fn visit_content_map<'de, V, E>(
     content: Vec<(Content<'de>, Content<'de>)>,
+    human_readable: bool,
     visitor: V,
 ) -> Result<V::Value, E>
 where
     V: Visitor<'de>,
     E: de::Error,
 {
-    let map = content
-        .into_iter()
-        .map(|(k, v)| (ContentDeserializer::new(k), ContentDeserializer::new(v)));
+    let map = content.into_iter().map(|(k, v)| {
+        (
+            ContentDeserializer::new(k, human_readable),
+            ContentDeserializer::new(v, human_readable),
+        )
+    });
     let mut map_visitor = value::MapDeserializer::new(map);
     let value = visitor.visit_map(&mut map_visitor)?;
     map_visitor.end()?;
@@ -425,10 +465,14 @@ where
             Content::Bytes(v) => visitor.visit_borrowed_bytes(v),
             Content::Unit => visitor.visit_unit(),
             Content::None => visitor.visit_none(),
-            Content::Some(v) => visitor.visit_some(ContentDeserializer::new(*v)),
-            Content::Newtype(v) => visitor.visit_newtype_struct(ContentDeserializer::new(*v)),
-            Content::Seq(v) => visit_content_seq(v, visitor),
-            Content::Map(v) => visit_content_map(v, visitor),
+            Content::Some(v) => {
+                visitor.visit_some(ContentDeserializer::new(*v, self.human_readable))
+            }
+            Content::Newtype(v) => {
+                visitor.visit_newtype_struct(ContentDeserializer::new(*v, self.human_readable))
+            }
+            Content::Seq(v) => visit_content_seq(v, self.human_readable, visitor),
+            Content::Map(v) => visit_content_map(v, self.human_readable, visitor),
         }
     }
 
@@ -574,7 +618,7 @@ where
             Content::Str(v) => visitor.visit_borrowed_str(v),
             Content::ByteBuf(v) => visitor.visit_byte_buf(v),
             Content::Bytes(v) => visitor.visit_borrowed_bytes(v),
-            Content::Seq(v) => visit_content_seq(v, visitor),
+            Content::Seq(v) => visit_content_seq(v, self.human_readable, visitor),
             _ => Err(self.invalid_type(&visitor)),
         }
     }
@@ -585,7 +629,9 @@ where
     {
         match self.content {
             Content::None => visitor.visit_none(),
-            Content::Some(v) => visitor.visit_some(ContentDeserializer::new(*v)),
+            Content::Some(v) => {
+                visitor.visit_some(ContentDeserializer::new(*v, self.human_readable))
+            }
             Content::Unit => visitor.visit_unit(),
             _ => visitor.visit_some(self),
         }
@@ -636,7 +682,9 @@ where
         V: Visitor<'de>,
     {
         match self.content {
-            Content::Newtype(v) => visitor.visit_newtype_struct(ContentDeserializer::new(*v)),
+            Content::Newtype(v) => {
+                visitor.visit_newtype_struct(ContentDeserializer::new(*v, self.human_readable))
+            }
             _ => visitor.visit_newtype_struct(self),
         }
     }
@@ -646,7 +694,7 @@ where
         V: Visitor<'de>,
     {
         match self.content {
-            Content::Seq(v) => visit_content_seq(v, visitor),
+            Content::Seq(v) => visit_content_seq(v, self.human_readable, visitor),
             _ => Err(self.invalid_type(&visitor)),
         }
     }
@@ -675,7 +723,7 @@ where
         V: Visitor<'de>,
     {
         match self.content {
-            Content::Map(v) => visit_content_map(v, visitor),
+            Content::Map(v) => visit_content_map(v, self.human_readable, visitor),
             _ => Err(self.invalid_type(&visitor)),
         }
     }
@@ -690,8 +738,8 @@ where
         V: Visitor<'de>,
     {
         match self.content {
-            Content::Seq(v) => visit_content_seq(v, visitor),
-            Content::Map(v) => visit_content_map(v, visitor),
+            Content::Seq(v) => visit_content_seq(v, self.human_readable, visitor),
+            Content::Map(v) => visit_content_map(v, self.human_readable, visitor),
             _ => Err(self.invalid_type(&visitor)),
         }
     }
@@ -732,7 +780,7 @@ where
             }
         };
 
-        visitor.visit_enum(EnumDeserializer::new(variant, value))
+        visitor.visit_enum(EnumDeserializer::new(variant, value, self.human_readable))
     }
 
     fn deserialize_identifier<V>(self, visitor: V) -> Result<V::Value, Self::Error>
@@ -756,12 +804,17 @@ where
         drop(self);
         visitor.visit_unit()
     }
+
+    fn is_human_readable(&self) -> bool {
+        self.human_readable
+    }
 }
 
 impl<'de, E> ContentDeserializer<'de, E> {
-    fn new(content: Content<'de>) -> Self {
+    fn new(content: Content<'de>, human_readable: bool) -> Self {
         ContentDeserializer {
             content,
+            human_readable,
             err: PhantomData,
         }
     }
@@ -773,6 +826,7 @@ where
 {
     variant: Content<'de>,
     value: Option<Content<'de>>,
+    human_readable: bool,
     err: PhantomData<E>,
 }
 
@@ -780,10 +834,15 @@ impl<'de, E> EnumDeserializer<'de, E>
 where
     E: de::Error,
 {
-    fn new(variant: Content<'de>, value: Option<Content<'de>>) -> EnumDeserializer<'de, E> {
+    fn new(
+        variant: Content<'de>,
+        value: Option<Content<'de>>,
+        human_readable: bool,
+    ) -> EnumDeserializer<'de, E> {
         EnumDeserializer {
             variant,
             value,
+            human_readable,
             err: PhantomData,
         }
     }
@@ -802,9 +861,10 @@ where
     {
         let visitor = VariantDeserializer {
             value: self.value,
+            human_readable: self.human_readable,
             err: PhantomData,
         };
-        seed.deserialize(ContentDeserializer::new(self.variant))
+        seed.deserialize(ContentDeserializer::new(self.variant, self.human_readable))
             .map(|v| (v, visitor))
     }
 }
@@ -814,6 +874,7 @@ where
     E: de::Error,
 {
     value: Option<Content<'de>>,
+    human_readable: bool,
     err: PhantomData<E>,
 }
 
@@ -825,7 +886,9 @@ where
 
     fn unit_variant(self) -> Result<(), E> {
         match self.value {
-            Some(value) => Deserialize::deserialize(ContentDeserializer::new(value)),
+            Some(value) => {
+                Deserialize::deserialize(ContentDeserializer::new(value, self.human_readable))
+            }
             None => Ok(()),
         }
     }
@@ -835,7 +898,7 @@ where
         T: DeserializeSeed<'de>,
     {
         match self.value {
-            Some(value) => seed.deserialize(ContentDeserializer::new(value)),
+            Some(value) => seed.deserialize(ContentDeserializer::new(value, self.human_readable)),
             None => Err(de::Error::invalid_type(
                 Unexpected::UnitVariant,
                 &"newtype variant",
@@ -849,7 +912,7 @@ where
     {
         match self.value {
             Some(Content::Seq(v)) => {
-                Deserializer::deserialize_any(SeqDeserializer::new(v), visitor)
+                Deserializer::deserialize_any(SeqDeserializer::new(v, self.human_readable), visitor)
             }
             Some(other) => Err(de::Error::invalid_type(
                 other.unexpected(),
@@ -872,10 +935,10 @@ where
     {
         match self.value {
             Some(Content::Map(v)) => {
-                Deserializer::deserialize_any(MapDeserializer::new(v), visitor)
+                Deserializer::deserialize_any(MapDeserializer::new(v, self.human_readable), visitor)
             }
             Some(Content::Seq(v)) => {
-                Deserializer::deserialize_any(SeqDeserializer::new(v), visitor)
+                Deserializer::deserialize_any(SeqDeserializer::new(v, self.human_readable), visitor)
             }
             Some(other) => Err(de::Error::invalid_type(
                 other.unexpected(),
@@ -894,6 +957,7 @@ where
     E: de::Error,
 {
     iter: <Vec<Content<'de>> as IntoIterator>::IntoIter,
+    human_readable: bool,
     err: PhantomData<E>,
 }
 
@@ -901,9 +965,10 @@ impl<'de, E> SeqDeserializer<'de, E>
 where
     E: de::Error,
 {
-    fn new(vec: Vec<Content<'de>>) -> Self {
+    fn new(vec: Vec<Content<'de>>, human_readable: bool) -> Self {
         SeqDeserializer {
             iter: vec.into_iter(),
+            human_readable,
             err: PhantomData,
         }
     }
@@ -948,7 +1013,9 @@ where
         T: DeserializeSeed<'de>,
     {
         match self.iter.next() {
-            Some(value) => seed.deserialize(ContentDeserializer::new(value)).map(Some),
+            Some(value) => seed
+                .deserialize(ContentDeserializer::new(value, self.human_readable))
+                .map(Some),
             None => Ok(None),
         }
     }
@@ -959,6 +1026,7 @@ where
     E: de::Error,
 {
     iter: <Vec<(Content<'de>, Content<'de>)> as IntoIterator>::IntoIter,
+    human_readable: bool,
     value: Option<Content<'de>>,
     err: PhantomData<E>,
 }
@@ -967,9 +1035,10 @@ impl<'de, E> MapDeserializer<'de, E>
 where
     E: de::Error,
 {
-    fn new(map: Vec<(Content<'de>, Content<'de>)>) -> Self {
+    fn new(map: Vec<(Content<'de>, Content<'de>)>, human_readable: bool) -> Self {
         MapDeserializer {
             iter: map.into_iter(),
+            human_readable,
             value: None,
             err: PhantomData,
         }
@@ -989,7 +1058,8 @@ where
         match self.iter.next() {
             Some((key, value)) => {
                 self.value = Some(value);
-                seed.deserialize(ContentDeserializer::new(key)).map(Some)
+                seed.deserialize(ContentDeserializer::new(key, self.human_readable))
+                    .map(Some)
             }
             None => Ok(None),
         }
@@ -1000,7 +1070,7 @@ where
         T: DeserializeSeed<'de>,
     {
         match self.value.take() {
-            Some(value) => seed.deserialize(ContentDeserializer::new(value)),
+            Some(value) => seed.deserialize(ContentDeserializer::new(value, self.human_readable)),
             None => Err(de::Error::custom("value is missing")),
         }
     }
diff --git a/src/internally.rs b/src/internally.rs
index f4e4862..b9a15ec 100644
--- a/src/internally.rs
+++ b/src/internally.rs
@@ -1,4 +1,4 @@
-use crate::content::Content;
+use crate::content::BufferedContent;
 use crate::de::{FnApply, MapLookupVisitor};
 use crate::private::Registry;
 use crate::ser::{InternallyTaggedSerializer, Wrap};
@@ -103,15 +103,15 @@ impl<'de, T: ?Sized> Visitor<'de> for TaggedVisitor<T> {
                     }
                     deserialize_fn = Some(value);
                     while let Some(key) = map.next_key::<String>()? {
-                        let key = Content::String(key);
-                        let value = map.next_value::<Content>()?;
+                        let key = BufferedContent::string(key, self.human_readable);
+                        let value = map.next_value::<BufferedContent>()?;
                         entries.push((key, value));
                     }
                     break;
                 }
                 Key::Other(key) => {
-                    let key = Content::String(key);
-                    let value = map.next_value::<Content>()?;
+                    let key = BufferedContent::string(key, self.human_readable);
+                    let value = map.next_value::<BufferedContent>()?;
                     entries.push((key, value));
                 }
             }
-- 
2.43.0


From 5c47ca68c06a876a9bccbf6f3218a419b4a8f442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:12 +0000
Subject: [PATCH 13/22] fix: let the top level of internally tagged data see
 the format's human-readability

A newtype around a trait object that is itself internally tagged buffered its
sequence for a human-readable format and read it back for a compact one, and
types that are compact in binary formats were written as text.
---
 src/internally.rs | 4 ++++
 src/ser.rs        | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/internally.rs b/src/internally.rs
index b9a15ec..f1ca3ba 100644
--- a/src/internally.rs
+++ b/src/internally.rs
@@ -485,6 +485,10 @@ where
         }
         visitor.visit_unit()
     }
+
+    fn is_human_readable(&self) -> bool {
+        self.human_readable
+    }
 }
 
 impl<'de, A> MapAccess<'de> for MapWithStringKeys<A>
diff --git a/src/ser.rs b/src/ser.rs
index f506e91..ee12445 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -275,6 +275,10 @@ where
             human_readable,
         ))
     }
+
+    fn is_human_readable(&self) -> bool {
+        self.delegate.is_human_readable()
+    }
 }
 
 pub struct SerializeSeqAsMapValue<M> {
-- 
2.43.0


From b36950b92638c163658de2e3937d2bb19ee7f3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:35 +0000
Subject: [PATCH 14/22] fix: keep the names the macros introduce apart from the
 user's

---
 impl/src/tagged_impl.rs  |  4 +--
 impl/src/tagged_trait.rs | 72 ++++++++++++++++++++--------------------
 2 files changed, 38 insertions(+), 38 deletions(-)

diff --git a/impl/src/tagged_impl.rs b/impl/src/tagged_impl.rs
index e07ffec..dd290a0 100644
--- a/impl/src/tagged_impl.rs
+++ b/impl/src/tagged_impl.rs
@@ -35,9 +35,9 @@ pub(crate) fn expand(args: ImplArgs, mut input: ItemImpl, mode: Mode) -> TokenSt
             typetag::#private::inventory::submit! {
                 <dyn #object>::typetag_register(
                     #name,
-                    (|deserializer| typetag::#private::Result::Ok(
+                    (|__deserializer| typetag::#private::Result::Ok(
                         typetag::#private::Box::new(
-                            typetag::#private::erased_serde::deserialize::<#this>(deserializer)?
+                            typetag::#private::erased_serde::deserialize::<#this>(__deserializer)?
                         ),
                     )) as typetag::#private::DeserializeFn<<dyn #object as typetag::#private::Strictest>::Object>,
                 )
diff --git a/impl/src/tagged_trait.rs b/impl/src/tagged_trait.rs
index a3162e2..df2c299 100644
--- a/impl/src/tagged_trait.rs
+++ b/impl/src/tagged_trait.rs
@@ -39,9 +39,9 @@ pub(crate) fn expand(args: TraitArgs, mut input: ItemTrait, mode: Mode) -> Token
         expanded.extend(quote! {
             impl #impl_generics typetag::#private::serde::Serialize
             for dyn #object #ty_generics + 'typetag #where_clause {
-                fn serialize<S>(&self, serializer: S) -> typetag::#private::Result<S::Ok, S::Error>
+                fn serialize<__S>(&self, __serializer: __S) -> typetag::#private::Result<__S::Ok, __S::Error>
                 where
-                    S: typetag::#private::serde::Serializer,
+                    __S: typetag::#private::serde::Serializer,
                 {
                     #serialize_impl
                 }
@@ -52,11 +52,11 @@ pub(crate) fn expand(args: TraitArgs, mut input: ItemTrait, mode: Mode) -> Token
             expanded.extend(quote! {
                 impl #impl_generics typetag::#private::serde::Serialize
                 for dyn #object #ty_generics + #marker_traits + 'typetag #where_clause {
-                    fn serialize<S>(&self, serializer: S) -> typetag::#private::Result<S::Ok, S::Error>
+                    fn serialize<__S>(&self, __serializer: __S) -> typetag::#private::Result<__S::Ok, __S::Error>
                     where
-                        S: typetag::#private::serde::Serializer,
+                        __S: typetag::#private::serde::Serializer,
                     {
-                        typetag::#private::serde::Serialize::serialize(self as &dyn #object #ty_generics, serializer)
+                        typetag::#private::serde::Serialize::serialize(self as &dyn #object #ty_generics, __serializer)
                     }
                 }
             });
@@ -87,9 +87,9 @@ pub(crate) fn expand(args: TraitArgs, mut input: ItemTrait, mode: Mode) -> Token
 
             #[allow(unknown_lints, non_local_definitions)] // false positive: https://github.com/rust-lang/rust/issues/121621
             impl<'de> typetag::#private::serde::Deserialize<'de> for typetag::#private::Box<dyn #object + #strictest> {
-                fn deserialize<D>(deserializer: D) -> typetag::#private::Result<Self, D::Error>
+                fn deserialize<__D>(__deserializer: __D) -> typetag::#private::Result<Self, __D::Error>
                 where
-                    D: typetag::#private::serde::Deserializer<'de>,
+                    __D: typetag::#private::serde::Deserializer<'de>,
                 {
                     #deserialize_impl
                 }
@@ -100,13 +100,13 @@ pub(crate) fn expand(args: TraitArgs, mut input: ItemTrait, mode: Mode) -> Token
             expanded.extend(quote! {
                 #[allow(unknown_lints, non_local_definitions)] // false positive: https://github.com/rust-lang/rust/issues/121621
                 impl<'de> typetag::#private::serde::Deserialize<'de> for typetag::#private::Box<dyn #object + #marker_traits> {
-                    fn deserialize<D>(deserializer: D) -> typetag::#private::Result<Self, D::Error>
+                    fn deserialize<__D>(__deserializer: __D) -> typetag::#private::Result<Self, __D::Error>
                     where
-                        D: typetag::#private::serde::Deserializer<'de>,
+                        __D: typetag::#private::serde::Deserializer<'de>,
                     {
                         typetag::#private::Result::Ok(
                             <typetag::#private::Box<dyn #object + #strictest>
-                                as typetag::#private::serde::Deserialize<'de>>::deserialize(deserializer)?
+                                as typetag::#private::serde::Deserialize<'de>>::deserialize(__deserializer)?
                         )
                     }
                 }
@@ -153,17 +153,17 @@ fn build_registry(input: &ItemTrait) -> TokenStream {
         type TypetagStrictest = <dyn #object as typetag::#private::Strictest>::Object;
         type TypetagFn = typetag::#private::DeserializeFn<TypetagStrictest>;
 
-        #vis struct TypetagRegistration<T> {
+        #vis struct TypetagRegistration<__T> {
             name: &'static str,
-            deserializer: T,
+            deserializer: __T,
         }
 
         typetag::#private::inventory::collect!(TypetagRegistration<TypetagFn>);
 
         impl dyn #object {
             #[doc(hidden)]
-            #vis const fn typetag_register<T>(name: &'static str, deserializer: T) -> TypetagRegistration<T> {
-                TypetagRegistration { name, deserializer }
+            #vis const fn typetag_register<__T>(__name: &'static str, __deserializer: __T) -> TypetagRegistration<__T> {
+                TypetagRegistration { name: __name, deserializer: __deserializer }
             }
         }
     }
@@ -172,22 +172,22 @@ fn build_registry(input: &ItemTrait) -> TokenStream {
 fn static_registry() -> TokenStream {
     quote! {
         static TYPETAG: typetag::#private::once_cell::race::OnceBox<typetag::#private::Registry<TypetagStrictest>> = typetag::#private::once_cell::race::OnceBox::new();
-        let registry = TYPETAG.get_or_init(|| {
-            let mut map = typetag::#private::BTreeMap::new();
-            let mut names = typetag::#private::Vec::new();
-            for registered in typetag::#private::inventory::iter::<TypetagRegistration<TypetagFn>> {
-                match map.entry(registered.name) {
-                    typetag::#private::btree_map::Entry::Vacant(entry) => {
-                        entry.insert(typetag::#private::Option::Some(registered.deserializer));
+        let __registry = TYPETAG.get_or_init(|| {
+            let mut __map = typetag::#private::BTreeMap::new();
+            let mut __names = typetag::#private::Vec::new();
+            for __registered in typetag::#private::inventory::iter::<TypetagRegistration<TypetagFn>> {
+                match __map.entry(__registered.name) {
+                    typetag::#private::btree_map::Entry::Vacant(__entry) => {
+                        __entry.insert(typetag::#private::Option::Some(__registered.deserializer));
                     }
-                    typetag::#private::btree_map::Entry::Occupied(mut entry) => {
-                        entry.insert(typetag::#private::Option::None);
+                    typetag::#private::btree_map::Entry::Occupied(mut __entry) => {
+                        __entry.insert(typetag::#private::Option::None);
                     }
                 }
-                names.push(registered.name);
+                __names.push(__registered.name);
             }
-            names.sort_unstable();
-            typetag::#private::Box::new(typetag::#private::Registry { map, names })
+            __names.sort_unstable();
+            typetag::#private::Box::new(typetag::#private::Registry { map: __map, names: __names })
         });
     }
 }
@@ -199,13 +199,13 @@ fn externally_tagged(input: &ItemTrait) -> (TokenStream, TokenStream) {
     let static_registry = static_registry();
 
     let serialize_impl = quote! {
-        let name = <Self as #object #ty_generics>::typetag_name(self);
-        typetag::#private::externally::serialize(serializer, name, self)
+        let __name = <Self as #object #ty_generics>::typetag_name(self);
+        typetag::#private::externally::serialize(__serializer, __name, self)
     };
 
     let deserialize_impl = quote! {
         #static_registry
-        typetag::#private::externally::deserialize(deserializer, #object_name, registry)
+        typetag::#private::externally::deserialize(__deserializer, #object_name, __registry)
     };
 
     (serialize_impl, deserialize_impl)
@@ -226,13 +226,13 @@ fn internally_tagged(
     };
 
     let serialize_impl = quote! {
-        let name = <Self as #object #ty_generics>::typetag_name(self);
-        typetag::#private::internally::serialize(serializer, #tag, name, self)
+        let __name = <Self as #object #ty_generics>::typetag_name(self);
+        typetag::#private::internally::serialize(__serializer, #tag, __name, self)
     };
 
     let deserialize_impl = quote! {
         #static_registry
-        typetag::#private::internally::deserialize(deserializer, #object_name, #tag, #default_variant_literal, registry)
+        typetag::#private::internally::deserialize(__deserializer, #object_name, #tag, #default_variant_literal, __registry)
     };
 
     (serialize_impl, deserialize_impl)
@@ -255,18 +255,18 @@ fn adjacently_tagged(
     };
 
     let serialize_impl = quote! {
-        let name = <Self as #object #ty_generics>::typetag_name(self);
-        typetag::#private::adjacently::serialize(serializer, #object_name, #tag, name, #content, self)
+        let __name = <Self as #object #ty_generics>::typetag_name(self);
+        typetag::#private::adjacently::serialize(__serializer, #object_name, #tag, __name, #content, self)
     };
 
     let deserialize_impl = quote! {
         #static_registry
         typetag::#private::adjacently::deserialize(
-            deserializer,
+            __deserializer,
             #object_name,
             &[#tag, #content],
             #default_variant_literal,
-            registry,
+            __registry,
             #deny_unknown_fields,
         )
     };
-- 
2.43.0


From 012213b0b3660abe37b9c98ad3fff70f51315724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:02 +0000
Subject: [PATCH 15/22] fix: name Send, Sync and str by path, whatever the user
 calls so

---
 impl/src/tagged_impl.rs  |  2 +-
 impl/src/tagged_trait.rs | 19 +++++++++----------
 src/private.rs           |  4 ++++
 3 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/impl/src/tagged_impl.rs b/impl/src/tagged_impl.rs
index dd290a0..bc73864 100644
--- a/impl/src/tagged_impl.rs
+++ b/impl/src/tagged_impl.rs
@@ -52,7 +52,7 @@ fn augment_impl(input: &mut ItemImpl, name: &TokenStream, mode: Mode) {
     if mode.ser {
         input.items.push(parse_quote! {
             #[doc(hidden)]
-            fn typetag_name(&self) -> &'static str {
+            fn typetag_name(&self) -> &'static typetag::#private::str {
                 #name
             }
         });
diff --git a/impl/src/tagged_trait.rs b/impl/src/tagged_trait.rs
index df2c299..a1257fa 100644
--- a/impl/src/tagged_trait.rs
+++ b/impl/src/tagged_trait.rs
@@ -27,6 +27,8 @@ pub(crate) fn expand(args: TraitArgs, mut input: ItemTrait, mode: Mode) -> Token
     };
 
     let object = &input.ident;
+    let send = quote!(typetag::#private::Send);
+    let sync = quote!(typetag::#private::Sync);
 
     let mut expanded = TokenStream::new();
 
@@ -48,7 +50,7 @@ pub(crate) fn expand(args: TraitArgs, mut input: ItemTrait, mode: Mode) -> Token
             }
         });
 
-        for marker_traits in &[quote!(Send), quote!(Sync), quote!(Send + Sync)] {
+        for marker_traits in &[quote!(#send), quote!(#sync), quote!(#send + #sync)] {
             expanded.extend(quote! {
                 impl #impl_generics typetag::#private::serde::Serialize
                 for dyn #object #ty_generics + #marker_traits + 'typetag #where_clause {
@@ -70,12 +72,9 @@ pub(crate) fn expand(args: TraitArgs, mut input: ItemTrait, mode: Mode) -> Token
         let is_sync = has_supertrait(&input, "Sync");
         let (strictest, others) = match (is_send, is_sync) {
             (false, false) => (quote!(), vec![]),
-            (true, false) => (quote!(Send), vec![quote!()]),
-            (false, true) => (quote!(Sync), vec![quote!()]),
-            (true, true) => (
-                quote!(Send + Sync),
-                vec![quote!(), quote!(Send), quote!(Sync)],
-            ),
+            (true, false) => (send, vec![quote!()]),
+            (false, true) => (sync, vec![quote!()]),
+            (true, true) => (quote!(#send + #sync), vec![quote!(), send, sync]),
         };
 
         expanded.extend(quote! {
@@ -130,7 +129,7 @@ fn augment_trait(input: &mut ItemTrait, mode: Mode) {
 
         input.items.push(parse_quote! {
             #[doc(hidden)]
-            fn typetag_name(&self) -> &'static str;
+            fn typetag_name(&self) -> &'static typetag::#private::str;
         });
     }
 
@@ -154,7 +153,7 @@ fn build_registry(input: &ItemTrait) -> TokenStream {
         type TypetagFn = typetag::#private::DeserializeFn<TypetagStrictest>;
 
         #vis struct TypetagRegistration<__T> {
-            name: &'static str,
+            name: &'static typetag::#private::str,
             deserializer: __T,
         }
 
@@ -162,7 +161,7 @@ fn build_registry(input: &ItemTrait) -> TokenStream {
 
         impl dyn #object {
             #[doc(hidden)]
-            #vis const fn typetag_register<__T>(__name: &'static str, __deserializer: __T) -> TypetagRegistration<__T> {
+            #vis const fn typetag_register<__T>(__name: &'static typetag::#private::str, __deserializer: __T) -> TypetagRegistration<__T> {
                 TypetagRegistration { name: __name, deserializer: __deserializer }
             }
         }
diff --git a/src/private.rs b/src/private.rs
index 911ecf6..4a58846 100644
--- a/src/private.rs
+++ b/src/private.rs
@@ -28,8 +28,12 @@ pub mod adjacently {
 #[doc(hidden)]
 pub use alloc::collections::btree_map;
 #[doc(hidden)]
+pub use core::marker::{Send, Sync};
+#[doc(hidden)]
 pub use core::option::Option;
 #[doc(hidden)]
+pub use core::primitive::str;
+#[doc(hidden)]
 pub use core::result::Result;
 
 #[doc(hidden)]
-- 
2.43.0


From 9248e2f983f56c204d48e2e75a5abbc9f9b780b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:33 +0000
Subject: [PATCH 16/22] fix: reject adjacently tagged traits whose tag and
 content have the same name

---
 impl/src/parse.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/impl/src/parse.rs b/impl/src/parse.rs
index bbc729d..3301fd3 100644
--- a/impl/src/parse.rs
+++ b/impl/src/parse.rs
@@ -123,6 +123,10 @@ impl Parse for TraitArgs {
             input.parse::<kw::content>()?;
             input.parse::<Token![=]>()?;
             let content: LitStr = input.parse()?;
+            if content.value() == tag.value() {
+                let msg = "the tag and the content cannot have the same name";
+                return Err(Error::new_spanned(content, msg));
+            }
             if !input.is_empty() {
                 input.parse::<Token![,]>()?;
             }
-- 
2.43.0


From 575d5f98c568b8b89a0b3022c0233ade17c63718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:17 +0000
Subject: [PATCH 17/22] fix: keep buffered map keys borrowed when an internal
 tag is not first

---
 src/content.rs    |  8 ++++++--
 src/internally.rs | 47 ++++++++++++++++++++++++++---------------------
 2 files changed, 32 insertions(+), 23 deletions(-)

diff --git a/src/content.rs b/src/content.rs
index 9200adb..6eedcc5 100644
--- a/src/content.rs
+++ b/src/content.rs
@@ -1,3 +1,4 @@
+use alloc::borrow::Cow;
 use alloc::boxed::Box;
 use alloc::string::String;
 use alloc::vec::Vec;
@@ -96,9 +97,12 @@ pub struct BufferedContent<'de> {
 }
 
 impl<'de> BufferedContent<'de> {
-    pub fn string(value: String, human_readable: bool) -> Self {
+    pub fn string(value: Cow<'de, str>, human_readable: bool) -> Self {
         BufferedContent {
-            content: Content::String(value),
+            content: match value {
+                Cow::Borrowed(value) => Content::Str(value),
+                Cow::Owned(value) => Content::String(value),
+            },
             human_readable,
         }
     }
diff --git a/src/internally.rs b/src/internally.rs
index f1ca3ba..397f651 100644
--- a/src/internally.rs
+++ b/src/internally.rs
@@ -2,9 +2,8 @@ use crate::content::BufferedContent;
 use crate::de::{FnApply, MapLookupVisitor};
 use crate::private::Registry;
 use crate::ser::{InternallyTaggedSerializer, Wrap};
-use alloc::borrow::ToOwned;
+use alloc::borrow::{Cow, ToOwned};
 use alloc::boxed::Box;
-use alloc::string::String;
 use alloc::vec::Vec;
 use core::fmt;
 use serde::de::value::MapDeserializer;
@@ -88,8 +87,8 @@ impl<'de, T: ?Sized> Visitor<'de> for TaggedVisitor<T> {
         let mut entries = Vec::new();
 
         while let Some(key) = map.next_key_seed(key_visitor)? {
-            match key {
-                Key::Tag => {
+            let key = match key {
+                Key::Tag if deserialize_fn.is_none() => {
                     let value = map.next_value_seed(map_lookup)?;
                     if entries.is_empty() {
                         let fn_apply = FnApply {
@@ -102,19 +101,14 @@ impl<'de, T: ?Sized> Visitor<'de> for TaggedVisitor<T> {
                         return fn_apply.deserialize(rest);
                     }
                     deserialize_fn = Some(value);
-                    while let Some(key) = map.next_key::<String>()? {
-                        let key = BufferedContent::string(key, self.human_readable);
-                        let value = map.next_value::<BufferedContent>()?;
-                        entries.push((key, value));
-                    }
-                    break;
-                }
-                Key::Other(key) => {
-                    let key = BufferedContent::string(key, self.human_readable);
-                    let value = map.next_value::<BufferedContent>()?;
-                    entries.push((key, value));
+                    continue;
                 }
-            }
+                Key::Tag => Cow::Borrowed(self.tag),
+                Key::Other(key) => key,
+            };
+            let key = BufferedContent::string(key, self.human_readable);
+            let value = map.next_value::<BufferedContent>()?;
+            entries.push((key, value));
         }
 
         let deserialize_fn = match deserialize_fn {
@@ -136,9 +130,9 @@ impl<'de, T: ?Sized> Visitor<'de> for TaggedVisitor<T> {
     }
 }
 
-enum Key {
+enum Key<'de> {
     Tag,
-    Other(String),
+    Other(Cow<'de, str>),
 }
 
 #[derive(Copy, Clone)]
@@ -148,7 +142,7 @@ struct KeyVisitor {
 }
 
 impl<'de> Visitor<'de> for KeyVisitor {
-    type Value = Key;
+    type Value = Key<'de>;
 
     fn expecting(&self, formatter: &mut fmt::Formatter) -> fmt::Result {
         write!(formatter, "a key in dyn {}", self.trait_object)
@@ -161,13 +155,24 @@ impl<'de> Visitor<'de> for KeyVisitor {
         if value == self.tag {
             Ok(Key::Tag)
         } else {
-            Ok(Key::Other(value.to_owned()))
+            Ok(Key::Other(Cow::Owned(value.to_owned())))
+        }
+    }
+
+    fn visit_borrowed_str<E>(self, value: &'de str) -> Result<Self::Value, E>
+    where
+        E: de::Error,
+    {
+        if value == self.tag {
+            Ok(Key::Tag)
+        } else {
+            Ok(Key::Other(Cow::Borrowed(value)))
         }
     }
 }
 
 impl<'de> DeserializeSeed<'de> for KeyVisitor {
-    type Value = Key;
+    type Value = Key<'de>;
 
     fn deserialize<D>(self, deserializer: D) -> Result<Self::Value, D::Error>
     where
-- 
2.43.0


From 9ed3b432e877b1c42345ae9460d2057ca05839e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:58 +0000
Subject: [PATCH 18/22] fix: keep the message of a field that fails while it is
 compared with the tag

---
 src/is_serialize_str.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/is_serialize_str.rs b/src/is_serialize_str.rs
index 1116a41..1871539 100644
--- a/src/is_serialize_str.rs
+++ b/src/is_serialize_str.rs
@@ -4,6 +4,7 @@
 //! whether a single method, `serialize_str`, is called with a given string.
 
 use alloc::boxed::Box;
+use alloc::string::{String, ToString};
 use core::fmt::{self, Debug, Display};
 use serde::ser::{self, Error, Impossible, Serialize, StdError};
 
@@ -15,6 +16,7 @@ where
         Err(SerializerState::Ok) => Ok(()),
         Err(SerializerState::UnexpectedStr(string)) => Err(Unexpected::Str(string)),
         Err(SerializerState::UnexpectedKind) => Err(Unexpected::NonStr),
+        Err(SerializerState::Failed(message)) => Err(Unexpected::Failed(message)),
         #[allow(unreachable_patterns)]
         Ok(void) => match void {},
     }
@@ -23,6 +25,7 @@ where
 pub enum Unexpected {
     Str(Box<str>),
     NonStr,
+    Failed(String),
 }
 
 impl Debug for Unexpected {
@@ -30,6 +33,7 @@ impl Debug for Unexpected {
         match self {
             Unexpected::Str(s) => Debug::fmt(s, formatter),
             Unexpected::NonStr => formatter.write_str("non-string"),
+            Unexpected::Failed(message) => write!(formatter, "error: {}", message),
         }
     }
 }
@@ -41,11 +45,12 @@ enum SerializerState {
     Ok,
     UnexpectedStr(Box<str>),
     UnexpectedKind,
+    Failed(String),
 }
 
 impl Error for SerializerState {
-    fn custom<M: Display>(_message: M) -> Self {
-        SerializerState::UnexpectedKind
+    fn custom<M: Display>(message: M) -> Self {
+        SerializerState::Failed(message.to_string())
     }
 }
 
@@ -93,6 +98,10 @@ impl ser::Serializer for Serializer {
         Err(SerializerState::UnexpectedKind)
     }
 
+    fn serialize_i128(self, _: i128) -> Result<Self::Ok, Self::Error> {
+        Err(SerializerState::UnexpectedKind)
+    }
+
     fn serialize_u8(self, _: u8) -> Result<Self::Ok, Self::Error> {
         Err(SerializerState::UnexpectedKind)
     }
@@ -109,6 +118,10 @@ impl ser::Serializer for Serializer {
         Err(SerializerState::UnexpectedKind)
     }
 
+    fn serialize_u128(self, _: u128) -> Result<Self::Ok, Self::Error> {
+        Err(SerializerState::UnexpectedKind)
+    }
+
     fn serialize_f32(self, _: f32) -> Result<Self::Ok, Self::Error> {
         Err(SerializerState::UnexpectedKind)
     }
-- 
2.43.0


From b2be1c68fe266a2fd9b4c07cb5772d66910b58e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:42 +0000
Subject: [PATCH 19/22] fix: refuse entries left unread in a buffered struct
 variant

---
 src/content.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/content.rs b/src/content.rs
index 6eedcc5..e892db2 100644
--- a/src/content.rs
+++ b/src/content.rs
@@ -1087,11 +1087,18 @@ where
     type Error = E;
 
     #[inline]
-    fn deserialize_any<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    fn deserialize_any<V>(mut self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: Visitor<'de>,
     {
-        visitor.visit_map(self)
+        let len = self.iter.len();
+        let ret = visitor.visit_map(&mut self)?;
+        let remaining = self.iter.len();
+        if remaining == 0 {
+            Ok(ret)
+        } else {
+            Err(de::Error::invalid_length(len, &"fewer elements in map"))
+        }
     }
 
     forward_to_deserialize_any! {
-- 
2.43.0


From f6d70b9bffee3acaf8b6ee8f5d4cd8f975e31608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:02 +0000
Subject: [PATCH 20/22] fix: accept 64-bit field indices in buffered content

A format that identifies fields by number offers them as u64 as well as u8.
Reading such data failed if, and only if, it had to be buffered because the
tag came after it.
---
 src/content.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/content.rs b/src/content.rs
index e892db2..4f5ae9a 100644
--- a/src/content.rs
+++ b/src/content.rs
@@ -797,6 +797,7 @@ where
             Content::ByteBuf(v) => visitor.visit_byte_buf(v),
             Content::Bytes(v) => visitor.visit_borrowed_bytes(v),
             Content::U8(v) => visitor.visit_u8(v),
+            Content::U64(v) => visitor.visit_u64(v),
             _ => Err(self.invalid_type(&visitor)),
         }
     }
-- 
2.43.0


From 2a4a7e5e5562c5d1bc456d024dcbdc00eb02a558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:21 +0000
Subject: [PATCH 21/22] fix: let an internally tagged type ignore data of any
 form

---
 src/internally.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/internally.rs b/src/internally.rs
index 397f651..1124c56 100644
--- a/src/internally.rs
+++ b/src/internally.rs
@@ -485,7 +485,7 @@ where
     where
         V: Visitor<'de>,
     {
-        if self.map.next_key_seed(DefaultKey)?.is_some() {
+        while self.map.next_key::<IgnoredAny>()?.is_some() {
             self.map.next_value::<IgnoredAny>()?;
         }
         visitor.visit_unit()
-- 
2.43.0


From c4987031a978d89b905dccef6c69259f53956704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:21 +0000
Subject: [PATCH 22/22] fix: tell a type without content what kind of format it
 is in

---
 src/adjacently.rs | 48 ++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 47 insertions(+), 1 deletion(-)

diff --git a/src/adjacently.rs b/src/adjacently.rs
index 1a557e8..e927834 100644
--- a/src/adjacently.rs
+++ b/src/adjacently.rs
@@ -4,10 +4,12 @@ use crate::private::Registry;
 use crate::ser::Wrap;
 use alloc::boxed::Box;
 use core::fmt;
+use core::marker::PhantomData;
 use serde::de::{
     self, DeserializeSeed, Deserializer, IgnoredAny, IntoDeserializer, MapAccess, SeqAccess,
     Visitor,
 };
+use serde::forward_to_deserialize_any;
 use serde::ser::{SerializeStruct, Serializer};
 
 pub fn serialize<S, T>(
@@ -40,7 +42,9 @@ where
     D: Deserializer<'de>,
     T: ?Sized,
 {
+    let human_readable = deserializer.is_human_readable();
     let visitor = TaggedVisitor {
+        human_readable,
         trait_object,
         field_names,
         default_variant,
@@ -51,6 +55,7 @@ where
 }
 
 struct TaggedVisitor<T: ?Sized + 'static> {
+    human_readable: bool,
     trait_object: &'static str,
     field_names: &'static [&'static str; 2], // [tag, content]
     default_variant: Option<&'static str>,
@@ -114,7 +119,10 @@ impl<'de, T: ?Sized> Visitor<'de> for TaggedVisitor<T> {
                     // There is no second key; might be okay if the we have a unit variant.
                     None => {
                         let fn_apply = FnApply { deserialize_fn };
-                        let unit = ().into_deserializer();
+                        let unit = MissingContent {
+                            human_readable: self.human_readable,
+                            error: PhantomData,
+                        };
                         return fn_apply.deserialize(unit);
                     }
                 }
@@ -192,6 +200,44 @@ impl<'de, T: ?Sized> Visitor<'de> for TaggedVisitor<T> {
     }
 }
 
+// Deserializes like serde's UnitDeserializer, in the same kind of format as the
+// tag which has no content.
+struct MissingContent<E> {
+    human_readable: bool,
+    error: PhantomData<E>,
+}
+
+impl<'de, E> Deserializer<'de> for MissingContent<E>
+where
+    E: de::Error,
+{
+    type Error = E;
+
+    fn deserialize_any<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'de>,
+    {
+        visitor.visit_unit()
+    }
+
+    fn deserialize_option<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'de>,
+    {
+        visitor.visit_none()
+    }
+
+    forward_to_deserialize_any! {
+        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
+        bytes byte_buf unit unit_struct newtype_struct seq tuple tuple_struct
+        map struct enum identifier ignored_any
+    }
+
+    fn is_human_readable(&self) -> bool {
+        self.human_readable
+    }
+}
+
 enum TagOrContentField {
     Tag,
     Content,
-- 
2.43.0

