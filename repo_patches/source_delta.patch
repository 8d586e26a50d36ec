From ff1024d48163aab363f4bf4912cd4d2320341d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:33 +0000
Subject: [PATCH 1/8] fix: ignore unknown bits when deserializing the array
 format

The documentation says that unknown bits are ignored by default. The array
format panicked on them instead.
---
 enumset_derive/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/enumset_derive/src/lib.rs b/enumset_derive/src/lib.rs
index 51c0e5a..90caa20 100644
--- a/enumset_derive/src/lib.rs
+++ b/enumset_derive/src/lib.rs
@@ -581,7 +581,9 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                 )
             } else {
                 (quote! {}, quote! {
-                    #core::prelude::v1::Ok(#enumset::EnumSet::<#name>::from_array(accum))
+                    #core::prelude::v1::Ok(
+                        #enumset::EnumSet::<#name>::from_array_truncated(accum)
+                    )
                 })
             };
             quote! {
-- 
2.43.0


From 70e2205ab6fd6824f22961b07c7b5ef29b2ded62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:47 +0000
Subject: [PATCH 2/8] fix: make serialize_deny_unknown compile with the array
 format

The generated deserializer named an error type that is not in scope and
returned a set where a result was needed.
---
 enumset_derive/src/lib.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/enumset_derive/src/lib.rs b/enumset_derive/src/lib.rs
index 90caa20..3d7e0a7 100644
--- a/enumset_derive/src/lib.rs
+++ b/enumset_derive/src/lib.rs
@@ -566,15 +566,19 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                     quote! {
                         if _val != 0 {
                             return #core::prelude::v1::Err(
-                                D::Error::custom("enumset contains unknown bits")
+                                <A::Error as #serde::de::Error>::custom(
+                                    "enumset contains unknown bits"
+                                )
                             )
                         }
                     },
                     quote! {
                         match #enumset::EnumSet::<#name>::try_from_array(accum) {
-                            Some(x) => x,
-                            None => #core::prelude::v1::Err(
-                                D::Error::custom("enumset contains unknown bits")
+                            #core::prelude::v1::Some(x) => #core::prelude::v1::Ok(x),
+                            #core::prelude::v1::None => #core::prelude::v1::Err(
+                                <A::Error as #serde::de::Error>::custom(
+                                    "enumset contains unknown bits"
+                                )
                             ),
                         }
                     },
-- 
2.43.0


From ef9d4218dc6b36ec37592cccc5ae90bb4a2dfe9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:12 +0000
Subject: [PATCH 3/8] fix: make serialize_deny_unknown compile for array-backed
 sets

With an integer format, the check for unknown bits applied integer operators
to the mask of the in-memory representation. This failed to compile whenever
that was an array, e.g. by default for 65 to 128 variants.
---
 enumset_derive/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/enumset_derive/src/lib.rs b/enumset_derive/src/lib.rs
index 3d7e0a7..6e5fe2c 100644
--- a/enumset_derive/src/lib.rs
+++ b/enumset_derive/src/lib.rs
@@ -440,9 +440,10 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                 SerdeRepr::U128 => (quote! { u128 }, quote! { from_u128 }, quote! { to_u128 }),
                 _ => unreachable!(),
             };
+            let try_from_fn = format_ident!("try_{}", from_fn.to_string());
             let check_unknown = if info.serialize_deny_unknown {
                 quote! {
-                    if value & !#all_variants != 0 {
+                    if #enumset::EnumSet::<#name>::#try_from_fn(value).is_none() {
                         use #serde::de::Error;
                         return #core::prelude::v1::Err(
                             D::Error::custom("enumset contains unknown bits")
-- 
2.43.0


From 18a95f14f6d9504f837584efe4097fda0e8685d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:25 +0000
Subject: [PATCH 4/8] fix: report a bit width of 0 for enums without variants

It is documented to be the same as the variant count except in sparse enums.
---
 enumset_derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enumset_derive/src/lib.rs b/enumset_derive/src/lib.rs
index 6e5fe2c..f986cc6 100644
--- a/enumset_derive/src/lib.rs
+++ b/enumset_derive/src/lib.rs
@@ -924,7 +924,7 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
         });
     }
 
-    let bit_width = info.max_discrim + 1;
+    let bit_width = if is_uninhabited { 0 } else { info.max_discrim + 1 };
     let variant_count = info.variants.len() as u32;
     let vis = &info.vis;
     quote! {
-- 
2.43.0


From 084a325b32796997ae67f24e86b6d6e10f547af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:32 +0000
Subject: [PATCH 5/8] fix: let an empty enum_set!() compile without EnumSet in
 scope

---
 enumset/src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enumset/src/macros.rs b/enumset/src/macros.rs
index a2bfabb..32e5489 100644
--- a/enumset/src/macros.rs
+++ b/enumset/src/macros.rs
@@ -42,7 +42,7 @@ pub mod __internal {
 #[macro_export]
 macro_rules! enum_set {
     ($(|)*) => {
-        EnumSet::empty()
+        $crate::EnumSet::empty()
     };
     ($value:path $(|)*) => {
         {
-- 
2.43.0


From 1508a23be1075c5f5b8e961c7882d9ea620e8b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:21 +0000
Subject: [PATCH 6/8] fix: use full paths for prelude items in derived code

The derive failed to compile next to user items called e.g. `Into` or a
user macro called e.g. `panic`.
---
 enumset_derive/src/lib.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/enumset_derive/src/lib.rs b/enumset_derive/src/lib.rs
index f986cc6..76665b4 100644
--- a/enumset_derive/src/lib.rs
+++ b/enumset_derive/src/lib.rs
@@ -383,28 +383,28 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
     } else {
         quote! {
             #[automatically_derived]
-            impl<O: Into<#typed_enumset>> #core::ops::Sub<O> for #name {
+            impl<O: #core::convert::Into<#typed_enumset>> #core::ops::Sub<O> for #name {
                 type Output = #typed_enumset;
                 fn sub(self, other: O) -> Self::Output {
                     #enumset::EnumSet::only(self) - other.into()
                 }
             }
             #[automatically_derived]
-            impl<O: Into<#typed_enumset>> #core::ops::BitAnd<O> for #name {
+            impl<O: #core::convert::Into<#typed_enumset>> #core::ops::BitAnd<O> for #name {
                 type Output = #typed_enumset;
                 fn bitand(self, other: O) -> Self::Output {
                     #enumset::EnumSet::only(self) & other.into()
                 }
             }
             #[automatically_derived]
-            impl<O: Into<#typed_enumset>> #core::ops::BitOr<O> for #name {
+            impl<O: #core::convert::Into<#typed_enumset>> #core::ops::BitOr<O> for #name {
                 type Output = #typed_enumset;
                 fn bitor(self, other: O) -> Self::Output {
                     #enumset::EnumSet::only(self) | other.into()
                 }
             }
             #[automatically_derived]
-            impl<O: Into<#typed_enumset>> #core::ops::BitXor<O> for #name {
+            impl<O: #core::convert::Into<#typed_enumset>> #core::ops::BitXor<O> for #name {
                 type Output = #typed_enumset;
                 fn bitxor(self, other: O) -> Self::Output {
                     #enumset::EnumSet::only(self) ^ other.into()
@@ -495,7 +495,7 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                         fn expecting(
                             &self, formatter: &mut #core::fmt::Formatter,
                         ) -> #core::fmt::Result {
-                            write!(formatter, #expecting_str)
+                            #core::write!(formatter, #expecting_str)
                         }
                         fn visit_seq<A>(
                             mut self, mut seq: A,
@@ -535,7 +535,7 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                         fn expecting(
                             &self, formatter: &mut #core::fmt::Formatter,
                         ) -> #core::fmt::Result {
-                            write!(formatter, #expecting_str)
+                            #core::write!(formatter, #expecting_str)
                         }
                         fn visit_map<A>(
                             mut self, mut map: A,
@@ -619,7 +619,7 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                         fn expecting(
                             &self, formatter: &mut #core::fmt::Formatter,
                         ) -> #core::fmt::Result {
-                            write!(formatter, "a list of u64")
+                            #core::write!(formatter, "a list of u64")
                         }
                         fn visit_seq<A>(
                             mut self, mut seq: A,
@@ -658,10 +658,10 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
     let into_impl = if is_uninhabited {
         quote! {
             fn enum_into_u32(self) -> u32 {
-                panic!(concat!(stringify!(#name), " is uninhabited."))
+                #core::panic!(#core::concat!(#core::stringify!(#name), " is uninhabited."))
             }
             unsafe fn enum_from_u32(val: u32) -> Self {
-                panic!(concat!(stringify!(#name), " is uninhabited."))
+                #core::panic!(#core::concat!(#core::stringify!(#name), " is uninhabited."))
             }
         }
     } else if is_zst {
@@ -716,7 +716,7 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
     };
 
     let eq_impl = if is_uninhabited {
-        quote!(panic!(concat!(stringify!(#name), " is uninhabited.")))
+        quote!(#core::panic!(#core::concat!(#core::stringify!(#name), " is uninhabited.")))
     } else {
         quote!((*self as u32) == (*other as u32))
     };
-- 
2.43.0


From 2f71075e34d75312392a68514d278a1defe2538f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:47 +0000
Subject: [PATCH 7/8] fix: do not clash with enums named like the derive's
 generics

An enum called `O`, `S`, `D`, `A` or `Visitor` was shadowed by the type
parameters and the visitor of the code derived for it, which then failed to
compile.
---
 enumset_derive/src/lib.rs | 112 +++++++++++++++++++-------------------
 1 file changed, 56 insertions(+), 56 deletions(-)

diff --git a/enumset_derive/src/lib.rs b/enumset_derive/src/lib.rs
index 76665b4..1ed1b85 100644
--- a/enumset_derive/src/lib.rs
+++ b/enumset_derive/src/lib.rs
@@ -383,30 +383,30 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
     } else {
         quote! {
             #[automatically_derived]
-            impl<O: #core::convert::Into<#typed_enumset>> #core::ops::Sub<O> for #name {
+            impl<__O: #core::convert::Into<#typed_enumset>> #core::ops::Sub<__O> for #name {
                 type Output = #typed_enumset;
-                fn sub(self, other: O) -> Self::Output {
+                fn sub(self, other: __O) -> Self::Output {
                     #enumset::EnumSet::only(self) - other.into()
                 }
             }
             #[automatically_derived]
-            impl<O: #core::convert::Into<#typed_enumset>> #core::ops::BitAnd<O> for #name {
+            impl<__O: #core::convert::Into<#typed_enumset>> #core::ops::BitAnd<__O> for #name {
                 type Output = #typed_enumset;
-                fn bitand(self, other: O) -> Self::Output {
+                fn bitand(self, other: __O) -> Self::Output {
                     #enumset::EnumSet::only(self) & other.into()
                 }
             }
             #[automatically_derived]
-            impl<O: #core::convert::Into<#typed_enumset>> #core::ops::BitOr<O> for #name {
+            impl<__O: #core::convert::Into<#typed_enumset>> #core::ops::BitOr<__O> for #name {
                 type Output = #typed_enumset;
-                fn bitor(self, other: O) -> Self::Output {
+                fn bitor(self, other: __O) -> Self::Output {
                     #enumset::EnumSet::only(self) | other.into()
                 }
             }
             #[automatically_derived]
-            impl<O: #core::convert::Into<#typed_enumset>> #core::ops::BitXor<O> for #name {
+            impl<__O: #core::convert::Into<#typed_enumset>> #core::ops::BitXor<__O> for #name {
                 type Output = #typed_enumset;
-                fn bitxor(self, other: O) -> Self::Output {
+                fn bitxor(self, other: __O) -> Self::Output {
                     #enumset::EnumSet::only(self) ^ other.into()
                 }
             }
@@ -446,7 +446,7 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                     if #enumset::EnumSet::<#name>::#try_from_fn(value).is_none() {
                         use #serde::de::Error;
                         return #core::prelude::v1::Err(
-                            D::Error::custom("enumset contains unknown bits")
+                            __D::Error::custom("enumset contains unknown bits")
                         )
                     }
                 }
@@ -454,16 +454,16 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                 quote! {}
             };
             quote! {
-                fn serialize<S: #serde::Serializer>(
-                    set: #enumset::EnumSet<#name>, ser: S,
-                ) -> #core::result::Result<S::Ok, S::Error> {
+                fn serialize<__S: #serde::Serializer>(
+                    set: #enumset::EnumSet<#name>, ser: __S,
+                ) -> #core::result::Result<__S::Ok, __S::Error> {
                     let value =
                         <#repr as #enumset::__internal::EnumSetTypeRepr>::#to_fn(&set.__priv_repr);
                     #serde::Serialize::serialize(&value, ser)
                 }
-                fn deserialize<'de, D: #serde::Deserializer<'de>>(
-                    de: D,
-                ) -> #core::result::Result<#enumset::EnumSet<#name>, D::Error> {
+                fn deserialize<'de, __D: #serde::Deserializer<'de>>(
+                    de: __D,
+                ) -> #core::result::Result<#enumset::EnumSet<#name>, __D::Error> {
                     let value = <#serialize_repr as #serde::Deserialize>::deserialize(de)?;
                     #check_unknown
                     let value = <#repr as #enumset::__internal::EnumSetTypeRepr>::#from_fn(value);
@@ -476,9 +476,9 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
         SerdeRepr::List => {
             let expecting_str = format!("a list of {}", name);
             quote! {
-                fn serialize<S: #serde::Serializer>(
-                    set: #enumset::EnumSet<#name>, ser: S,
-                ) -> #core::result::Result<S::Ok, S::Error> {
+                fn serialize<__S: #serde::Serializer>(
+                    set: #enumset::EnumSet<#name>, ser: __S,
+                ) -> #core::result::Result<__S::Ok, __S::Error> {
                     use #serde::ser::SerializeSeq;
                     let mut seq = ser.serialize_seq(#core::prelude::v1::Some(set.len()))?;
                     for bit in set {
@@ -486,21 +486,21 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                     }
                     seq.end()
                 }
-                fn deserialize<'de, D: #serde::Deserializer<'de>>(
-                    de: D,
-                ) -> #core::result::Result<#enumset::EnumSet<#name>, D::Error> {
-                    struct Visitor;
-                    impl <'de> #serde::de::Visitor<'de> for Visitor {
+                fn deserialize<'de, __D: #serde::Deserializer<'de>>(
+                    de: __D,
+                ) -> #core::result::Result<#enumset::EnumSet<#name>, __D::Error> {
+                    struct __Visitor;
+                    impl <'de> #serde::de::Visitor<'de> for __Visitor {
                         type Value = #enumset::EnumSet<#name>;
                         fn expecting(
                             &self, formatter: &mut #core::fmt::Formatter,
                         ) -> #core::fmt::Result {
                             #core::write!(formatter, #expecting_str)
                         }
-                        fn visit_seq<A>(
-                            mut self, mut seq: A,
-                        ) -> #core::result::Result<Self::Value, A::Error> where
-                            A: #serde::de::SeqAccess<'de>
+                        fn visit_seq<__A>(
+                            mut self, mut seq: __A,
+                        ) -> #core::result::Result<Self::Value, __A::Error> where
+                            __A: #serde::de::SeqAccess<'de>
                         {
                             let mut accum = #enumset::EnumSet::<#name>::new();
                             while let #core::prelude::v1::Some(val) = seq.next_element::<#name>()? {
@@ -509,16 +509,16 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                             #core::prelude::v1::Ok(accum)
                         }
                     }
-                    de.deserialize_seq(Visitor)
+                    de.deserialize_seq(__Visitor)
                 }
             }
         }
         SerdeRepr::Map => {
             let expecting_str = format!("a map from {} to bool", name);
             quote! {
-                fn serialize<S: #serde::Serializer>(
-                    set: #enumset::EnumSet<#name>, ser: S,
-                ) -> #core::result::Result<S::Ok, S::Error> {
+                fn serialize<__S: #serde::Serializer>(
+                    set: #enumset::EnumSet<#name>, ser: __S,
+                ) -> #core::result::Result<__S::Ok, __S::Error> {
                     use #serde::ser::SerializeMap;
                     let mut map = ser.serialize_map(#core::prelude::v1::Some(set.len()))?;
                     for bit in set {
@@ -526,21 +526,21 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                     }
                     map.end()
                 }
-                fn deserialize<'de, D: #serde::Deserializer<'de>>(
-                    de: D,
-                ) -> #core::result::Result<#enumset::EnumSet<#name>, D::Error> {
-                    struct Visitor;
-                    impl <'de> #serde::de::Visitor<'de> for Visitor {
+                fn deserialize<'de, __D: #serde::Deserializer<'de>>(
+                    de: __D,
+                ) -> #core::result::Result<#enumset::EnumSet<#name>, __D::Error> {
+                    struct __Visitor;
+                    impl <'de> #serde::de::Visitor<'de> for __Visitor {
                         type Value = #enumset::EnumSet<#name>;
                         fn expecting(
                             &self, formatter: &mut #core::fmt::Formatter,
                         ) -> #core::fmt::Result {
                             #core::write!(formatter, #expecting_str)
                         }
-                        fn visit_map<A>(
-                            mut self, mut map: A,
-                        ) -> #core::result::Result<Self::Value, A::Error> where
-                            A: #serde::de::MapAccess<'de>
+                        fn visit_map<__A>(
+                            mut self, mut map: __A,
+                        ) -> #core::result::Result<Self::Value, __A::Error> where
+                            __A: #serde::de::MapAccess<'de>
                         {
                             let mut accum = #enumset::EnumSet::<#name>::new();
                             while let #core::prelude::v1::Some((val, is_present)) =
@@ -553,7 +553,7 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                             #core::prelude::v1::Ok(accum)
                         }
                     }
-                    de.deserialize_map(Visitor)
+                    de.deserialize_map(__Visitor)
                 }
             }
         }
@@ -567,7 +567,7 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                     quote! {
                         if _val != 0 {
                             return #core::prelude::v1::Err(
-                                <A::Error as #serde::de::Error>::custom(
+                                <__A::Error as #serde::de::Error>::custom(
                                     "enumset contains unknown bits"
                                 )
                             )
@@ -577,7 +577,7 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                         match #enumset::EnumSet::<#name>::try_from_array(accum) {
                             #core::prelude::v1::Some(x) => #core::prelude::v1::Ok(x),
                             #core::prelude::v1::None => #core::prelude::v1::Err(
-                                <A::Error as #serde::de::Error>::custom(
+                                <__A::Error as #serde::de::Error>::custom(
                                     "enumset contains unknown bits"
                                 )
                             ),
@@ -592,9 +592,9 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                 })
             };
             quote! {
-                fn serialize<S: #serde::Serializer>(
-                    set: #enumset::EnumSet<#name>, ser: S,
-                ) -> #core::result::Result<S::Ok, S::Error> {
+                fn serialize<__S: #serde::Serializer>(
+                    set: #enumset::EnumSet<#name>, ser: __S,
+                ) -> #core::result::Result<__S::Ok, __S::Error> {
                     // read the enum as an array
                     let array = set.as_array::<{ #preferred_size }>();
 
@@ -610,21 +610,21 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                     // serialize the array
                     #serde::Serialize::serialize(&array[..end], ser)
                 }
-                fn deserialize<'de, D: #serde::Deserializer<'de>>(
-                    de: D,
-                ) -> #core::result::Result<#enumset::EnumSet<#name>, D::Error> {
-                    struct Visitor;
-                    impl <'de> #serde::de::Visitor<'de> for Visitor {
+                fn deserialize<'de, __D: #serde::Deserializer<'de>>(
+                    de: __D,
+                ) -> #core::result::Result<#enumset::EnumSet<#name>, __D::Error> {
+                    struct __Visitor;
+                    impl <'de> #serde::de::Visitor<'de> for __Visitor {
                         type Value = #enumset::EnumSet<#name>;
                         fn expecting(
                             &self, formatter: &mut #core::fmt::Formatter,
                         ) -> #core::fmt::Result {
                             #core::write!(formatter, "a list of u64")
                         }
-                        fn visit_seq<A>(
-                            mut self, mut seq: A,
-                        ) -> #core::result::Result<Self::Value, A::Error> where
-                            A: #serde::de::SeqAccess<'de>
+                        fn visit_seq<__A>(
+                            mut self, mut seq: __A,
+                        ) -> #core::result::Result<Self::Value, __A::Error> where
+                            __A: #serde::de::SeqAccess<'de>
                         {
                             let mut accum = [0; #preferred_size];
 
@@ -644,7 +644,7 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                             #convert_array
                         }
                     }
-                    de.deserialize_seq(Visitor)
+                    de.deserialize_seq(__Visitor)
                 }
             }
         }
-- 
2.43.0


From cf717299a1b08ebb9819adbc5997e2ef305f87ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:42 +0000
Subject: [PATCH 8/8] fix: accept discriminant literals passed through
 macro_rules

---
 enumset_derive/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/enumset_derive/src/lib.rs b/enumset_derive/src/lib.rs
index 1ed1b85..9e5129c 100644
--- a/enumset_derive/src/lib.rs
+++ b/enumset_derive/src/lib.rs
@@ -206,6 +206,12 @@ impl EnumSetInfo {
         } else if let Fields::Unit = variant.fields {
             // Parse the discriminant.
             if let Some((_, expr)) = &variant.discriminant {
+                // Literals passed through `macro_rules!` are wrapped in an invisible group.
+                let mut expr = expr;
+                while let Expr::Group(group) = expr {
+                    expr = &group.expr;
+                }
+
                 if let Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) = expr {
                     match i.base10_parse() {
                         Ok(val) => self.cur_discrim = val,
-- 
2.43.0

