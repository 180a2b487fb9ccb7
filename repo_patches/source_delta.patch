From 3a0fe20062ca6dabf8bade1c42bc97f238b29973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:48 +0000
Subject: [PATCH 01/35] fix: report the end of the document instead of looping
 forever

---
 yaserde/src/de/mod.rs                  | 6 +++++-
 yaserde_derive/src/de/expand_struct.rs | 4 ++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/yaserde/src/de/mod.rs b/yaserde/src/de/mod.rs
index b08b138..b5b91fd 100644
--- a/yaserde/src/de/mod.rs
+++ b/yaserde/src/de/mod.rs
@@ -93,7 +93,11 @@ impl<R: Read> Deserializer<R> {
     let depth = self.depth;
 
     while self.depth >= depth {
-      cb(&self.next_event()?);
+      let event = self.next_event()?;
+      if event == XmlEvent::EndDocument {
+        return Err("End of document, no element to skip".to_string());
+      }
+      cb(&event);
     }
 
     Ok(())
diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index fca7486..972bd4f 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -460,6 +460,10 @@ pub fn parse(
               if #flatten {
                 break;
               }
+
+              return ::std::result::Result::Err(
+                ::std::format!("End of document, missing some content ?"),
+              );
             }
             ::yaserde::__xml::reader::XmlEvent::Characters(ref text_content) => {
               #set_text
-- 
2.43.0


From 07baf7a55e3e2d52f0e446d8390eb435f87550a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:53 +0000
Subject: [PATCH 02/35] fix: never take a struct's own start element for one of
 its fields

---
 yaserde_derive/src/de/expand_struct.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index 972bd4f..f1cdd05 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -421,7 +421,7 @@ pub fn parse(
           match event {
             ::yaserde::__xml::reader::XmlEvent::StartElement{ref name, ref attributes, ..} => {
               let namespace = name.namespace.clone().unwrap_or_default();
-              if depth == 0 && name.local_name == #root && namespace.as_str() == #root_namespace {
+              if depth == 0 && (!#flatten || (name.local_name == #root && namespace.as_str() == #root_namespace)) {
                 // Consume root element. We must do this first. In the case it shares a name with a child element, we don't
                 // want to prematurely match the child element below.
                 let event = reader.next_event()?;
-- 
2.43.0


From 70a0b6e9a3340a5307e3dd4f7e2ac2897867c739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:55 +0000
Subject: [PATCH 03/35] fix: do not read the content of an unreadable simple
 element as fields of its parent

---
 yaserde/src/de/mod.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/yaserde/src/de/mod.rs b/yaserde/src/de/mod.rs
index b5b91fd..99cb3db 100644
--- a/yaserde/src/de/mod.rs
+++ b/yaserde/src/de/mod.rs
@@ -112,9 +112,18 @@ impl<R: Read> Deserializer<R> {
     f: F,
   ) -> Result<T, String> {
     if let Ok(XmlEvent::StartElement { name, .. }) = self.next_event() {
-      let result = f(self)?;
-      self.expect_end_element(&name)?;
-      Ok(result)
+      let depth = self.depth;
+      let result = f(self).and_then(|value| {
+        self.expect_end_element(&name)?;
+        Ok(value)
+      });
+      if result.is_err() {
+        // The content could not be read: leave the reader behind the element nevertheless
+        while self.depth >= depth {
+          self.next_event()?;
+        }
+      }
+      result
     } else {
       Err("Internal error: Bad Event".to_string())
     }
-- 
2.43.0


From 315ffe2f64da41c3acd02f879cb282dff90c0c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:10 +0000
Subject: [PATCH 04/35] fix: never take the element holding an enum for one of
 its variants

---
 yaserde_derive/src/de/expand_enum.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/yaserde_derive/src/de/expand_enum.rs b/yaserde_derive/src/de/expand_enum.rs
index 3134a07..e05c6f9 100644
--- a/yaserde_derive/src/de/expand_enum.rs
+++ b/yaserde_derive/src/de/expand_enum.rs
@@ -26,6 +26,8 @@ pub fn parse(
   let flatten = root_attributes.flatten;
   let (impl_generics, ty_generics, where_clause) = generics.split_for_impl();
 
+  let own_element = !flatten && root_attributes.tag.is_none();
+
   let element_name = if let Some(tag) = &root_attributes.tag {
     quote! {
       attributes
@@ -66,10 +68,15 @@ pub fn parse(
           ::yaserde::__derive_trace!("Enum {} @ {}: matching {:?}", stringify!(#name), start_depth, event);
           match event {
             ::yaserde::__xml::reader::XmlEvent::StartElement { ref name, ref attributes, .. } => {
-              match #element_name {
-                #match_to_enum
-                _named_element => {
-                  let _root = reader.next_event();
+              if #own_element && reader.depth() == start_depth {
+                // Consume the element holding the enum first, it may share its name with a variant.
+                let _root = reader.next_event()?;
+              } else {
+                match #element_name {
+                  #match_to_enum
+                  _named_element => {
+                    let _root = reader.next_event();
+                  }
                 }
               }
 
-- 
2.43.0


From 161e3a6224fa6e944743634f8afcc5d5566d1a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:13 +0000
Subject: [PATCH 05/35] fix: do not panic on an unparsable enum variant content

---
 yaserde_derive/src/de/expand_enum.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaserde_derive/src/de/expand_enum.rs b/yaserde_derive/src/de/expand_enum.rs
index e05c6f9..6db0f2b 100644
--- a/yaserde_derive/src/de/expand_enum.rs
+++ b/yaserde_derive/src/de/expand_enum.rs
@@ -194,7 +194,7 @@ fn build_unnamed_field_visitors(fields: &syn::FieldsUnnamed) -> TokenStream {
         make_visitor(
           &visitor,
           &field_type,
-          &quote! { ::std::result::Result::Ok(#field_type::from_str(v).unwrap()) },
+          &quote! { #field_type::from_str(v).map_err(|e| e.to_string()) },
         )
       };
 
-- 
2.43.0


From 860ef8620f5b73874da8525c741b14bb01399bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:19 +0000
Subject: [PATCH 06/35] fix: report write errors of primitive values

---
 yaserde/src/lib.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/yaserde/src/lib.rs b/yaserde/src/lib.rs
index 6c86ac9..06b0f61 100644
--- a/yaserde/src/lib.rs
+++ b/yaserde/src/lib.rs
@@ -177,8 +177,7 @@ macro_rules! serialize_type {
       fn serialize<W: Write>(&self, writer: &mut ser::Serializer<W>) -> Result<(), String> {
         let content = format!("{}", self);
         let event = XmlEvent::characters(&content);
-        let _ret = writer.write(event);
-        Ok(())
+        writer.write(event).map_err(|e| e.to_string())
       }
 
       fn serialize_attributes(
-- 
2.43.0


From 0207a966d6c0794bb0d719632daea7e0fb66f609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:41 +0000
Subject: [PATCH 07/35] fix: parse hexBinary values as the hexadecimal numbers
 they are written as

---
 yaserde_derive/src/primitives.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/yaserde_derive/src/primitives.rs b/yaserde_derive/src/primitives.rs
index 386bf28..bbaba13 100644
--- a/yaserde_derive/src/primitives.rs
+++ b/yaserde_derive/src/primitives.rs
@@ -71,8 +71,10 @@ pub fn hexbinary_serde(input: TokenStream) -> TokenStream {
 
       fn from_str(s: &::std::primitive::str) -> ::std::result::Result<Self, Self::Err> {
         Self::from_bits(
-          s.parse()
-              .map_err(|_| String::from("Failed to parse Bitflag integer"))?,
+          ::std::primitive::u128::from_str_radix(s, 16)
+              .ok()
+              .and_then(|bits| ::std::convert::TryInto::try_into(bits).ok())
+              .ok_or(String::from("Failed to parse Bitflag integer"))?,
       )
       .ok_or(String::from("Unknown bits were set in Bitflag"))
       }
-- 
2.43.0


From 84c0464b5c2afaee9776c95c142ca5583bf1fa1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:43 +0000
Subject: [PATCH 08/35] fix: keep the CDATA terminator out of CDATA sections

---
 yaserde_derive/src/ser/expand_struct.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yaserde_derive/src/ser/expand_struct.rs b/yaserde_derive/src/ser/expand_struct.rs
index 2a4507b..24ab5eb 100644
--- a/yaserde_derive/src/ser/expand_struct.rs
+++ b/yaserde_derive/src/ser/expand_struct.rs
@@ -166,7 +166,9 @@ pub fn serialize(
             #conditions {
               let start_event = ::yaserde::__xml::writer::XmlEvent::start_element(#label_name);
               writer.write(start_event).map_err(|e| e.to_string())?;
-              let data = ::yaserde::__xml::writer::events::XmlEvent::cdata(&self.#label);
+              // A CDATA section can not hold "]]>", spread it over two sections
+              let yaserde_cdata = self.#label.replace("]]>", "]]]]><![CDATA[>");
+              let data = ::yaserde::__xml::writer::events::XmlEvent::cdata(&yaserde_cdata);
               writer.write(data).map_err(|e| e.to_string())?;
               let end_event = ::yaserde::__xml::writer::XmlEvent::end_element();
               writer.write(end_event).map_err(|e| e.to_string())?;
-- 
2.43.0


From 19ab738e126904853223d45539a9a6f7e12ac466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:09 +0000
Subject: [PATCH 09/35] fix: honour the skip conditions on attribute, text and
 flattened fields

---
 yaserde_derive/src/common/field.rs      |  2 ++
 yaserde_derive/src/ser/expand_struct.rs | 34 ++++++++++++++++---------
 2 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/yaserde_derive/src/common/field.rs b/yaserde_derive/src/common/field.rs
index 06f650c..3e608b8 100644
--- a/yaserde_derive/src/common/field.rs
+++ b/yaserde_derive/src/common/field.rs
@@ -185,6 +185,8 @@ impl YaSerdeField {
       .get_skip_serializing_if_function()
       .map(|skip_if_function| quote!(!self.#skip_if_function(&self.#label)))
       .unwrap_or(quote!(true));
+    let skip_serializing = self.is_skip_serializing();
+    let skip_if = quote!(!#skip_serializing && #skip_if);
 
     self
       .get_default_function()
diff --git a/yaserde_derive/src/ser/expand_struct.rs b/yaserde_derive/src/ser/expand_struct.rs
index 24ab5eb..be3ed5e 100644
--- a/yaserde_derive/src/ser/expand_struct.rs
+++ b/yaserde_derive/src/ser/expand_struct.rs
@@ -123,13 +123,17 @@ pub fn serialize(
       } else {
         match field.get_type() {
           Field::FieldStruct { .. } => {
+            let conditions = condition_generator(&label, &field);
+
             quote!(
-              let (attributes, namespace) = self.#label.serialize_attributes(
-                ::std::vec![],
-                ::yaserde::__xml::namespace::Namespace::empty(),
-              )?;
-              child_attributes_namespace.extend(&namespace);
-              child_attributes.extend(attributes);
+              #conditions {
+                let (attributes, namespace) = self.#label.serialize_attributes(
+                  ::std::vec![],
+                  ::yaserde::__xml::namespace::Namespace::empty(),
+                )?;
+                child_attributes_namespace.extend(&namespace);
+                child_attributes.extend(attributes);
+              }
             )
           }
           _ => quote!(),
@@ -145,21 +149,27 @@ pub fn serialize(
     .filter(|field| !field.is_attribute())
     .filter_map(|field| {
       let label = field.label();
+      let conditions = condition_generator(&label, &field);
+
       if field.is_text_content() {
         return match field.get_type() {
           Field::FieldOption { .. } => Some(quote!(
-            let s = self.#label.as_deref().unwrap_or_default();
-            let data_event = ::yaserde::__xml::writer::XmlEvent::characters(s);
-            writer.write(data_event).map_err(|e| e.to_string())?;
+            #conditions {
+              let s = self.#label.as_deref().unwrap_or_default();
+              let data_event = ::yaserde::__xml::writer::XmlEvent::characters(s);
+              writer.write(data_event).map_err(|e| e.to_string())?;
+            }
           )),
           _ => Some(quote!(
-            let data_event = ::yaserde::__xml::writer::XmlEvent::characters(&self.#label);
-            writer.write(data_event).map_err(|e| e.to_string())?;
+            #conditions {
+              let data_event = ::yaserde::__xml::writer::XmlEvent::characters(&self.#label);
+              writer.write(data_event).map_err(|e| e.to_string())?;
+            }
           )),
         };
       }
+
       let label_name = field.renamed_label(root_attributes);
-      let conditions = condition_generator(&label, &field);
 
       if field.is_cdata() {
         return quote! {
-- 
2.43.0


From 940a36db7353d4f7069877f4ce40eb1a7c50a080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:12 +0000
Subject: [PATCH 10/35] fix: serialize the attributes of optional flattened
 structs

---
 yaserde_derive/src/ser/expand_struct.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/yaserde_derive/src/ser/expand_struct.rs b/yaserde_derive/src/ser/expand_struct.rs
index be3ed5e..f2bd845 100644
--- a/yaserde_derive/src/ser/expand_struct.rs
+++ b/yaserde_derive/src/ser/expand_struct.rs
@@ -136,6 +136,22 @@ pub fn serialize(
               }
             )
           }
+          Field::FieldOption { data_type } if matches!(*data_type, Field::FieldStruct { .. }) => {
+            let conditions = condition_generator(&label, &field);
+
+            quote!(
+              #conditions {
+                if let ::std::option::Option::Some(ref yaserde_item) = self.#label {
+                  let (attributes, namespace) = yaserde_item.serialize_attributes(
+                    ::std::vec![],
+                    ::yaserde::__xml::namespace::Namespace::empty(),
+                  )?;
+                  child_attributes_namespace.extend(&namespace);
+                  child_attributes.extend(attributes);
+                }
+              }
+            )
+          }
           _ => quote!(),
         }
       }
-- 
2.43.0


From 914bf2253f01aa1e8ffa8c2668ff60203fc161be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:25 +0000
Subject: [PATCH 11/35] fix: read an empty element as an empty string

---
 yaserde_derive/src/de/expand_struct.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index f1cdd05..c5088c6 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -511,6 +511,11 @@ fn build_call_visitor(
       #namespaces_matching
 
       let result = reader.read_inner_value::<#field_type, _>(|reader| {
+        if let ::yaserde::__xml::reader::XmlEvent::EndElement { .. } = *reader.peek()? {
+          // An empty element holds an empty value
+          return visitor.#visitor("");
+        }
+
         if let ::std::result::Result::Ok(::yaserde::__xml::reader::XmlEvent::Characters(s)) = reader.peek() {
           let val = visitor.#visitor(&s);
           let _event = reader.next_event()?;
-- 
2.43.0


From cd9868469e21c6624000863a12311d016e5a4669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:27 +0000
Subject: [PATCH 12/35] fix: read an element without text as an empty text
 content

---
 yaserde_derive/src/de/expand_struct.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index c5088c6..f9a5eb7 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -360,6 +360,9 @@ pub fn parse(
         _ => {
           if let Some(default_function) = field.get_default_function() {
             quote! { #label: #value_label.unwrap_or_else(|| #default_function()), }
+          } else if field.is_text_content() {
+            // Without any text, the text content is empty
+            quote! { #label: #value_label.unwrap_or_default(), }
           } else {
             let error = format!(
               "{} is a required field of {}",
-- 
2.43.0


From 2e9a77c5a0515c2c097ddcb0b1382bad07cd357d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:07 +0000
Subject: [PATCH 13/35] fix: read enums up to the end of the element holding
 them

---
 yaserde_derive/src/de/expand_enum.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/yaserde_derive/src/de/expand_enum.rs b/yaserde_derive/src/de/expand_enum.rs
index 6db0f2b..28dd402 100644
--- a/yaserde_derive/src/de/expand_enum.rs
+++ b/yaserde_derive/src/de/expand_enum.rs
@@ -111,6 +111,19 @@ pub fn parse(
           }
         }
 
+        if !#flatten {
+          // The variant may be known early: leave the reader at the end of the element holding the enum
+          while !(reader.depth() == start_depth + 1
+            && matches!(reader.peek()?, ::yaserde::__xml::reader::XmlEvent::EndElement { .. }))
+          {
+            if let ::yaserde::__xml::reader::XmlEvent::EndDocument = reader.next_event()? {
+              return ::std::result::Result::Err(
+                ::std::format!("End of document, missing some content ?"),
+              );
+            }
+          }
+        }
+
         ::yaserde::__derive_debug!("Enum {} @ {}: success", stringify!(#name), start_depth);
         ::std::result::Result::Ok(enum_value.unwrap_or(<#name as ::std::default::Default>::default()))
       }
-- 
2.43.0


From 947cefc097b0c40ebc7c3c990920d61e27883d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:36 +0000
Subject: [PATCH 14/35] fix: skip unknown elements of enums along with their
 content

---
 yaserde_derive/src/de/expand_enum.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yaserde_derive/src/de/expand_enum.rs b/yaserde_derive/src/de/expand_enum.rs
index 28dd402..dc1fe4a 100644
--- a/yaserde_derive/src/de/expand_enum.rs
+++ b/yaserde_derive/src/de/expand_enum.rs
@@ -76,6 +76,9 @@ pub fn parse(
                   #match_to_enum
                   _named_element => {
                     let _root = reader.next_event();
+                    if #own_element {
+                      reader.skip_element(|_| {})?;
+                    }
                   }
                 }
               }
-- 
2.43.0


From 1c00665fd1bd48fc08b8276b280d27f66b158cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:50 +0000
Subject: [PATCH 15/35] Add observation points for runtime monitors behind
 cfg(yaserde_verif)

---
 yaserde/src/de/mod.rs  |   6 +++
 yaserde/src/lib.rs     |   6 +++
 yaserde/src/ser/mod.rs |   3 ++
 yaserde/src/verif.rs   | 102 +++++++++++++++++++++++++++++++++++++++++
 4 files changed, 117 insertions(+)
 create mode 100644 yaserde/src/verif.rs

diff --git a/yaserde/src/de/mod.rs b/yaserde/src/de/mod.rs
index 99cb3db..ce9a8b4 100644
--- a/yaserde/src/de/mod.rs
+++ b/yaserde/src/de/mod.rs
@@ -41,6 +41,9 @@ impl<R: Read> Deserializer<R> {
   }
 
   pub fn peek(&mut self) -> Result<&XmlEvent, String> {
+    #[cfg(yaserde_verif)]
+    crate::verif::on_peek();
+
     if self.peeked.is_none() {
       self.peeked = Some(self.inner_next()?);
     }
@@ -85,6 +88,9 @@ impl<R: Read> Deserializer<R> {
       }
       _ => {}
     }
+    #[cfg(yaserde_verif)]
+    crate::verif::on_event(&next_event, self.depth);
+
     log::debug!("Fetched {:?}, new depth {}", next_event, self.depth);
     Ok(next_event)
   }
diff --git a/yaserde/src/lib.rs b/yaserde/src/lib.rs
index 06b0f61..fc6848f 100644
--- a/yaserde/src/lib.rs
+++ b/yaserde/src/lib.rs
@@ -79,6 +79,9 @@
 //! Avoid using either `{:?}` or `{:#?}` println! formatters since it'll garble the output of your
 //! XML.
 
+// `yaserde_verif` is only known to runtime monitors
+#![allow(unexpected_cfgs)]
+
 #[cfg(feature = "yaserde_derive")]
 #[allow(unused_imports)]
 #[macro_use]
@@ -95,6 +98,9 @@ pub mod de;
 pub mod primitives;
 pub mod ser;
 
+#[cfg(yaserde_verif)]
+pub mod verif;
+
 /// A **data structure** that can be deserialized from any data format supported by YaSerDe.
 pub trait YaDeserialize: Sized {
   fn deserialize<R: Read>(reader: &mut de::Deserializer<R>) -> Result<Self, String>;
diff --git a/yaserde/src/ser/mod.rs b/yaserde/src/ser/mod.rs
index 72039cc..11b7829 100644
--- a/yaserde/src/ser/mod.rs
+++ b/yaserde/src/ser/mod.rs
@@ -112,6 +112,9 @@ impl<W: Write> Serializer<W> {
   where
     E: Into<XmlEvent<'a>>,
   {
+    #[cfg(yaserde_verif)]
+    crate::verif::on_write();
+
     self.writer.write(event)
   }
 }
diff --git a/yaserde/src/verif.rs b/yaserde/src/verif.rs
new file mode 100644
index 0000000..977b678
--- /dev/null
+++ b/yaserde/src/verif.rs
@@ -0,0 +1,102 @@
+//! Observation points for runtime monitors. Only compiled with `--cfg yaserde_verif`.
+
+use std::cell::{Cell, RefCell};
+use std::collections::HashSet;
+use xml::reader::XmlEvent;
+
+#[derive(Clone, Copy, Debug, Default)]
+pub struct Counters {
+  /// Events handed out by `peek` (repeated peeks included)
+  pub peeks: u64,
+  /// Peeks since the last consumed event
+  pub idle_peeks: u64,
+  /// Largest number of peeks between two consumed events
+  pub max_idle_peeks: u64,
+  /// Consumed events
+  pub events: u64,
+  /// Deepest element reached
+  pub max_depth: usize,
+  /// Events given to the writer
+  pub writes: u64,
+  /// Steps (peeks and events) after which the running call is interrupted, 0 for no limit
+  pub budget: u64,
+}
+
+thread_local! {
+  static COUNTERS: Cell<Counters> = Cell::new(Counters::default());
+  static WINDOW: Cell<u64> = const { Cell::new(0) };
+  static WINDOWS: RefCell<HashSet<u64>> = RefCell::new(HashSet::new());
+}
+
+/// Starts a new observation on this thread.
+pub fn start(budget: u64) {
+  WINDOW.with(|w| w.set(0));
+  COUNTERS.with(|c| {
+    c.set(Counters {
+      budget,
+      ..Default::default()
+    })
+  });
+}
+
+/// What was observed on this thread since the last `start`.
+pub fn counters() -> Counters {
+  COUNTERS.with(|c| c.get())
+}
+
+/// Number of distinct windows of six consecutive consumed event kinds ever seen on this thread.
+pub fn distinct_windows() -> usize {
+  WINDOWS.with(|w| w.borrow().len())
+}
+
+fn kind(event: &XmlEvent) -> u64 {
+  match event {
+    XmlEvent::StartDocument { .. } => 1,
+    XmlEvent::EndDocument => 2,
+    XmlEvent::StartElement { .. } => 3,
+    XmlEvent::EndElement { .. } => 4,
+    XmlEvent::Characters(_) => 5,
+    _ => 6,
+  }
+}
+
+fn check_budget(counters: &Counters) {
+  if counters.budget > 0 && counters.peeks + counters.events > counters.budget {
+    panic!("yaserde_verif: step budget exhausted: {:?}", counters);
+  }
+}
+
+pub(crate) fn on_peek() {
+  COUNTERS.with(|c| {
+    let mut counters = c.get();
+    counters.peeks += 1;
+    counters.idle_peeks += 1;
+    counters.max_idle_peeks = counters.max_idle_peeks.max(counters.idle_peeks);
+    c.set(counters);
+    check_budget(&counters);
+  });
+}
+
+pub(crate) fn on_event(event: &XmlEvent, depth: usize) {
+  let window = WINDOW.with(|w| {
+    w.set(((w.get() << 3) | kind(event)) & 0o777_777);
+    w.get()
+  });
+  WINDOWS.with(|w| w.borrow_mut().insert(window));
+  COUNTERS.with(|c| {
+    let mut counters = c.get();
+    counters.events += 1;
+    counters.idle_peeks = 0;
+    counters.max_depth = counters.max_depth.max(depth);
+    c.set(counters);
+    check_budget(&counters);
+  });
+}
+
+pub(crate) fn on_write() {
+  COUNTERS.with(|c| {
+    let mut counters = c.get();
+    counters.writes += 1;
+    c.set(counters);
+  });
+}
-- 
2.43.0


From bf1920a2a60e7d7750eee86280ed72a074e14a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:28 +0000
Subject: [PATCH 16/35] fix: name the elements of raw identifier fields without
 the r# marker

---
 yaserde_derive/src/common/field.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaserde_derive/src/common/field.rs b/yaserde_derive/src/common/field.rs
index 3e608b8..9ce211a 100644
--- a/yaserde_derive/src/common/field.rs
+++ b/yaserde_derive/src/common/field.rs
@@ -61,7 +61,7 @@ impl YaSerdeField {
       .attributes
       .rename
       .clone()
-      .unwrap_or_else(|| self.label().as_ref().unwrap().to_string())
+      .unwrap_or_else(|| self.label().as_ref().unwrap().unraw().to_string())
   }
 
   pub fn renamed_label(&self, root_attributes: &YaSerdeAttribute) -> String {
-- 
2.43.0


From 2b475d6b71eb86c10bf4675107d5b634953978ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:07 +0000
Subject: [PATCH 17/35] fix: serialize the attributes and namespaces of enum
 variant contents

---
 yaserde_derive/src/ser/expand_enum.rs | 30 +++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/yaserde_derive/src/ser/expand_enum.rs b/yaserde_derive/src/ser/expand_enum.rs
index 560ed79..9f0aeff 100644
--- a/yaserde_derive/src/ser/expand_enum.rs
+++ b/yaserde_derive/src/ser/expand_enum.rs
@@ -261,11 +261,29 @@ fn inner_enum_inspector(
                 ::yaserde::YaSerialize::serialize(item, writer)?;
               };
 
-              let write_sub_type = |data_type| {
-                write_element(match data_type {
-                  Field::FieldString => &write_string_chars,
-                  _ => &serialize,
-                })
+              // The element of the variant also carries the attributes and namespaces of its content
+              let write_struct = quote! {
+                let (yaserde_attributes, yaserde_namespace) =
+                  ::yaserde::YaSerialize::serialize_attributes(
+                    item,
+                    ::std::vec![],
+                    ::yaserde::__xml::namespace::Namespace::empty(),
+                  )?;
+                writer.write(::yaserde::__xml::writer::XmlEvent::StartElement {
+                  name: #label_name.into(),
+                  attributes: yaserde_attributes.iter().map(|a| a.borrow()).collect(),
+                  namespace: ::std::borrow::Cow::Owned(yaserde_namespace),
+                }).map_err(|e| e.to_string())?;
+
+                #serialize
+
+                let struct_end_event = ::yaserde::__xml::writer::XmlEvent::end_element();
+                writer.write(struct_end_event).map_err(|e| e.to_string())?;
+              };
+
+              let write_sub_type = |data_type| match data_type {
+                Field::FieldString => write_element(&write_string_chars),
+                _ => write_struct.clone(),
               };
 
               let match_field = |write: &TokenStream| {
@@ -302,7 +320,7 @@ fn inner_enum_inspector(
                   if variant_attrs.flatten || field.is_flatten() {
                      match_field(&quote!{ ::yaserde::YaSerialize::serialize(item, writer)?})
                    } else {
-                     write_element(&match_field(&serialize))
+                     match_field(&write_struct)
                    }
                 }
                 Field::FieldString => match_field(&write_element(&write_string_chars)),
-- 
2.43.0


From b3a48711b310cb72c4380463493a41fad0a0340b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:50 +0000
Subject: [PATCH 18/35] fix: read unit variants with a prefix as they are
 written

---
 yaserde_derive/src/de/expand_enum.rs | 38 +++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/yaserde_derive/src/de/expand_enum.rs b/yaserde_derive/src/de/expand_enum.rs
index dc1fe4a..27bfc09 100644
--- a/yaserde_derive/src/de/expand_enum.rs
+++ b/yaserde_derive/src/de/expand_enum.rs
@@ -1,4 +1,5 @@
 use crate::common::{Field, YaSerdeAttribute, YaSerdeField};
+use crate::ser::label::build_label_name;
 use proc_macro2::{Span, TokenStream};
 use quote::quote;
 use syn::{DataEnum, Fields, Generics, Ident};
@@ -20,7 +21,7 @@ pub fn parse(
   let match_to_enum: TokenStream = data_enum
     .variants
     .iter()
-    .filter_map(|variant| parse_variant(variant, name))
+    .filter_map(|variant| parse_variant(variant, name, root_attributes))
     .collect();
 
   let flatten = root_attributes.flatten;
@@ -134,8 +135,13 @@ pub fn parse(
   }
 }
 
-fn parse_variant(variant: &syn::Variant, name: &Ident) -> Option<TokenStream> {
-  let xml_element_name = YaSerdeAttribute::from(&variant.attrs).xml_element_name(&variant.ident);
+fn parse_variant(
+  variant: &syn::Variant,
+  name: &Ident,
+  root_attributes: &YaSerdeAttribute,
+) -> Option<TokenStream> {
+  let variant_attrs = YaSerdeAttribute::from(&variant.attrs);
+  let xml_element_name = variant_attrs.xml_element_name(&variant.ident);
 
   let variant_name = {
     let label = &variant.ident;
@@ -143,12 +149,26 @@ fn parse_variant(variant: &syn::Variant, name: &Ident) -> Option<TokenStream> {
   };
 
   match variant.fields {
-    Fields::Unit => Some(quote! {
-      #xml_element_name => {
-        enum_value = ::std::option::Option::Some(#variant_name);
-        break;
-      }
-    }),
+    Fields::Unit => {
+      // A unit variant is written as text, along with its prefix
+      let written_name = build_label_name(
+        &variant.ident,
+        &variant_attrs,
+        &root_attributes.default_namespace,
+      );
+      let written_pattern = if written_name == xml_element_name {
+        quote!()
+      } else {
+        quote!(| #written_name)
+      };
+
+      Some(quote! {
+        #xml_element_name #written_pattern => {
+          enum_value = ::std::option::Option::Some(#variant_name);
+          break;
+        }
+      })
+    }
     Fields::Unnamed(ref fields) => {
       let field_visitors = build_unnamed_field_visitors(fields);
       let call_visitors = build_unnamed_visitor_calls(fields, &variant_name);
-- 
2.43.0


From 6eaabed09325f80eca612726cee6dda95a2ab60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:00 +0000
Subject: [PATCH 19/35] fix: do not expect the namespace of a flattened type on
 the element it is read from

---
 yaserde/src/de/mod.rs                  | 18 ++++++++++++++++++
 yaserde_derive/src/de/expand_enum.rs   |  4 +++-
 yaserde_derive/src/de/expand_struct.rs |  6 +++---
 3 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/yaserde/src/de/mod.rs b/yaserde/src/de/mod.rs
index ce9a8b4..0127d16 100644
--- a/yaserde/src/de/mod.rs
+++ b/yaserde/src/de/mod.rs
@@ -14,10 +14,20 @@ pub fn from_reader<R: Read, T: YaDeserialize>(reader: R) -> Result<T, String> {
   <T as YaDeserialize>::deserialize(&mut Deserializer::new_from_reader(reader))
 }
 
+/// Reads a flattened field out of the element of the structure holding it.
+/// Used in code generated by yaserde_derive.
+#[doc(hidden)]
+pub fn from_flattened<T: YaDeserialize>(s: &str) -> Result<T, String> {
+  let mut reader = Deserializer::new_from_reader(s.as_bytes());
+  reader.flattened = true;
+  <T as YaDeserialize>::deserialize(&mut reader)
+}
+
 pub struct Deserializer<R: Read> {
   depth: usize,
   reader: EventReader<R>,
   peeked: Option<XmlEvent>,
+  flattened: bool,
 }
 
 impl<R: Read> Deserializer<R> {
@@ -26,6 +36,7 @@ impl<R: Read> Deserializer<R> {
       depth: 0,
       reader,
       peeked: None,
+      flattened: false,
     }
   }
 
@@ -113,6 +124,13 @@ impl<R: Read> Deserializer<R> {
     self.depth
   }
 
+  /// Whether the reader is at a root element that belongs to the structure holding a flattened field.
+  /// Used in code generated by yaserde_derive.
+  #[doc(hidden)]
+  pub fn at_flattened_root(&self) -> bool {
+    self.flattened && self.depth == 0
+  }
+
   pub fn read_inner_value<T, F: FnOnce(&mut Self) -> Result<T, String>>(
     &mut self,
     f: F,
diff --git a/yaserde_derive/src/de/expand_enum.rs b/yaserde_derive/src/de/expand_enum.rs
index 27bfc09..3da8a03 100644
--- a/yaserde_derive/src/de/expand_enum.rs
+++ b/yaserde_derive/src/de/expand_enum.rs
@@ -59,7 +59,9 @@ pub fn parse(
         let start_depth = reader.depth();
         ::yaserde::__derive_debug!("Enum {} @ {}: start to parse {:?}", stringify!(#name), start_depth, named_element);
 
-        #namespaces_matching
+        if !reader.at_flattened_root() {
+          #namespaces_matching
+        }
 
         #[allow(unused_assignments, unused_mut)]
         let mut enum_value = ::std::option::Option::None;
diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index f9a5eb7..cd0a60b 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -210,11 +210,11 @@ pub fn parse(
 
       match field.get_type() {
         Field::FieldStruct { .. } => quote! {
-          #value_label = Some(::yaserde::de::from_str(&unused_xml_elements)?);
+          #value_label = Some(::yaserde::de::from_flattened(&unused_xml_elements)?);
         },
         Field::FieldOption { data_type } => match *data_type {
           Field::FieldStruct { .. } => quote! {
-            #value_label = ::yaserde::de::from_str(&unused_xml_elements).ok();
+            #value_label = ::yaserde::de::from_flattened(&unused_xml_elements).ok();
           },
           field_type => unimplemented!(r#""flatten" is not implemented for {:?}"#, field_type),
         },
@@ -405,7 +405,7 @@ pub fn parse(
         ::yaserde::__derive_debug!("Struct {} @ {}: start to parse {:?}", stringify!(#name), start_depth,
                named_element);
 
-        if reader.depth() == 0 {
+        if reader.depth() == 0 && !reader.at_flattened_root() {
           #namespaces_matching
         }
 
-- 
2.43.0


From a8179c68d667cf859ffd49a712ecdb169f45086c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:59 +0000
Subject: [PATCH 20/35] fix: prefer the attribute of a field's namespace over
 others of its local name

---
 yaserde/src/de/mod.rs                  | 20 ++++++++++++++++++
 yaserde_derive/src/de/expand_struct.rs | 29 +++++++++++---------------
 2 files changed, 32 insertions(+), 17 deletions(-)

diff --git a/yaserde/src/de/mod.rs b/yaserde/src/de/mod.rs
index 0127d16..0e74785 100644
--- a/yaserde/src/de/mod.rs
+++ b/yaserde/src/de/mod.rs
@@ -3,6 +3,7 @@
 
 use crate::YaDeserialize;
 use std::io::Read;
+use xml::attribute::OwnedAttribute;
 use xml::name::OwnedName;
 use xml::reader::{EventReader, ParserConfig, XmlEvent};
 
@@ -23,6 +24,25 @@ pub fn from_flattened<T: YaDeserialize>(s: &str) -> Result<T, String> {
   <T as YaDeserialize>::deserialize(&mut reader)
 }
 
+/// The attributes a field reads: those of its namespace, or else any of its local name.
+/// Used in code generated by yaserde_derive.
+#[doc(hidden)]
+pub fn matching_attributes<'a>(
+  attributes: &'a [OwnedAttribute],
+  local_name: &'a str,
+  namespace: &'a str,
+) -> impl Iterator<Item = &'a OwnedAttribute> {
+  let has_name = move |attr: &&OwnedAttribute| attr.name.local_name == local_name;
+  let has_namespace =
+    move |attr: &&OwnedAttribute| attr.name.namespace.as_deref().unwrap_or_default() == namespace;
+  let exact = attributes.iter().filter(has_name).any(|attr| has_namespace(&attr));
+
+  attributes
+    .iter()
+    .filter(has_name)
+    .filter(move |attr| !exact || has_namespace(attr))
+}
+
 pub struct Deserializer<R: Read> {
   depth: usize,
   reader: EventReader<R>,
diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index cd0a60b..90ae302 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -232,28 +232,25 @@ pub fn parse(
       let label = field.get_value_label();
       let label_name = field.renamed_label_without_namespace();
       let visitor_label = field.get_visitor_ident(None);
+      let namespace = field.prefix_namespace(root_attributes);
 
       let visit = |action: &TokenStream, visitor: &Ident, visitor_label: &Ident| {
         Some(quote! {
-          for attr in attributes {
-            if attr.name.local_name == #label_name {
-              let visitor = #visitor_label{};
-              let value = visitor.#visitor(&attr.value)?;
-              #label #action;
-            }
+          for attr in ::yaserde::de::matching_attributes(attributes, #label_name, #namespace) {
+            let visitor = #visitor_label{};
+            let value = visitor.#visitor(&attr.value)?;
+            #label #action;
           }
         })
       };
 
       let visit_vec = |action: &TokenStream, visitor: &Ident, visitor_label: &Ident| {
         Some(quote! {
-          for attr in attributes {
-            if attr.name.local_name == #label_name {
-              for value in attr.value.split_whitespace() {
-                let visitor = #visitor_label{};
-                let value = visitor.#visitor(value)?;
-                #label #action;
-              }
+          for attr in ::yaserde::de::matching_attributes(attributes, #label_name, #namespace) {
+            for value in attr.value.split_whitespace() {
+              let visitor = #visitor_label{};
+              let value = visitor.#visitor(value)?;
+              #label #action;
             }
           }
         })
@@ -261,10 +258,8 @@ pub fn parse(
 
       let visit_string = || {
         Some(quote! {
-          for attr in attributes {
-            if attr.name.local_name == #label_name {
-              #label = Some(attr.value.to_owned());
-            }
+          for attr in ::yaserde::de::matching_attributes(attributes, #label_name, #namespace) {
+            #label = Some(attr.value.to_owned());
           }
         })
       };
-- 
2.43.0


From 79eefb4cc93f0d1e2b36a422024b585c6521087c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:18 +0000
Subject: [PATCH 21/35] fix: leave the reader at the end element of a wrapped
 primitive

---
 yaserde/src/primitives.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/yaserde/src/primitives.rs b/yaserde/src/primitives.rs
index 0d4107f..afed847 100644
--- a/yaserde/src/primitives.rs
+++ b/yaserde/src/primitives.rs
@@ -43,9 +43,21 @@ pub fn deserialize_primitives<S, R: Read>(
     return Err("Start element not found".to_string());
   }
 
-  if let Ok(xml::reader::XmlEvent::Characters(ref text)) = reader.peek() {
-    deserialize_function(text)
-  } else {
-    deserialize_function("")
+  // Leave the reader at the end element, whatever the content
+  let mut content = String::new();
+  loop {
+    match reader.peek()? {
+      xml::reader::XmlEvent::Characters(ref text) => {
+        content.push_str(text);
+        reader.next_event()?;
+      }
+      xml::reader::XmlEvent::StartElement { .. } => {
+        reader.next_event()?;
+        reader.skip_element(|_| {})?;
+      }
+      _ => break,
+    }
   }
+
+  deserialize_function(&content)
 }
-- 
2.43.0


From 775ecf2fad51b4f7b55c4effdc12092b4b35ef50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:24 +0000
Subject: [PATCH 22/35] fix: do not read text fields from elements of their
 name

---
 yaserde_derive/src/de/expand_struct.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index 90ae302..5ee1f09 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -144,7 +144,7 @@ pub fn parse(
     .fields
     .iter()
     .map(|field| YaSerdeField::new(field.clone()))
-    .filter(|field| !field.is_attribute() && !field.is_flatten())
+    .filter(|field| !field.is_attribute() && !field.is_flatten() && !field.is_text_content())
     .filter_map(|field| {
       let value_label = field.get_value_label();
       let label_name = field.renamed_label_without_namespace();
-- 
2.43.0


From ce22dd762acb21a1ab577cb60a177e0e174d28e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:08 +0000
Subject: [PATCH 23/35] fix: hand the unused events to flattened fields as they
 were read

---
 yaserde/src/de/mod.rs                  | 19 ++++++++++++-------
 yaserde_derive/src/de/expand_struct.rs | 18 +++++-------------
 2 files changed, 17 insertions(+), 20 deletions(-)

diff --git a/yaserde/src/de/mod.rs b/yaserde/src/de/mod.rs
index 0e74785..a4bd44c 100644
--- a/yaserde/src/de/mod.rs
+++ b/yaserde/src/de/mod.rs
@@ -15,12 +15,12 @@ pub fn from_reader<R: Read, T: YaDeserialize>(reader: R) -> Result<T, String> {
   <T as YaDeserialize>::deserialize(&mut Deserializer::new_from_reader(reader))
 }
 
-/// Reads a flattened field out of the element of the structure holding it.
+/// Reads a flattened field out of what is left of the element of the structure holding it.
 /// Used in code generated by yaserde_derive.
 #[doc(hidden)]
-pub fn from_flattened<T: YaDeserialize>(s: &str) -> Result<T, String> {
-  let mut reader = Deserializer::new_from_reader(s.as_bytes());
-  reader.flattened = true;
+pub fn from_flattened<T: YaDeserialize>(events: &[XmlEvent]) -> Result<T, String> {
+  let mut reader = Deserializer::new_from_reader(std::io::empty());
+  reader.flattened = Some(events.to_vec().into_iter());
   <T as YaDeserialize>::deserialize(&mut reader)
 }
 
@@ -47,7 +47,8 @@ pub struct Deserializer<R: Read> {
   depth: usize,
   reader: EventReader<R>,
   peeked: Option<XmlEvent>,
-  flattened: bool,
+  /// The events to read instead of those of the reader
+  flattened: Option<std::vec::IntoIter<XmlEvent>>,
 }
 
 impl<R: Read> Deserializer<R> {
@@ -56,7 +57,7 @@ impl<R: Read> Deserializer<R> {
       depth: 0,
       reader,
       peeked: None,
-      flattened: false,
+      flattened: None,
     }
   }
 
@@ -87,6 +88,10 @@ impl<R: Read> Deserializer<R> {
   }
 
   pub fn inner_next(&mut self) -> Result<XmlEvent, String> {
+    if let Some(events) = &mut self.flattened {
+      return Ok(events.next().unwrap_or(XmlEvent::EndDocument));
+    }
+
     loop {
       match self.reader.next() {
         Ok(next) => {
@@ -148,7 +153,7 @@ impl<R: Read> Deserializer<R> {
   /// Used in code generated by yaserde_derive.
   #[doc(hidden)]
   pub fn at_flattened_root(&self) -> bool {
-    self.flattened && self.depth == 0
+    self.flattened.is_some() && self.depth == 0
   }
 
   pub fn read_inner_value<T, F: FnOnce(&mut Self) -> Result<T, String>>(
diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index 5ee1f09..6953e18 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -210,11 +210,11 @@ pub fn parse(
 
       match field.get_type() {
         Field::FieldStruct { .. } => quote! {
-          #value_label = Some(::yaserde::de::from_flattened(&unused_xml_elements)?);
+          #value_label = Some(::yaserde::de::from_flattened(&unused_xml_events)?);
         },
         Field::FieldOption { data_type } => match *data_type {
           Field::FieldStruct { .. } => quote! {
-            #value_label = ::yaserde::de::from_flattened(&unused_xml_elements).ok();
+            #value_label = ::yaserde::de::from_flattened(&unused_xml_events).ok();
           },
           field_type => unimplemented!(r#""flatten" is not implemented for {:?}"#, field_type),
         },
@@ -539,21 +539,13 @@ fn build_code_for_unused_xml_events(
 ) {
   (
     Some(quote! {
-      let mut buf = ::std::vec![];
-      let mut writer = ::std::option::Option::Some(::yaserde::__xml::writer::EventWriter::new(&mut buf));
+      let mut unused_xml_events = ::std::vec::Vec::new();
     }),
     Some(quote! {
-      if let ::std::option::Option::Some(ref mut w) = writer {
-        if w.write(event.as_writer_event().unwrap()).is_err() {
-          writer = ::std::option::Option::None;
-        }
-      }
+      unused_xml_events.push(event.clone());
     }),
     Some(quote! {
-      if writer.is_some() {
-        let unused_xml_elements = ::std::string::String::from_utf8(buf).unwrap();
-        #call_flatten_visitors
-      }
+      #call_flatten_visitors
     }),
   )
 }
-- 
2.43.0


From 21b0e89c92ddffd61d97b612d75592f6643a1f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:53 +0000
Subject: [PATCH 24/35] fix: write the content of flattened variants as its own
 element

---
 yaserde_derive/src/ser/expand_enum.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/yaserde_derive/src/ser/expand_enum.rs b/yaserde_derive/src/ser/expand_enum.rs
index 9f0aeff..f57a692 100644
--- a/yaserde_derive/src/ser/expand_enum.rs
+++ b/yaserde_derive/src/ser/expand_enum.rs
@@ -317,7 +317,14 @@ fn inner_enum_inspector(
                   })
                 }
                 Field::FieldStruct { .. } => {
-                  if variant_attrs.flatten || field.is_flatten() {
+                  if variant_attrs.flatten {
+                     // The content is written as its own element, whatever the one holding the enum is called
+                     match_field(&quote!{
+                       writer.set_start_event_name(::std::option::Option::None);
+                       writer.set_skip_start_end(false);
+                       ::yaserde::YaSerialize::serialize(item, writer)?;
+                     })
+                   } else if field.is_flatten() {
                      match_field(&quote!{ ::yaserde::YaSerialize::serialize(item, writer)?})
                    } else {
                      match_field(&write_struct)
-- 
2.43.0


From d8362dce6d96a93500383767cc3be93bbd7826c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:53 +0000
Subject: [PATCH 25/35] fix: do not read the variants of flattened enums from
 inside of unknown elements

---
 yaserde_derive/src/de/expand_enum.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yaserde_derive/src/de/expand_enum.rs b/yaserde_derive/src/de/expand_enum.rs
index 3da8a03..7e1dc40 100644
--- a/yaserde_derive/src/de/expand_enum.rs
+++ b/yaserde_derive/src/de/expand_enum.rs
@@ -79,7 +79,8 @@ pub fn parse(
                   #match_to_enum
                   _named_element => {
                     let _root = reader.next_event();
-                    if #own_element {
+                    // The variants of a flattened enum may be in a root element, but not any deeper
+                    if #own_element || (#flatten && reader.depth() > start_depth + 1) {
                       reader.skip_element(|_| {})?;
                     }
                   }
-- 
2.43.0


From f7da891f6da65a9802660d77543f74bfb5acc01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:53 +0000
Subject: [PATCH 26/35] fix: do not take the element holding a flattened type
 for one of its fields

---
 yaserde_derive/src/de/expand_enum.rs   | 2 +-
 yaserde_derive/src/de/expand_struct.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaserde_derive/src/de/expand_enum.rs b/yaserde_derive/src/de/expand_enum.rs
index 7e1dc40..7bc3d06 100644
--- a/yaserde_derive/src/de/expand_enum.rs
+++ b/yaserde_derive/src/de/expand_enum.rs
@@ -71,7 +71,7 @@ pub fn parse(
           ::yaserde::__derive_trace!("Enum {} @ {}: matching {:?}", stringify!(#name), start_depth, event);
           match event {
             ::yaserde::__xml::reader::XmlEvent::StartElement { ref name, ref attributes, .. } => {
-              if #own_element && reader.depth() == start_depth {
+              if reader.depth() == start_depth && (#own_element || (#flatten && reader.at_flattened_root())) {
                 // Consume the element holding the enum first, it may share its name with a variant.
                 let _root = reader.next_event()?;
               } else {
diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index 6953e18..0bbe1a7 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -419,7 +419,7 @@ pub fn parse(
           match event {
             ::yaserde::__xml::reader::XmlEvent::StartElement{ref name, ref attributes, ..} => {
               let namespace = name.namespace.clone().unwrap_or_default();
-              if depth == 0 && (!#flatten || (name.local_name == #root && namespace.as_str() == #root_namespace)) {
+              if depth == 0 && (!#flatten || reader.at_flattened_root() || (name.local_name == #root && namespace.as_str() == #root_namespace)) {
                 // Consume root element. We must do this first. In the case it shares a name with a child element, we don't
                 // want to prematurely match the child element below.
                 let event = reader.next_event()?;
-- 
2.43.0


From d6005458438a43e56ff45c216e9e7d416b0fc035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:53 +0000
Subject: [PATCH 27/35] fix: write "]]>" in CDATA fields as several events, not
 as markup within one

---
 yaserde_derive/src/ser/expand_struct.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/yaserde_derive/src/ser/expand_struct.rs b/yaserde_derive/src/ser/expand_struct.rs
index f2bd845..9a263b7 100644
--- a/yaserde_derive/src/ser/expand_struct.rs
+++ b/yaserde_derive/src/ser/expand_struct.rs
@@ -192,9 +192,15 @@ pub fn serialize(
             #conditions {
               let start_event = ::yaserde::__xml::writer::XmlEvent::start_element(#label_name);
               writer.write(start_event).map_err(|e| e.to_string())?;
-              // A CDATA section can not hold "]]>", spread it over two sections
-              let yaserde_cdata = self.#label.replace("]]>", "]]]]><![CDATA[>");
-              let data = ::yaserde::__xml::writer::events::XmlEvent::cdata(&yaserde_cdata);
+              // A CDATA section can not hold "]]>", spread it over several
+              let mut yaserde_cdata: &str = &self.#label;
+              while let ::std::option::Option::Some(end) = yaserde_cdata.find("]]>") {
+                let (section, rest) = yaserde_cdata.split_at(end + 2);
+                let data = ::yaserde::__xml::writer::events::XmlEvent::cdata(section);
+                writer.write(data).map_err(|e| e.to_string())?;
+                yaserde_cdata = rest;
+              }
+              let data = ::yaserde::__xml::writer::events::XmlEvent::cdata(yaserde_cdata);
               writer.write(data).map_err(|e| e.to_string())?;
               let end_event = ::yaserde::__xml::writer::XmlEvent::end_element();
               writer.write(end_event).map_err(|e| e.to_string())?;
-- 
2.43.0


From 33a28fc0c6a3017aea8cdf8fc91cb0ea329a8cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:41 +0000
Subject: [PATCH 28/35] fix: read the variants with content of tagged enums

---
 yaserde_derive/src/de/expand_enum.rs | 44 +++++++++++++++++++++-------
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/yaserde_derive/src/de/expand_enum.rs b/yaserde_derive/src/de/expand_enum.rs
index 7bc3d06..d7db6f6 100644
--- a/yaserde_derive/src/de/expand_enum.rs
+++ b/yaserde_derive/src/de/expand_enum.rs
@@ -24,23 +24,45 @@ pub fn parse(
     .filter_map(|variant| parse_variant(variant, name, root_attributes))
     .collect();
 
+  let match_to_unit: TokenStream = data_enum
+    .variants
+    .iter()
+    .filter(|variant| matches!(variant.fields, Fields::Unit))
+    .filter_map(|variant| parse_variant(variant, name, root_attributes))
+    .collect();
+
   let flatten = root_attributes.flatten;
   let (impl_generics, ty_generics, where_clause) = generics.split_for_impl();
 
-  let own_element = !flatten && root_attributes.tag.is_none();
+  let tagged = root_attributes.tag.is_some();
+  let own_element = !flatten;
 
-  let element_name = if let Some(tag) = &root_attributes.tag {
-    quote! {
+  let match_to_text = if tagged {
+    quote!()
+  } else {
+    match_to_enum.clone()
+  };
+
+  // The tag is on the element holding the enum and names the variant, the content of which is inside
+  let match_tag = if let Some(tag) = &root_attributes.tag {
+    let tag_value = quote! {
       attributes
         .iter()
         .find(|attr| attr.name.local_name.as_str() == #tag)
         .ok_or(format!("Expected enum tagged with {}, found {:?}", #tag, event))?
         .value.as_str()
-    }
-  } else {
+    };
+
     quote! {
-      name.local_name.as_str()
+      if reader.depth() == start_depth {
+        match #tag_value {
+          #match_to_unit
+          _ => {}
+        }
+      }
     }
+  } else {
+    quote!()
   };
 
   quote! {
@@ -71,16 +93,18 @@ pub fn parse(
           ::yaserde::__derive_trace!("Enum {} @ {}: matching {:?}", stringify!(#name), start_depth, event);
           match event {
             ::yaserde::__xml::reader::XmlEvent::StartElement { ref name, ref attributes, .. } => {
-              if reader.depth() == start_depth && (#own_element || (#flatten && reader.at_flattened_root())) {
+              #match_tag
+
+              if reader.depth() == start_depth && (#own_element || #tagged || reader.at_flattened_root()) {
                 // Consume the element holding the enum first, it may share its name with a variant.
                 let _root = reader.next_event()?;
               } else {
-                match #element_name {
+                match name.local_name.as_str() {
                   #match_to_enum
                   _named_element => {
                     let _root = reader.next_event();
                     // The variants of a flattened enum may be in a root element, but not any deeper
-                    if #own_element || (#flatten && reader.depth() > start_depth + 1) {
+                    if #own_element || reader.depth() > start_depth + 1 {
                       reader.skip_element(|_| {})?;
                     }
                   }
@@ -89,7 +113,7 @@ pub fn parse(
 
               if let ::yaserde::__xml::reader::XmlEvent::Characters(content) = reader.peek()?.to_owned() {
                 match content.as_str() {
-                  #match_to_enum
+                  #match_to_text
                   _ => {}
                 }
               }
-- 
2.43.0


From 03ac2b5d09672251b5950aa9e023614425e2a3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:53 +0000
Subject: [PATCH 29/35] fix: write the optional fields and lists of values of
 struct-like variants

---
 yaserde_derive/src/ser/expand_enum.rs | 97 ++++++++++++---------------
 1 file changed, 43 insertions(+), 54 deletions(-)

diff --git a/yaserde_derive/src/ser/expand_enum.rs b/yaserde_derive/src/ser/expand_enum.rs
index f57a692..98c183e 100644
--- a/yaserde_derive/src/ser/expand_enum.rs
+++ b/yaserde_derive/src/ser/expand_enum.rs
@@ -157,65 +157,54 @@ fn inner_enum_inspector(
 
               let field_label_name = field.renamed_label(root_attributes);
 
-              match field.get_type() {
-                Field::FieldString
-                | Field::FieldBool
-                | Field::FieldU8
-                | Field::FieldI8
-                | Field::FieldU16
-                | Field::FieldI16
-                | Field::FieldU32
-                | Field::FieldI32
-                | Field::FieldF32
-                | Field::FieldU64
-                | Field::FieldI64
-                | Field::FieldF64 => Some({
-                  quote! {
-                    match self {
-                      &#name::#label { ref #field_label, .. } => {
-                        let struct_start_event =
-                          ::yaserde::__xml::writer::XmlEvent::start_element(#field_label_name);
-                        writer.write(struct_start_event).map_err(|e| e.to_string())?;
+              let write_item = |item_type: &Field| match item_type {
+                Field::FieldStruct { .. } => quote! {
+                  writer.set_start_event_name(
+                    ::std::option::Option::Some(#field_label_name.to_string()),
+                  );
+                  writer.set_skip_start_end(false);
+                  ::yaserde::YaSerialize::serialize(yaserde_item, writer)?;
+                },
+                _ => quote! {
+                  let struct_start_event =
+                    ::yaserde::__xml::writer::XmlEvent::start_element(#field_label_name);
+                  writer.write(struct_start_event).map_err(|e| e.to_string())?;
 
-                        let string_value = #field_label.to_string();
-                        let data_event = ::yaserde::__xml::writer::XmlEvent::characters(&string_value);
-                        writer.write(data_event).map_err(|e| e.to_string())?;
+                  let string_value = yaserde_item.to_string();
+                  let data_event = ::yaserde::__xml::writer::XmlEvent::characters(&string_value);
+                  writer.write(data_event).map_err(|e| e.to_string())?;
 
-                        let struct_end_event = ::yaserde::__xml::writer::XmlEvent::end_element();
-                        writer.write(struct_end_event).map_err(|e| e.to_string())?;
-                      },
-                      _ => {},
+                  let struct_end_event = ::yaserde::__xml::writer::XmlEvent::end_element();
+                  writer.write(struct_end_event).map_err(|e| e.to_string())?;
+                },
+              };
+
+              let write_field = match field.get_type() {
+                Field::FieldVec { data_type } | Field::FieldOption { data_type } => {
+                  let write_item = write_item(&data_type);
+                  quote! {
+                    for yaserde_item in yaserde_field {
+                      #write_item
                     }
                   }
-                }),
-                Field::FieldStruct { .. } => Some(quote! {
-                  match self {
-                    &#name::#label{ref #field_label, ..} => {
-                      writer.set_start_event_name(
-                        ::std::option::Option::Some(#field_label_name.to_string()),
-                      );
-                      writer.set_skip_start_end(false);
-                      ::yaserde::YaSerialize::serialize(#field_label, writer)?;
-                    },
-                    _ => {}
-                  }
-                }),
-                Field::FieldVec { .. } => Some(quote! {
-                  match self {
-                    &#name::#label { ref #field_label, .. } => {
-                      for item in #field_label {
-                        writer.set_start_event_name(
-                          ::std::option::Option::Some(#field_label_name.to_string()),
-                        );
-                        writer.set_skip_start_end(false);
-                        ::yaserde::YaSerialize::serialize(item, writer)?;
-                      }
-                    },
-                    _ => {}
+                }
+                item_type => {
+                  let write_item = write_item(&item_type);
+                  quote! {
+                    let yaserde_item = yaserde_field;
+                    #write_item
                   }
-                }),
-                Field::FieldOption { .. } => None,
-              }
+                }
+              };
+
+              Some(quote! {
+                match self {
+                  &#name::#label { #field_label: ref yaserde_field, .. } => {
+                    #write_field
+                  },
+                  _ => {},
+                }
+              })
             })
             .collect();
 
-- 
2.43.0


From d79ef12faab83b4619c7823344d505d76496922e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:53 +0000
Subject: [PATCH 30/35] fix: write lists of optional structs under the name of
 their field

---
 yaserde_derive/src/ser/expand_struct.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaserde_derive/src/ser/expand_struct.rs b/yaserde_derive/src/ser/expand_struct.rs
index 9a263b7..ec4a5ed 100644
--- a/yaserde_derive/src/ser/expand_struct.rs
+++ b/yaserde_derive/src/ser/expand_struct.rs
@@ -340,7 +340,7 @@ pub fn serialize(
             #conditions {
               for item in &self.#label {
                 if let Some(value) = item {
-                  writer.set_start_event_name(None);
+                  writer.set_start_event_name(::std::option::Option::Some(#label_name.to_string()));
                   writer.set_skip_start_end(false);
                   ::yaserde::YaSerialize::serialize(value, writer)?;
                 }
-- 
2.43.0


From f4023976dc7f54736c5ae3490a1bb98ab5a51a98 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:44 +0000
Subject: [PATCH 31/35] fix: read generic enums

The reader of a variant holding a type declared a visitor for it, which is never used and can not
name the parameters of a generic enum.
---
 yaserde_derive/src/de/expand_enum.rs | 24 ++++--------------------
 1 file changed, 4 insertions(+), 20 deletions(-)

diff --git a/yaserde_derive/src/de/expand_enum.rs b/yaserde_derive/src/de/expand_enum.rs
index d7db6f6..30ea8a1 100644
--- a/yaserde_derive/src/de/expand_enum.rs
+++ b/yaserde_derive/src/de/expand_enum.rs
@@ -1,6 +1,6 @@
 use crate::common::{Field, YaSerdeAttribute, YaSerdeField};
 use crate::ser::label::build_label_name;
-use proc_macro2::{Span, TokenStream};
+use proc_macro2::TokenStream;
 use quote::quote;
 use syn::{DataEnum, Fields, Generics, Ident};
 
@@ -156,7 +156,7 @@ pub fn parse(
         }
 
         ::yaserde::__derive_debug!("Enum {} @ {}: success", stringify!(#name), start_depth);
-        ::std::result::Result::Ok(enum_value.unwrap_or(<#name as ::std::default::Default>::default()))
+        ::std::result::Result::Ok(enum_value.unwrap_or(<Self as ::std::default::Default>::default()))
       }
     }
   }
@@ -262,24 +262,8 @@ fn build_unnamed_field_visitors(fields: &syn::FieldsUnnamed) -> TokenStream {
       };
 
       match field.get_type() {
-        Field::FieldStruct { struct_name } => {
-          let struct_id: String = struct_name
-            .segments
-            .iter()
-            .map(|s| s.ident.to_string())
-            .collect();
-
-          Some(make_visitor(
-            &Ident::new("visit_str", Span::call_site()),
-            &quote! { #struct_name },
-            &quote! {
-              let content = "<".to_string() + #struct_id + ">" + v + "</" + #struct_id + ">";
-              let value: ::std::result::Result<#struct_name, ::std::string::String> =
-                ::yaserde::de::from_str(&content);
-              value
-            },
-          ))
-        }
+        // The content reads itself
+        Field::FieldStruct { .. } => None,
         Field::FieldOption { data_type } | Field::FieldVec { data_type } => match *data_type {
           Field::FieldStruct { .. } => None,
           simple_type => Some(simple_type_visitor(simple_type)),
-- 
2.43.0


From 711b6143f0f7671574d5133f84894947d9ff4206 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:33 +0000
Subject: [PATCH 32/35] fix: restore the defaults of options, lists and
 flattened fields

A value equal to the default is left out of the document; options, lists and
flattened structs were then read as absent, or as an error.
---
 yaserde_derive/src/de/expand_struct.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index 0bbe1a7..2ddb468 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -209,6 +209,10 @@ pub fn parse(
       let value_label = field.get_value_label();
 
       match field.get_type() {
+        // Without what the field needs, it has its default
+        Field::FieldStruct { .. } if field.get_default_function().is_some() => quote! {
+          #value_label = ::yaserde::de::from_flattened(&unused_xml_events).ok();
+        },
         Field::FieldStruct { .. } => quote! {
           #value_label = Some(::yaserde::de::from_flattened(&unused_xml_events)?);
         },
@@ -349,9 +353,18 @@ pub fn parse(
       let value_label = field.get_value_label();
 
       match field.get_type() {
-        Field::FieldOption { .. } | Field::FieldVec { .. } => {
-          quote! { #label: #value_label, }
-        }
+        Field::FieldOption { .. } => match field.get_default_function() {
+          Some(default_function) => {
+            quote! { #label: #value_label.or_else(|| #default_function()), }
+          }
+          None => quote! { #label: #value_label, },
+        },
+        Field::FieldVec { .. } => match field.get_default_function() {
+          Some(default_function) => quote! {
+            #label: if #value_label.is_empty() { #default_function() } else { #value_label },
+          },
+          None => quote! { #label: #value_label, },
+        },
         _ => {
           if let Some(default_function) = field.get_default_function() {
             quote! { #label: #value_label.unwrap_or_else(|| #default_function()), }
-- 
2.43.0


From 21475b2dfaa8c75c8fed30c875769df4aed0b948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:25 +0000
Subject: [PATCH 33/35] fix: do not read the attributes of other fields of the
 same local name

---
 yaserde/src/de/mod.rs                  | 28 +++++++++++++-------
 yaserde_derive/src/de/expand_struct.rs | 36 +++++++++++++++++++++++---
 2 files changed, 51 insertions(+), 13 deletions(-)

diff --git a/yaserde/src/de/mod.rs b/yaserde/src/de/mod.rs
index a4bd44c..7556344 100644
--- a/yaserde/src/de/mod.rs
+++ b/yaserde/src/de/mod.rs
@@ -24,23 +24,31 @@ pub fn from_flattened<T: YaDeserialize>(events: &[XmlEvent]) -> Result<T, String
   <T as YaDeserialize>::deserialize(&mut reader)
 }
 
-/// The attributes a field reads: those of its namespace, or else any of its local name.
+/// The attributes a field reads: those of its namespace, or else any of its local name, without
+/// those in the namespaces of other fields of that name.
 /// Used in code generated by yaserde_derive.
 #[doc(hidden)]
 pub fn matching_attributes<'a>(
   attributes: &'a [OwnedAttribute],
   local_name: &'a str,
   namespace: &'a str,
+  other_namespaces: &'a [&'a str],
 ) -> impl Iterator<Item = &'a OwnedAttribute> {
-  let has_name = move |attr: &&OwnedAttribute| attr.name.local_name == local_name;
-  let has_namespace =
-    move |attr: &&OwnedAttribute| attr.name.namespace.as_deref().unwrap_or_default() == namespace;
-  let exact = attributes.iter().filter(has_name).any(|attr| has_namespace(&attr));
-
-  attributes
-    .iter()
-    .filter(has_name)
-    .filter(move |attr| !exact || has_namespace(attr))
+  let namespace_of = |attr: &'a OwnedAttribute| attr.name.namespace.as_deref().unwrap_or_default();
+  let named = move || {
+    attributes
+      .iter()
+      .filter(move |attr| attr.name.local_name == local_name)
+  };
+  let exact = named().any(|attr| namespace_of(attr) == namespace);
+
+  named().filter(move |attr| {
+    if exact {
+      namespace_of(attr) == namespace
+    } else {
+      !other_namespaces.contains(&namespace_of(attr))
+    }
+  })
 }
 
 pub struct Deserializer<R: Read> {
diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index 2ddb468..e25502b 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -237,10 +237,30 @@ pub fn parse(
       let label_name = field.renamed_label_without_namespace();
       let visitor_label = field.get_visitor_ident(None);
       let namespace = field.prefix_namespace(root_attributes);
+      let other_namespaces: Vec<String> = data_struct
+        .fields
+        .iter()
+        .map(|other| YaSerdeField::new(other.clone()))
+        .filter(|other| other.is_attribute() && other.label() != field.label())
+        .filter(|other| other.renamed_label_without_namespace() == label_name)
+        .flat_map(|other| {
+          // attributes with the prefix of the default namespace are written without it
+          let unprefixed = other.renamed_label(root_attributes) == label_name;
+          let unprefixed = unprefixed.then(String::new);
+          [Some(other.prefix_namespace(root_attributes)), unprefixed]
+        })
+        .flatten()
+        .filter(|other| *other != namespace)
+        .collect();
 
       let visit = |action: &TokenStream, visitor: &Ident, visitor_label: &Ident| {
         Some(quote! {
-          for attr in ::yaserde::de::matching_attributes(attributes, #label_name, #namespace) {
+          for attr in ::yaserde::de::matching_attributes(
+            attributes,
+            #label_name,
+            #namespace,
+            &[#(#other_namespaces),*],
+          ) {
             let visitor = #visitor_label{};
             let value = visitor.#visitor(&attr.value)?;
             #label #action;
@@ -250,7 +270,12 @@ pub fn parse(
 
       let visit_vec = |action: &TokenStream, visitor: &Ident, visitor_label: &Ident| {
         Some(quote! {
-          for attr in ::yaserde::de::matching_attributes(attributes, #label_name, #namespace) {
+          for attr in ::yaserde::de::matching_attributes(
+            attributes,
+            #label_name,
+            #namespace,
+            &[#(#other_namespaces),*],
+          ) {
             for value in attr.value.split_whitespace() {
               let visitor = #visitor_label{};
               let value = visitor.#visitor(value)?;
@@ -262,7 +287,12 @@ pub fn parse(
 
       let visit_string = || {
         Some(quote! {
-          for attr in ::yaserde::de::matching_attributes(attributes, #label_name, #namespace) {
+          for attr in ::yaserde::de::matching_attributes(
+            attributes,
+            #label_name,
+            #namespace,
+            &[#(#other_namespaces),*],
+          ) {
             #label = Some(attr.value.to_owned());
           }
         })
-- 
2.43.0


From cb67f4a20a1c54c48f24e23fe0aee17af6818b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:28 +0000
Subject: [PATCH 34/35] fix: write types and variants with raw identifiers
 without their r# marker

---
 yaserde_derive/src/common/attribute.rs | 6 +++++-
 yaserde_derive/src/common/field.rs     | 2 +-
 yaserde_derive/src/de/expand_struct.rs | 3 ++-
 yaserde_derive/src/primitives.rs       | 3 ++-
 yaserde_derive/src/ser/label.rs        | 3 ++-
 5 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/yaserde_derive/src/common/attribute.rs b/yaserde_derive/src/common/attribute.rs
index 3532af1..68a1140 100644
--- a/yaserde_derive/src/common/attribute.rs
+++ b/yaserde_derive/src/common/attribute.rs
@@ -4,6 +4,7 @@ use serde::Deserialize;
 use serde_tokenstream::from_tokenstream;
 use std::collections::BTreeMap;
 use std::convert::TryFrom;
+use syn::ext::IdentExt;
 use syn::{Attribute, Meta};
 
 #[derive(Clone, Debug, Default, PartialEq, Deserialize)]
@@ -88,7 +89,10 @@ impl From<&Vec<Attribute>> for YaSerdeAttribute {
 
 impl YaSerdeAttribute {
   pub fn xml_element_name(&self, ident: &Ident) -> String {
-    self.rename.clone().unwrap_or_else(|| ident.to_string())
+    self
+      .rename
+      .clone()
+      .unwrap_or_else(|| ident.unraw().to_string())
   }
 
   pub fn prefix_namespace(&self) -> String {
diff --git a/yaserde_derive/src/common/field.rs b/yaserde_derive/src/common/field.rs
index 9ce211a..7cd84ad 100644
--- a/yaserde_derive/src/common/field.rs
+++ b/yaserde_derive/src/common/field.rs
@@ -89,7 +89,7 @@ impl YaSerdeField {
         struct_name
           .segments
           .iter()
-          .map(|s| s.ident.to_string())
+          .map(|s| s.ident.unraw().to_string())
           .collect()
       },
     );
diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index e25502b..9f63ada 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -2,6 +2,7 @@ use super::build_default_value::{build_default_value, build_default_vec_value};
 use crate::common::{Field, YaSerdeAttribute, YaSerdeField};
 use proc_macro2::{Span, TokenStream};
 use quote::quote;
+use syn::ext::IdentExt;
 use syn::{DataStruct, Generics, Ident};
 
 pub fn parse(
@@ -67,7 +68,7 @@ pub fn parse(
         let struct_id: String = struct_name
           .segments
           .iter()
-          .map(|s| s.ident.to_string())
+          .map(|s| s.ident.unraw().to_string())
           .collect();
 
         let visitor_label = field.get_visitor_ident(Some(&struct_name));
diff --git a/yaserde_derive/src/primitives.rs b/yaserde_derive/src/primitives.rs
index bbaba13..00b47b6 100644
--- a/yaserde_derive/src/primitives.rs
+++ b/yaserde_derive/src/primitives.rs
@@ -4,13 +4,14 @@
 use proc_macro::TokenStream;
 use proc_macro2::TokenStream as TokenStream2;
 use quote::quote;
+use syn::ext::IdentExt;
 use syn::{parse_macro_input, DeriveInput};
 
 pub fn primitive_yaserde(input: TokenStream) -> TokenStream {
   let ast = parse_macro_input!(input as DeriveInput);
 
   let struct_name = &ast.ident;
-  let struct_name_literal = &ast.ident.to_string();
+  let struct_name_literal = &ast.ident.unraw().to_string();
 
   let serde = quote! {
       impl ::yaserde::YaSerialize for #struct_name {
diff --git a/yaserde_derive/src/ser/label.rs b/yaserde_derive/src/ser/label.rs
index 89998a5..bc3a0bb 100644
--- a/yaserde_derive/src/ser/label.rs
+++ b/yaserde_derive/src/ser/label.rs
@@ -1,5 +1,6 @@
 use crate::common::YaSerdeAttribute;
 use proc_macro2::Ident;
+use syn::ext::IdentExt;
 
 pub fn build_label_name(
   label: &Ident,
@@ -18,7 +19,7 @@ pub fn build_label_name(
   let label = field_attrs
     .rename
     .clone()
-    .unwrap_or_else(|| label.to_string());
+    .unwrap_or_else(|| label.unraw().to_string());
 
   format!("{}{}", prefix, label)
 }
-- 
2.43.0


From 064084cbd12c3f1a43d7144990c0c0776c16713b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:48 +0000
Subject: [PATCH 35/35] fix: read enums in fields of a namespace the enum does
 not declare

---
 yaserde_derive/src/de/expand_enum.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaserde_derive/src/de/expand_enum.rs b/yaserde_derive/src/de/expand_enum.rs
index 30ea8a1..41987be 100644
--- a/yaserde_derive/src/de/expand_enum.rs
+++ b/yaserde_derive/src/de/expand_enum.rs
@@ -81,7 +81,7 @@ pub fn parse(
         let start_depth = reader.depth();
         ::yaserde::__derive_debug!("Enum {} @ {}: start to parse {:?}", stringify!(#name), start_depth, named_element);
 
-        if !reader.at_flattened_root() {
+        if start_depth == 0 && !reader.at_flattened_root() {
           #namespaces_matching
         }
 
-- 
2.43.0

